// Variant: active alternative and value (C23), lifetimes and exceptions (C22).
#include "vxlib.hpp"
#include <cetl/pf17/variant.hpp>

#ifndef VX_K
#    define VX_K 2
#endif
#ifndef VX_BUDGET
#    define VX_BUDGET 0
#endif
using namespace vx;
namespace
{
using cetl::pf17::in_place_index;
using cetl::pf17::in_place_type;
using cetl::pf17::variant;
using cetl::pf17::variant_npos;

// ------------------------------------------------------------------------------------------------------- value types
u8 get(u8 x) { return x; }
template <int K, int P>
u8 get(const Elem<K, P>& e) { return e.get(); }
/// Trivial to copy and destroy, but with assignments of its own.
struct Assigns
{
    u8 v;
    Assigns(u8 x) : v(x) {}
    Assigns(const Assigns&) = default;
    Assigns(Assigns&&)      = default;
    Assigns& operator=(const Assigns& o) { v = o.v; return *this; }
    Assigns& operator=(Assigns&& o) { const u8 t = o.v; o.v = 0xEE; v = t; return *this; }
};
u8 get(const Assigns& a) { return a.v; }
/// Copied by code of its own, moved trivially.
struct Copies
{
    u8 v;
    u8 inv;
    Copies(u8 x) : v(x), inv(static_cast<u8>(~x)) {}
    Copies(const Copies& o) : v(o.v), inv(o.inv) {}
    Copies(Copies&&) = default;
    Copies& operator=(const Copies& o) { v = o.v; inv = o.inv; return *this; }
    Copies& operator=(Copies&&) = default;
};
u8 get(const Copies& a)
{
    VX_ASSERT(a.inv == static_cast<u8>(~a.v), "value is torn");
    return a.v;
}
/// Copied but never moved.
struct CopyOnly
{
    Elem<2> e;
    CopyOnly(u8 x) : e(x) {}
    CopyOnly(const CopyOnly&)            = default;
    CopyOnly& operator=(const CopyOnly&) = default;
};
u8 get(const CopyOnly& a) { return a.e.get(); }
/// Two bytes, all trivial.
struct Pair
{
    u8 a, b;
    Pair(u8 x) : a(x), b(static_cast<u8>(x ^ 0xFF)) {}
};
u8 get(const Pair& p)
{
    VX_ASSERT(p.b == static_cast<u8>(p.a ^ 0xFF), "value is torn");
    return p.a;
}
/// Can be made to fail on demand, to obtain a variant without value.
struct Fail {};
struct Bomb
{
    u8 v;
    Bomb(u8 x) : v(x) {}
    Bomb(Fail)
    {
#if VX_EXC
        throw Fail{};
#endif
    }
};
u8 get(const Bomb& b) { return b.v; }
#if VX_EXC
constexpr bool HasExc = true;
#else
constexpr bool HasExc = false;
#endif

template <typename T>
struct Traits
{
    static constexpr bool copy     = true;
    static constexpr bool moves    = false;  // move construction leaves a mark
    static constexpr bool moves_as = false;  // move assignment leaves a mark
};
template <int K, int P>
struct Traits<Elem<K, P>>
{
    static constexpr bool copy     = K != 3;
    static constexpr bool moves    = true;
    static constexpr bool moves_as = true;
};
template <>
struct Traits<Assigns>
{
    static constexpr bool copy     = true;
    static constexpr bool moves    = false;
    static constexpr bool moves_as = true;
};
struct Model
{
    std::size_t ix = variant_npos;
    u8          v  = 0;
};
template <bool C>
using Bool = std::integral_constant<bool, C>;
template <std::size_t N>
using Ix = std::integral_constant<std::size_t, N>;

template <std::size_t N, typename F>
void with_index(std::size_t i, F&& f, Ix<N>)
{
    if (i == N - 1)
        f(Ix<N - 1>{});
    else
        with_index(i, f, Ix<N - 1>{});
}
template <typename F>
void with_index(std::size_t, F&&, Ix<0>) { VX_SANITY(false, "no such alternative"); }

template <typename T, typename... Ts>
struct Count : Ix<0> {};
template <typename T, typename H, typename... Ts>
struct Count<T, H, Ts...> : Ix<Count<T, Ts...>::value + (std::is_same<T, H>::value ? 1 : 0)> {};
template <bool... B>
struct All : std::true_type {};
template <bool H, bool... B>
struct All<H, B...> : Bool<H && All<B...>::value> {};

template <typename... Ts>
struct Machine
{
    using V                        = variant<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    template <std::size_t I>
    using T = std::tuple_element_t<I, std::tuple<Ts...>>;
    template <std::size_t I>
    static constexpr bool unique = Count<T<I>, Ts...>::value == 1;
    static constexpr bool copies = All<Traits<Ts>::copy...>::value;

    static int injected() { return life().thrown; }

    template <typename Fn>
    static void each(Fn&& fn) { each(fn, Ix<N>{}); }
    template <typename Fn, std::size_t K>
    static void each(Fn& fn, Ix<K>) { each(fn, Ix<K - 1>{}); fn(Ix<K - 1>{}); }
    template <typename Fn>
    static void each(Fn&, Ix<0>) {}

    // ------------------------------------------------------------------------------------------------------ checking
    template <typename Fn>
    static bool rejected(Fn fn)
    {
#if VX_EXC
        try
        {
            fn();
            return false;
        }
        catch (const cetl::pf17::bad_variant_access&)
        {
            return true;
        }
#elif VX_K > 1
        return true;
#else
        return ends_program(fn);
#endif
    }
    template <std::size_t I>
    static void check_typed(V& v, bool on, std::true_type)
    {
        using cetl::pf17::get_if;
        using U    = T<I>;
        const V& c = v;
        VX_ASSERT(cetl::pf17::holds_alternative<U>(c) == on, "holds_alternative is wrong");
        VX_ASSERT(get_if<U>(&v) == get_if<I>(&v) && get_if<U>(&c) == get_if<I>(&c), "access by type and by index differ");
        if (on)
            VX_ASSERT(&cetl::pf17::get<U>(v) == get_if<I>(&v) && &cetl::pf17::get<U>(c) == get_if<I>(&v), "access by type refers to a different object");
        else
            VX_ASSERT(rejected([&] { (void) cetl::pf17::get<U>(v); }) && rejected([&] { (void) cetl::pf17::get<U>(c); }) &&
                          rejected([&] { (void) cetl::pf17::get<U>(std::move(v)); }),
                      "access to an alternative that is not held was not rejected");
    }
    template <std::size_t I>
    static void check_typed(V&, bool, std::false_type) {}
    static void check(V& v, const Model& m)
    {
        const V& c = v;
        VX_ASSERT(c.index() == m.ix, "index is wrong");
        VX_ASSERT(c.valueless_by_exception() == (m.ix == variant_npos), "valueless_by_exception is wrong");
        each([&](auto i) {
            using cetl::pf17::get_if;
            constexpr std::size_t I  = decltype(i)::value;
            const bool            on = I == m.ix;
            auto*                 p  = get_if<I>(&v);
            const auto*           q  = get_if<I>(&c);
            VX_ASSERT((p != nullptr) == on && q == p, "get_if disagrees with the active alternative");
            VX_ASSERT(get_if<I>(static_cast<V*>(nullptr)) == nullptr && get_if<I>(static_cast<const V*>(nullptr)) == nullptr, "get_if of nothing is not null");
            if (on)
            {
                VX_ASSERT(vx_get(*p) == m.v, "value is wrong");
                VX_ASSERT(&cetl::pf17::get<I>(v) == p && &cetl::pf17::get<I>(c) == p, "get refers to a different object");
                auto&&       r = cetl::pf17::get<I>(std::move(v));
                const auto&& s = cetl::pf17::get<I>(std::move(c));
                VX_ASSERT(&r == p && &s == p, "get of an expiring variant refers to a different object");
                VX_ASSERT(static_cast<const void*>(p) == static_cast<const void*>(&v), "the alternative is not at the address of the variant");
            }
            else
                VX_ASSERT(rejected([&] { (void) cetl::pf17::get<I>(v); }) && rejected([&] { (void) cetl::pf17::get<I>(c); }) &&
                              rejected([&] { (void) cetl::pf17::get<I>(std::move(v)); }) && rejected([&] { (void) cetl::pf17::get<I>(std::move(c)); }),
                          "access to an alternative that is not held was not rejected");
            check_typed<I>(v, on, Bool<unique<I>>{});
        });
    }
    template <typename U>
    static u8 vx_get(const U& u) { return get(u); }
    /// After a failure that may leave either no value or a valid one.
    static void adopt(V& v, Model& m)
    {
        m.ix = v.index();
        VX_ASSERT(m.ix < N || (m.ix == variant_npos && v.valueless_by_exception()), "index is neither an alternative nor none");
        each([&](auto i) {
            constexpr std::size_t I = decltype(i)::value;
            if (I == m.ix) m.v = vx_get(*cetl::pf17::get_if<I>(&v));
        });
    }
    template <typename Fn>
    static bool attempt(Fn fn)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            fn();
            ok = true;
        }
        VX_CATCH(const Boom&) {}
        VX_ASSERT(ok == (injected() == b), "exception of the value type did not reach the caller, or there was none");
        if (!ok) VX_REACH("failed");
        return ok;
    }
    static void moved(Model& m, bool assigned)
    {
        each([&](auto i) {
            constexpr std::size_t I = decltype(i)::value;
            if (I == m.ix && (assigned ? Traits<T<I>>::moves_as : Traits<T<I>>::moves)) m.v = 0xEE;
        });
    }
    // ----------------------------------------------------------------------------------------------------- operations
    static std::size_t pick() { return N == 1 ? 0 : static_cast<std::size_t>(choice("alt", N)); }
    template <std::size_t I>
    static void emplace_typed(V& v, u8 x, std::true_type)
    {
        auto& r = v.template emplace<T<I>>(x);
        VX_ASSERT(&r == cetl::pf17::get_if<I>(&v), "emplace returned a different object");
    }
    template <std::size_t I>
    static void emplace_typed(V& v, u8 x, std::false_type) { v.template emplace<I>(x); }
    static void emplace(V& v, Model& m, u8 x)
    {
        const bool how = flag("typed");
        with_index(pick(), [&](auto i) {
            constexpr std::size_t I = decltype(i)::value;
            const bool            ok = attempt([&] {
                if (how)
                    emplace_typed<I>(v, x, Bool<unique<I>>{});
                else
                {
                    auto& r = v.template emplace<I>(x);
                    VX_ASSERT(&r == cetl::pf17::get_if<I>(&v), "emplace returned a different object");
                }
            });
            if (ok)
                m = Model{I, x};
            else
                adopt(v, m);
        }, Ix<N>{});
    }
    // A failed assignment of an alternative other than the active one keeps the old value if the new one can be moved
    // without throwing; otherwise the variant may be left without value.
    template <std::size_t I>
    static void assign_failed(V& v, Model& m)
    {
        if (I != m.ix && !std::is_nothrow_move_constructible<T<I>>::value) adopt(v, m);
    }
    template <std::size_t I>
    static void set(V& v, Model& m, u8 x, bool lvalue, std::true_type)
    {
        const bool ok = attempt([&] {
            if (lvalue)
            {
                const T<I> t(x);
                V&         r = (v = t);
                VX_ASSERT(&r == &v && vx_get(t) == x, "assignment changed its source or returned something else");
            }
            else
            {
                V& r = (v = T<I>(x));
                VX_ASSERT(&r == &v, "assignment does not return the target");
            }
        });
        if (ok)
            m = Model{I, x};
        else
            assign_failed<I>(v, m);
    }
    template <std::size_t I>
    static void set(V& v, Model& m, u8 x, bool, std::false_type)
    {
        const bool ok = attempt([&] { v = T<I>(x); });
        if (ok)
            m = Model{I, x};
        else
            assign_failed<I>(v, m);
    }
    template <std::size_t I>
    static void set_unique(V& v, Model& m, u8 x, bool lvalue, std::true_type) { set<I>(v, m, x, lvalue, Bool<Traits<T<I>>::copy>{}); }
    template <std::size_t I>
    static void set_unique(V&, Model&, u8, bool, std::false_type) {}
    static void assign(V& v, Model& m, u8 x)
    {
        const bool lvalue = flag("lvalue");
        with_index(pick(), [&](auto i) {
            constexpr std::size_t I = decltype(i)::value;
            set_unique<I>(v, m, x, lvalue, Bool<unique<I>>{});
        }, Ix<N>{});
    }
    static void copy_assign(V& v, Model& m, const V& o, const Model& n, std::true_type)
    {
        if (attempt([&] { V& r = (v = o); VX_ASSERT(&r == &v, "assignment does not return the target"); }))
            m = n;
        else
            with_index(n.ix, [&](auto i) { assign_failed<decltype(i)::value>(v, m); }, Ix<N>{});
    }
    static void copy_assign(V&, Model&, const V&, const Model&, std::false_type) {}
    static void move_assign(V& v, Model& m, V& o, Model& n)
    {
        const bool same = m.ix == n.ix;
        if (attempt([&] { V& r = (v = std::move(o)); VX_ASSERT(&r == &v, "assignment does not return the target"); }))
        {
            m = n;
            moved(n, same);
        }
        else if (!same)
            adopt(v, m);
    }
    static void swap(V& v, Model& m, V& o, Model& n)
    {
        if (attempt([&] { v.swap(o); }))
            std::swap(m, n);
        else
        {
            adopt(v, m);
            adopt(o, n);
        }
    }
    static void copy_construct(V& v, Model& m, std::true_type)
    {
        attempt([&] {
            const V& c = v;
            V        t{c};
            check(t, m);
            change(t);
            check(v, m);
        });
    }
    static void change(V& t)
    {
        each([&](auto i) {
            constexpr std::size_t I = decltype(i)::value;
            if (auto* const p = cetl::pf17::get_if<I>(&t)) *p = T<I>(0x5A);
        });
    }
    static void copy_construct(V&, Model&, std::false_type) {}
    static void move_construct(V& v, Model& m)
    {
        attempt([&] {
            V           t{std::move(v)};
            const Model k = m;
            moved(m, false);
            check(t, k);
            check(v, m);
        });
    }
    static void extract(V& v, Model& m)
    {
        if (m.ix == variant_npos) return;
        with_index(m.ix, [&](auto i) {
            constexpr std::size_t I = decltype(i)::value;
            attempt([&] {
                T<I> t(cetl::pf17::get<I>(std::move(v)));
                VX_ASSERT(vx_get(t) == m.v, "value moved out is wrong");
                moved(m, false);
            });
        }, Ix<N>{});
    }
    static void self(V& v, Model& m, std::true_type)
    {
        const V& c = v;
        attempt([&] { v = c; });
        self(v, m, std::false_type{});
    }
    static void self(V& v, Model& m, std::false_type)
    {
        if (!attempt([&] { v.swap(v); })) adopt(v, m);
    }
    template <std::size_t I>
    static void construct_unique(u8 x, std::true_type)
    {
        V     a(in_place_type<T<I>>, x), b(T<I>{x});
        Model m{I, x};
        check(a, m);
        check(b, m);
    }
    template <std::size_t I>
    static void construct_unique(u8, std::false_type) {}
    static void construct(u8 x)
    {
        with_index(pick(), [&](auto i) {
            constexpr std::size_t I = decltype(i)::value;
            attempt([&] {
                V     a(in_place_index<I>, x);
                Model m{I, x};
                check(a, m);
                construct_unique<I>(x, Bool<unique<I>>{});
            });
        }, Ix<N>{});
    }
    static void step(V& v, Model& m, V& o, Model& n)
    {
        const u64 op = choice("op", 10);
        __vx_shard(op);
        const u8 x = op < 2 || op == 9 ? sym8("v") : 0;
        switch (op)
        {
        case 0: emplace(v, m, x); break;
        case 1: assign(v, m, x); break;
        case 2: copy_assign(v, m, o, n, Bool<copies>{}); break;
        case 3: move_assign(v, m, o, n); break;
        case 4: swap(v, m, o, n); break;
        case 5: copy_construct(v, m, Bool<copies>{}); break;
        case 6: move_construct(v, m); break;
        case 7: extract(v, m); break;
        case 8: self(v, m, Bool<copies>{}); break;
        case 9: construct(x); break;
        }
    }
    template <std::size_t I>
    static void explode(V& v, std::true_type)
    {
#if VX_EXC
        try
        {
            v.template emplace<I>(Fail{});
            VX_ASSERT(false, "exception of the constructor was lost");
        }
        catch (const Fail&)
        {
        }
#endif
    }
    template <std::size_t I>
    static void explode(V&, std::false_type) {}
    /// Any alternative, or none.
    static void init(V& v, Model& m, const char* what)
    {
        constexpr bool none = HasExc && Count<Bomb, Ts...>::value == 1;
        const u64      how  = none || N > 1 ? choice(what, N + (none ? 1 : 0)) : 0;
        if (how < N)
        {
            const u8 x = sym8("i");
            with_index(how, [&](auto i) { v.template emplace<decltype(i)::value>(x); }, Ix<N>{});
            m = Model{static_cast<std::size_t>(how), x};
        }
        else
        {
            each([&](auto i) {
                constexpr std::size_t I = decltype(i)::value;
                explode<I>(v, Bool<std::is_same<T<I>, Bomb>::value>{});
            });
            adopt(v, m);
        }
        __vx_shard(how);
    }
    static void run()
    {
        {
            throw_budget(0);
            V     x(in_place_index<0>, u8{1}), y(in_place_index<0>, u8{2});
            Model m, n;
            init(x, m, "x");
            init(y, n, "y");
            throw_budget(VX_BUDGET);
            for (int k = 0; k < VX_K; ++k)
            {
                if (k > 0 && flag("turn"))
                    step(y, n, x, m);
                else
                    step(x, m, y, n);
                check(x, m);
                check(y, n);
            }
        }
        end_checks();
        end_path();
    }
};
// ------------------------------------------------------------------------------------- values of some other type
struct Src
{
    u8 v;
    explicit Src(u8 x) : v(x) {}
    Src(const Src& o) : v(o.v) {}
    Src(Src&& o) : v(o.v) {}
};
template <int K>
struct Conv
{
    Elem<K> e;
    Conv(u8 x) : e(x) {}
    Conv(const Src& s) : e(s.v) {}
};
template <int K>
u8 get(const Conv<K>& c) { return c.e.get(); }
template <int K>
struct Traits<Conv<K>> : Traits<Elem<K>> {};

template <typename C>
void run_convert()
{
    {
        using M = Machine<Bomb, C, u8>;
        using V = typename M::V;
        throw_budget(0);
        V     v(in_place_index<2>, u8{1});
        Model m;
        M::init(v, m, "v");
        const u8  x  = sym8("x");
        const u64 op = choice("op", 4);
        __vx_shard(op);
        throw_budget(VX_BUDGET);
        const Src c(x);
        bool      ok = false;
        switch (op)
        {
        case 0: ok = M::attempt([&] { V& r = (v = Src(x)); VX_ASSERT(&r == &v, "assignment does not return the target"); }); break;
        case 1: ok = M::attempt([&] { V& r = (v = c); VX_ASSERT(&r == &v && c.v == x, "assignment does not return the target"); }); break;
        case 2: M::attempt([&] { V t(c); M::check(t, Model{1, x}); }); break;
        case 3: M::attempt([&] { V t = Src(x); M::check(t, Model{1, x}); }); break;
        }
        if (op < 2)
        {
            if (ok)
                m = Model{1, x};
            else
                M::template assign_failed<1>(v, m);
        }
        M::check(v, m);
    }
    end_checks();
    end_path();
}
}  // namespace
VX_HARNESS(var_convert) { run_convert<Conv<0>>(); }
VX_HARNESS(var_convert_copy) { run_convert<Conv<2>>(); }
VX_HARNESS(var_convert_all) { run_convert<Conv<1>>(); }
VX_HARNESS(var_trivial) { Machine<u8, Pair, Bomb>::run(); }
VX_HARNESS(var_mixed) { Machine<u8, Elem<0>, Bomb, Pair>::run(); }
VX_HARNESS(var_throw_all) { Machine<Elem<1>, Bomb, Elem<1, 8>>::run(); }
VX_HARNESS(var_throw_copy) { Machine<Elem<2>, u8, Elem<1>, Elem<2, 8>>::run(); }
VX_HARNESS(var_move_only) { Machine<Bomb, Elem<3>, Elem<0>>::run(); }
VX_HARNESS(var_copy_only) { Machine<CopyOnly, Bomb>::run(); }
VX_HARNESS(var_dup) { Machine<u8, Elem<0>, u8>::run(); }
VX_HARNESS(var_single) { Machine<Elem<1>>::run(); }
VX_HARNESS(var_single_bomb) { Machine<Bomb>::run(); }
VX_HARNESS(var_assigns) { Machine<Assigns, Bomb, u8>::run(); }
VX_HARNESS(var_copies) { Machine<Copies, Bomb, Assigns>::run(); }
VX_HARNESS(var_many) { Machine<u8, Elem<0>, Elem<0, 2>, Pair, Assigns, Elem<0, 3>, Copies, Bomb, Elem<0, 4>, Elem<0, 5>>::run(); }

namespace
{
/// Made of a list and further arguments, which it must receive as they were given.
struct List
{
    u8 n, first, last, how;
    u8 a, b;
    void take(std::initializer_list<u8> l) { n = static_cast<u8>(l.size()); first = *l.begin(); last = *(l.end() - 1); }
    List() : n(0), first(0), last(0), how(5), a(0), b(0) {}
    List(std::initializer_list<u8> l) : how(0), a(0), b(0) { take(l); }
    List(std::initializer_list<u8> l, const u8& x, u8& y) : how(1), a(x), b(y) { take(l); y = 0x77; }
    List(std::initializer_list<u8> l, u8&& x, Elem<3> y) : how(2), a(x), b(y.get()) { take(l); }
    List(const u8& x, u8& y) : n(0), first(0), last(0), how(3), a(x), b(y) { y = 0x77; }
    List(u8&& x, Elem<3> y) : n(0), first(0), last(0), how(4), a(x), b(y.get()) {}
    bool is(u8 N, u8 f, u8 l, u8 h, u8 x, u8 y) const { return n == N && first == f && last == l && how == h && a == x && b == y; }
};
}  // namespace
/// Alternatives made in place of a list or of several arguments.
VX_HARNESS(var_lists)
{
    {
        using V = variant<u8, List, Elem<0>>;
        const u8  x = sym8("x"), y = sym8("y"), z = sym8("z");
        const u8  c = x;
        u8        r = y;
        const u64 k = choice("before", 3), op = choice("op", 12);
        __vx_shard(k);
        __vx_shard(op);
        V v(in_place_index<0>, z);
        if (k == 1) v.emplace<1>({z});
        if (k == 2) v.emplace<2>(z);
        bool made = true;
        auto is   = [](const V& w, u8 N, u8 f, u8 l, u8 h, u8 a, u8 b) {
            const List* const p = cetl::pf17::get_if<1>(&w);
            VX_ASSERT(w.index() == 1 && p != nullptr, "another alternative is active");
            VX_ASSERT(p == nullptr || p->is(N, f, l, h, a, b), "made with a different value");
        };
        switch (op)
        {
        case 0: { V t(in_place_index<1>, {x, y, z}); is(t, 3, x, z, 0, 0, 0); made = false; break; }
        case 1: { V t(in_place_index<1>, {x, y}, c, r); is(t, 2, x, y, 1, x, y); made = false; break; }
        case 2: { V t(in_place_type<List>, {x}, u8(x), Elem<3>(z)); is(t, 1, x, x, 2, x, z); made = false; break; }
        case 3: { V t(in_place_type<List>, c, r); is(t, 0, 0, 0, 3, x, y); made = false; break; }
        case 4: { V t(in_place_index<1>, u8(x), Elem<3>(z)); is(t, 0, 0, 0, 4, x, z); made = false; break; }
        case 5: { List& t = v.emplace<1>({x, y, z}); is(v, 3, x, z, 0, 0, 0); VX_ASSERT(&t == cetl::pf17::get_if<1>(&v), "emplace returned a different object"); break; }
        case 6: { List& t = v.emplace<1>({x, y}, c, r); is(v, 2, x, y, 1, x, y); VX_ASSERT(&t == cetl::pf17::get_if<1>(&v), "emplace returned a different object"); break; }
        case 7: { List& t = v.emplace<List>({x, z}); is(v, 2, x, z, 0, 0, 0); VX_ASSERT(&t == cetl::pf17::get_if<1>(&v), "emplace returned a different object"); break; }
        case 8: { List& t = v.emplace<List>({x}, u8(x), Elem<3>(z)); is(v, 1, x, x, 2, x, z); VX_ASSERT(&t == cetl::pf17::get_if<1>(&v), "emplace returned a different object"); break; }
        case 9: { List& t = v.emplace<List>(c, r); is(v, 0, 0, 0, 3, x, y); VX_ASSERT(&t == cetl::pf17::get_if<1>(&v), "emplace returned a different object"); break; }
        case 10: { List& t = v.emplace<1>(u8(x), Elem<3>(z)); is(v, 0, 0, 0, 4, x, z); VX_ASSERT(&t == cetl::pf17::get_if<1>(&v), "emplace returned a different object"); break; }
        case 11: { Elem<0>& t = v.emplace<2>(x); VX_ASSERT(v.index() == 2 && &t == cetl::pf17::get_if<2>(&v) && t.get() == x, "another alternative is active"); break; }
        }
        if (!made) VX_ASSERT(v.index() == k, "another variant changed");
        if (op == 1 || op == 3 || op == 6 || op == 9) VX_ASSERT(r == 0x77, "argument was not passed as it was given");
    }
    end_checks();
    end_path();
}
