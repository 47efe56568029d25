// Unbounded variant: values (C17), lifetimes, memory and failures (C18).
#include "vxlib.hpp"
#include <cetl/unbounded_variant.hpp>

#ifndef VX_K
#    define VX_K 2
#endif
#ifndef VX_BUDGET
#    define VX_BUDGET 0
#endif
using namespace vx;
using Mr = cetl::pf17::pmr::memory_resource;
namespace
{
// ------------------------------------------------------------------------------------------------------------ values
template <int Kind>
struct Small : Elem<Kind, 1>
{
    using Elem<Kind, 1>::Elem;
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{1, 2, 3}}; }
};
template <int Kind>
struct Wide : Elem<Kind, 40>
{
    using Elem<Kind, 40>::Elem;
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{1, 2, 4}}; }
};
struct View : cetl::rtti_helper<cetl::type_id_type<9>>
{
    u8 base = 0;
};
struct Other : cetl::rtti_helper<cetl::type_id_type<9, 1>>
{
    u8 other = 0;
};
/// Value that can be looked at as two bases.
template <int Kind>
struct Poly : cetl::rtti_helper<cetl::type_id_type<9, 2>, View, Other>
{
    Elem<Kind, 1> e;
    Poly(u8 x) : e(x) { this->base = x; this->other = static_cast<u8>(x ^ 0x55); }
    u8 get() const { return e.get(); }
};

enum : int { Empty, IsSmall, IsWide, IsPoly };
struct Model
{
    int kind  = Empty;
    u8  v     = 0;
    int owner = 0;
};

template <bool C>
using Bool = std::integral_constant<bool, C>;

template <std::size_t Footprint, bool Copyable, bool Movable, bool Pmr, int Kind, bool Inspect = true>
struct Machine
{
    using V = cetl::unbounded_variant<Footprint, Copyable, Movable, 16, std::conditional_t<Pmr, Mr, void>>;
    using S = Small<Kind>;
    using W = Wide<Kind>;
    using P = Poly<Kind>;

    Res r1{1}, r2{2};

    static V fresh(Res& r, std::true_type) { return V{&r}; }
    // ---------------------------------------------------------------------------------------------------- inspection
    static int  owner(const V& x, std::true_type) { return static_cast<Res*>(x.get_memory_resource())->id(); }
    static int  owner(const V&, std::false_type) { return 0; }
    template <typename T>
    static bool throws(const V& x)
    {
#if VX_EXC
        try
        {
            (void) cetl::get<const T&>(x);
        } catch (const cetl::bad_unbounded_variant_access&)
        {
            return true;
        }
        return false;
#else
        return ends_program([&] { (void) cetl::get<const T&>(x); });
#endif
    }
    template <typename T>
    static void check_type(V& x, const Model& m, int kind)
    {
        const V& c = x;
        T*       p = cetl::get_if<T>(&x);
        const T* q = cetl::get_if<const T>(&c);
        VX_ASSERT((p != nullptr) == (m.kind == kind), "typed access does not match the stored type");
        VX_ASSERT(q == p, "const and mutable access differ");
        if (m.kind == kind)
        {
            if (p == nullptr) return;
            VX_ASSERT(p->get() == m.v, "stored value differs from the one put in");
            VX_ASSERT(&cetl::get<T&>(x) == p && &cetl::get<const T&>(c) == p, "get and get_if differ");
            VX_ASSERT(x.type_size() == sizeof(T) && x.type_id() == cetl::type_id_value<T>, "type or size of the stored value misreported");
            const auto a = reinterpret_cast<std::uintptr_t>(p);
            VX_ASSERT(a % alignof(T) == 0, "stored value is misaligned");
        }
        else
            VX_ASSERT(throws<T>(x), "access with the wrong type was not refused");
    }
    static void check(V& x, const Model& m)
    {
        VX_ASSERT(x.has_value() == (m.kind != Empty), "has_value is wrong");
        if (m.kind != Empty) VX_ASSERT(!x.valueless_by_exception(), "variant with a value claims to be valueless");
        else
            VX_ASSERT(x.type_size() == 0 && x.type_id() == cetl::type_id_value<void>, "empty variant reports a type");
        if (Pmr) VX_ASSERT_TAG(5, owner(x, Bool<Pmr>{}) == m.owner, "variant uses a different memory resource");
        check_type<S>(x, m, IsSmall);
        check_type<W>(x, m, IsWide);
        check_type<P>(x, m, IsPoly);
        const View*  v = cetl::get_if<View>(&x);
        const Other* o = cetl::get_if<Other>(&x);
        VX_ASSERT((v != nullptr) == (m.kind == IsPoly) && (o != nullptr) == (m.kind == IsPoly), "view as a base does not match the stored type");
        if (v && o)
        {
            const P* p = cetl::get_if<P>(&x);
            const V& c = x;
            VX_ASSERT(v == p && o == p, "view as a base refers to a different object");
            VX_ASSERT(cetl::get_if<const View>(&c) == v && cetl::get_if<const Other>(&c) == o, "const view as a base refers to a different object");
            VX_ASSERT(&cetl::get<Other&>(x) == o && &cetl::get<const Other&>(c) == o && &cetl::get<const View&>(c) == v, "get and get_if differ");
            VX_ASSERT(v->base == m.v && o->other == static_cast<u8>(m.v ^ 0x55), "view as a base shows a different value");
        }
    }
    // ----------------------------------------------------------------------------------------------------- operations
    bool failing = false;
    // After a failed store the target is empty or still has what it had; nothing else changes.
    void settle(V& x, Model& m, const Model& want, bool ok, int before)
    {
        const bool injected = mem().failures + life().thrown > before;
        if (ok && !injected)
        {
            m = want;
            return;
        }
#if VX_EXC
        VX_ASSERT(!ok || !injected, "failure was not reported");
        VX_ASSERT(injected, "failure reported without a reason");
#else
        VX_ASSERT(!x.has_value(), "value present although memory was unavailable");
#endif
        VX_REACH("failed");
        if (!x.has_value()) m.kind = Empty;
        m.owner = owner(x, Bool<Pmr>{});
    }
    int injected() const { return mem().failures + life().thrown; }

    template <typename T>
    void assign_rvalue(V& x, Model& m, int kind, u8 v)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY { x = T{v}; ok = true; }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        settle(x, m, Model{kind, v, m.owner}, ok, b);
    }
    template <typename T>
    void assign_lvalue(V& x, Model& m, int kind, u8 v, std::true_type)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            const T t{v};
            x  = t;
            ok = true;
            VX_ASSERT(t.get() == v, "assigning a copy changed the source");
        }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        settle(x, m, Model{kind, v, m.owner}, ok, b);
    }
    template <typename T>
    void assign_lvalue(V& x, Model& m, int kind, u8 v, std::false_type) { assign_rvalue<T>(x, m, kind, v); }
    template <typename T>
    void emplace(V& x, Model& m, int kind, u8 v)
    {
        const int b  = injected();
        T*        p  = nullptr;
        bool      ok = false;
        VX_TRY
        {
            p  = x.template emplace<T>(v);
            ok = true;
        }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        settle(x, m, Model{kind, v, m.owner}, ok, b);
        if (m.kind != Empty && ok) VX_ASSERT(p == cetl::get_if<T>(&x), "emplace returned a different object");
        if (m.kind == Empty) VX_ASSERT(p == nullptr, "emplace returned an object although it failed");
    }
    void store(V& x, Model& m)
    {
        const u64 how = choice("how", 3), what = choice("type", 3);
        const u8  v   = sym8("v");
        switch (what * 3 + how)
        {
        case 0: assign_rvalue<S>(x, m, IsSmall, v); break;
        case 1: assign_lvalue<S>(x, m, IsSmall, v, Bool<Copyable>{}); break;
        case 2: emplace<S>(x, m, IsSmall, v); break;
        case 3: assign_rvalue<W>(x, m, IsWide, v); break;
        case 4: assign_lvalue<W>(x, m, IsWide, v, Bool<Copyable>{}); break;
        case 5: emplace<W>(x, m, IsWide, v); break;
        case 6: assign_rvalue<P>(x, m, IsPoly, v); break;
        case 7: assign_lvalue<P>(x, m, IsPoly, v, Bool<Copyable>{}); break;
        case 8: emplace<P>(x, m, IsPoly, v); break;
        }
    }
    void copy_assign(V& x, Model& m, V& y, Model& n, std::true_type)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            const V& src = y;
            V&       r   = (x = src);
            VX_ASSERT(&r == &x, "assignment does not return the target");
            ok           = true;
        }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        settle(x, m, Model{n.kind, n.v, n.owner}, ok, b);
    }
    void copy_assign(V&, Model&, V&, Model&, std::false_type) {}
    void move_assign(V& x, Model& m, V& y, Model& n, std::true_type)
    {
        V& r = (x = std::move(y));
        VX_ASSERT(&r == &x, "assignment does not return the target");
        m      = n;
        n.kind = Empty;
    }
    void move_assign(V&, Model&, V&, Model&, std::false_type) {}
    void swap(V&, Model&, V&, Model&, std::false_type) {}
    void swap(V& x, Model& m, V& y, Model& n, std::true_type)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            x.swap(y);
            ok = true;
        }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        if (injected() == b)
        {
            VX_ASSERT(ok, "swap failed without a reason");
            std::swap(m, n);
            return;
        }
        VX_REACH("failed");
        // values may be lost, but none may be made up
        const Model m0 = m, n0 = n;
        adopt(x, m, m0, n0);
        adopt(y, n, m0, n0);
    }
    void swap_self(V& x, std::true_type) { x.swap(x); }
    void swap_self(V&, std::false_type) {}
    void adopt(V& x, Model& m, const Model& a, const Model& b)
    {
        const int o = owner(x, Bool<Pmr>{});
        m           = Model{Empty, 0, o};
        if (!x.has_value()) return;
        bool is_a = false, is_b = false;
        match<S>(x, IsSmall, a, b, is_a, is_b);
        match<W>(x, IsWide, a, b, is_a, is_b);
        match<P>(x, IsPoly, a, b, is_a, is_b);
        VX_ASSERT(is_a || is_b, "a value neither variant had appeared");
        m.kind = is_a ? a.kind : b.kind;
        m.v    = is_a ? a.v : b.v;
    }
    template <typename T>
    void match(V& x, int kind, const Model& a, const Model& b, bool& is_a, bool& is_b)
    {
        const T* p = cetl::get_if<T>(&x);
        if (!p) return;
        if (a.kind == kind && p->get() == a.v) is_a = true;
        else if (b.kind == kind && p->get() == b.v) is_b = true;
    }
    void copy_round(V& x, Model& m, V& y, Model& n, std::true_type)
    {
        // through a temporary copy
        const int b  = injected();
        bool      ok = false;
        bool      target = false;
        VX_TRY
        {
            const V& src = y;
            V        t{src};
            Model    k = n;
            if (injected() > b)
            {
                VX_ASSERT(!t.has_value(), "value present although memory was unavailable");
                k.kind = Empty;
            }
            check(t, k);
            check(y, n);
            change(t, k);
            check(y, n);  // independent
            target = injected() == b;
            if (target)
            {
                const V& ct = t;
                x           = ct;
                settle(x, m, k, true, b);
            }
            ok = true;
        }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        if (!ok && target) settle(x, m, n, false, b);
        if (!ok) VX_ASSERT(injected() > b, "failure reported without a reason");
    }
    void copy_round(V&, Model&, V&, Model&, std::false_type) {}
    void change(V& t, Model& k)
    {
        if (k.kind == IsSmall) cetl::get<S&>(t).v[0] = k.v = 0x11;
        if (k.kind == IsWide) for (auto& c : cetl::get<W&>(t).v) c = k.v = 0x12;
    }
    void move_round(V& x, Model& m, std::true_type)
    {
        V t{std::move(x)};
        VX_ASSERT(!x.has_value(), "moved-from variant still has the value");
        check(t, m);
        x = std::move(t);
    }
    void move_round(V&, Model&, std::false_type) {}
    void self_copy(V& x, std::true_type) { const V& s = x; x = s; }
    void self_copy(V&, std::false_type) {}
    void self_move(V& x, std::true_type) { V& s = x; x = std::move(s); }
    void self_move(V&, std::false_type) {}
    void re_resource(V& x, Model& m, std::true_type)
    {
        const bool second = flag("second");
        x.reset(second ? &r2 : &r1);
        m = Model{Empty, 0, second ? 2 : 1};
    }
    void re_resource(V& x, Model& m, std::false_type)
    {
        x.reset();
        m.kind = Empty;
    }
    void step(V& x, Model& m, V& y, Model& n)
    {
        const u64 op = choice("op", 10);
        __vx_shard(op);
        switch (op)
        {
        case 0: store(x, m); break;
        case 1: copy_assign(x, m, y, n, Bool<Copyable>{}); break;
        case 2: move_assign(x, m, y, n, Bool<Movable>{}); break;
        case 3: swap(x, m, y, n, Bool<Copyable || Movable>{}); break;
        case 4: x.reset(); m.kind = Empty; break;
        case 5: copy_round(x, m, y, n, Bool<Copyable>{}); break;
        case 6: move_round(x, m, Bool<Movable>{}); break;
        case 7: self_copy(x, Bool<Copyable>{}); self_move(x, Bool<Movable>{}); break;
        case 8: re_resource(x, m, Bool<Pmr>{}); break;
        case 9: swap_self(x, Bool<Copyable || Movable>{}); break;
        }
    }
    // ------------------------------------------------------------------------------------------------------------ run
    void body(V& x, V& y)
    {
        Model m{Empty, 0, Pmr ? 1 : 0}, n{Empty, 0, Pmr ? 2 : 0};
        check(x, m);
        check(y, n);
        const u64 init = choice("init", 4);
        __vx_shard(init);
        switch (init)
        {
        case 1: emplace<S>(y, n, IsSmall, sym8("v")); break;
        case 2: emplace<W>(y, n, IsWide, sym8("v")); break;
        case 3: emplace<P>(y, n, IsPoly, sym8("v")); break;
        default: break;
        }
        for (int k = 0; k < VX_K; ++k)
        {
            if (flag("other"))
                step(y, n, x, m);
            else
                step(x, m, y, n);
            check(x, m);
            check(y, n);
        }
    }
    void start(std::true_type)
    {
        V x{&r1}, y{&r2};
        body(x, y);
    }
    void start(std::false_type)
    {
        V x, y;
        body(x, y);
    }
    void run()
    {
        oom_budget(VX_BUDGET);
        throw_budget(VX_BUDGET);
        start(Bool<Pmr>{});
        end_checks();
        end_path();
    }
};
// Construction from a value, in place and by the make function; every step may fail.
template <typename V, typename T>
void constructed(V&& x, u8 v)
{
    const T* p = cetl::get_if<T>(&x);
    if (!x.has_value())
        VX_ASSERT(mem().failures > 0, "value missing although nothing failed");
    else
        VX_ASSERT(p != nullptr && p->get() == v, "constructed with a different value");
}
template <typename V, typename T, typename... R>
void construct(u8 v, R*... r)
{
    using In = typename V::template in_place_type_t<T>;
    bool ok = false;
    VX_TRY
    {
        switch (choice("form", 5))
        {
        case 0: { V x{r..., T{v}}; constructed<V&, T>(x, v); break; }
        case 1: { const T t{v}; V x{r..., t}; constructed<V&, T>(x, v); break; }
        case 2: { V x{r..., In{}, v}; constructed<V&, T>(x, v); break; }
        case 3: { auto x = cetl::make_unbounded_variant<T, V>(r..., v); constructed<V&, T>(x, v); break; }
        case 4: { V x{r..., T{v}}; V y{x}; constructed<V&, T>(x, v); constructed<V&, T>(y, v); V z{std::move(y)}; constructed<V&, T>(z, v); break; }
        }
        ok = true;
    }
    VX_CATCH(const std::bad_alloc&) {}
    VX_CATCH(const Boom&) {}
    if (!ok)
    {
        VX_REACH("failed");
        VX_ASSERT(mem().failures + life().thrown > 0, "failure reported without a reason");
    }
}
}  // namespace
VX_HARNESS(ubv_inline) { Machine<64, true, true, false, 2> m; m.run(); }
VX_HARNESS(ubv_mixed) { Machine<16, true, true, true, 2> m; m.run(); }
VX_HARNESS(ubv_pmr) { Machine<0, true, true, true, 2> m; m.run(); }
VX_HARNESS(ubv_copy_only_inline) { Machine<64, true, false, false, 2> m; m.run(); }
VX_HARNESS(ubv_copy_only_mixed) { Machine<16, true, false, true, 2> m; m.run(); }
VX_HARNESS(ubv_copy_only_pmr) { Machine<0, true, false, true, 2> m; m.run(); }
VX_HARNESS(ubv_move_only_inline) { Machine<64, false, true, false, 3> m; m.run(); }
VX_HARNESS(ubv_move_only_mixed) { Machine<16, false, true, true, 3> m; m.run(); }
VX_HARNESS(ubv_move_only_pmr) { Machine<0, false, true, true, 3> m; m.run(); }
VX_HARNESS(ubv_exact) { Machine<sizeof(Small<2>), true, true, true, 2> m; m.run(); }
VX_HARNESS(ubv_fixed_mixed) { Machine<16, false, false, true, 2> m; m.run(); }
VX_HARNESS(ubv_construct)
{
    Res      r{1};
    const u8 v = sym8("v");
    oom_budget(VX_BUDGET);
    throw_budget(VX_BUDGET);
    const u64 c = choice("config", 6);
    __vx_shard(c);
    switch (c)
    {
    case 0: construct<cetl::unbounded_variant<64, true, true, 16>, Small<2>>(v); break;
    case 1: construct<cetl::unbounded_variant<64, true, true, 16>, Wide<2>>(v); break;
    case 2: construct<cetl::unbounded_variant<16, true, true, 16, Mr>, Small<2>, Mr>(v, &r); break;
    case 3: construct<cetl::unbounded_variant<16, true, true, 16, Mr>, Wide<2>, Mr>(v, &r); break;
    case 4: construct<cetl::unbounded_variant<0, true, true, 16, Mr>, Small<2>, Mr>(v, &r); break;
    case 5: construct<cetl::unbounded_variant<0, true, true, 16, Mr>, Poly<2>, Mr>(v, &r); break;
    }
    end_checks();
    end_path();
}
// Sizes around the footprint.
template <std::size_t N>
struct Bytes
{
    u8 v[N];
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{7, N & 0xFF, N >> 8}}; }
};
template <typename V, std::size_t N, typename... R>
void sized(u8 a, u8 b, R*... r)
{
    V x{r...}, y{r...};
    Bytes<N> t{};
    for (auto& c : t.v) c = a;
    t.v[0] = b;
    VX_TRY
    {
        x = t;
        y = x;
        V z{std::move(x)};
        x = std::move(z);
    }
    VX_CATCH(const std::bad_alloc&) {}
    for (V* k : {&x, &y})
    {
        const Bytes<N>* const p = cetl::get_if<Bytes<N>>(k);
        VX_ASSERT((p != nullptr) == k->has_value(), "typed access does not match the stored type");
        if (p == nullptr) VX_ASSERT(mem().failures > 0, "value missing although nothing failed");
        else
        {
            VX_ASSERT(k->type_size() == N, "type or size of the stored value misreported");
            for (std::size_t i = 0; i < N; ++i) VX_ASSERT(p->v[i] == (i == 0 ? b : a), "stored value differs from the one put in");
        }
        VX_ASSERT(cetl::get_if<Bytes<N - 1>>(k) == nullptr, "typed access does not match the stored type");
    }
}
VX_HARNESS(ubv_sizes)
{
    Res      r{1};
    const u8 a = sym8("a"), b = sym8("b");
    oom_budget(VX_BUDGET);
    const u64 c = choice("config", 10);
    __vx_shard(c);
    __vx_shard(0);
    switch (c)
    {
    case 0: sized<cetl::unbounded_variant<16, true, true, 16>, 16>(a, b); break;
    case 1: sized<cetl::unbounded_variant<16, true, true, 16, Mr>, 15, Mr>(a, b, &r); break;
    case 2: sized<cetl::unbounded_variant<16, true, true, 16, Mr>, 16, Mr>(a, b, &r); break;
    case 3: sized<cetl::unbounded_variant<16, true, true, 16, Mr>, 17, Mr>(a, b, &r); break;
    case 4: sized<cetl::unbounded_variant<16, true, true, 16, Mr>, 33, Mr>(a, b, &r); break;
    case 5: sized<cetl::unbounded_variant<0, true, true, 16, Mr>, 2, Mr>(a, b, &r); break;
    case 6: sized<cetl::unbounded_variant<5, true, true, 1>, 5>(a, b); break;
    case 7: sized<cetl::unbounded_variant<512, true, true, 16>, 300>(a, b); break;
    case 8: sized<cetl::unbounded_variant<16, true, true, 16, Mr>, 259, Mr>(a, b, &r); break;
    case 9: sized<cetl::unbounded_variant<4096, true, true, 16, Mr>, 4097, Mr>(a, b, &r); break;
    }
    end_checks();
    end_path();
}
// Values with an alignment of their own; arguments passed on as they are given.
struct Token
{
    u8 v;
};
template <std::size_t Align>
struct alignas(Align) Aligned
{
    u8   v[Align];
    bool exact = true;
    Aligned(Token&& t, u8& x) : v{x, t.v} {}
    Aligned(const Token& t, const u8& x) : v{x, t.v}, exact(false) {}
    Aligned(Token&& t, const u8& x) : v{x, t.v}, exact(false) {}
    Aligned(const Token& t, u8& x) : v{x, t.v}, exact(false) {}
    Aligned(std::initializer_list<u8> l, Token&& t) : v{*l.begin(), t.v} {}
    Aligned(std::initializer_list<u8> l, const Token& t) : v{*l.begin(), t.v}, exact(false) {}
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{9, Align}}; }
};
template <typename V, std::size_t Align, typename... R>
void aligned(u8 a, u8 b, R*... r)
{
    using T  = Aligned<Align>;
    using In = typename V::template in_place_type_t<T>;
    u8        first = b;
    const u64 how   = choice("how", 5);
    V         x{r...};
    switch (how)
    {
    case 0: (void) x.template emplace<T>(Token{a}, first); break;
    case 1: x = V{r..., In{}, Token{a}, first}; break;
    case 2: x = cetl::make_unbounded_variant<T, V>(r..., Token{a}, first); break;
    case 3: x = cetl::make_unbounded_variant<T, V>(r..., {b, u8(1)}, Token{a}); break;
    default: (void) x.template emplace<T>({b, u8(1)}, Token{a}); break;
    }
    V y{x}, z{r...};
    z = y;
    V w{std::move(x)};
    for (const V* k : {&y, &z, &w})
    {
        const T* const p = cetl::get_if<T>(k);
        VX_ASSERT(p != nullptr, "value missing although nothing failed");
        if (p == nullptr) continue;
        VX_ASSERT(p->v[0] == b && p->v[1] == a, "stored value differs from the one put in");
        VX_ASSERT(p->exact, "constructor arguments were not passed on as they were given");
        // Either inside the variant, at an offset and with an alignment of the whole that suits it, or in a block of its own.
        const auto        at = reinterpret_cast<const unsigned char*>(p), whole = reinterpret_cast<const unsigned char*>(k);
        const bool        inside = at >= whole && at < whole + sizeof(V);
        const Block* const blk   = inside ? nullptr : mem_find(p);
        if (inside) VX_ASSERT_TAG(5, alignof(V) % Align == 0 && static_cast<std::size_t>(at - whole) % Align == 0, "value is stored with less than its alignment");
        else VX_ASSERT_TAG(5, blk != nullptr && blk->align % Align == 0, "value is stored with less than its alignment");
    }
}
VX_HARNESS(ubv_aligned)
{
    Res      r{1};
    const u8 a = sym8("a"), b = sym8("b");
    const u64 c = choice("config", 6);
    __vx_shard(c);
    __vx_shard(0);
    switch (c)
    {
    case 0: aligned<cetl::unbounded_variant<128, true, true, 64>, 64>(a, b); break;
    case 1: aligned<cetl::unbounded_variant<128, true, true, 64, Mr>, 64, Mr>(a, b, &r); break;
    case 2: aligned<cetl::unbounded_variant<16, true, true, 64, Mr>, 64, Mr>(a, b, &r); break;
    case 3: aligned<cetl::unbounded_variant<0, true, true, 32, Mr>, 32, Mr>(a, b, &r); break;
    case 4: aligned<cetl::unbounded_variant<5, true, true, 2, Mr>, 2, Mr>(a, b, &r); break;
    case 5: aligned<cetl::unbounded_variant<0, true, true, 16, Mr>, 16, Mr>(a, b, &r); break;
    }
    end_checks();
    end_path();
}
// Access by value and by rvalue reference; a value built from a list.
struct List
{
    u8 n, first, last, extra;
    List(std::initializer_list<u8> l, u8 e = 0) : n(static_cast<u8>(l.size())), first(*l.begin()), last(*(l.end() - 1)), extra(e) {}
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{8}}; }
};
template <typename Fn>
bool refused(Fn fn)
{
#if VX_EXC
    try
    {
        fn();
    } catch (const cetl::bad_unbounded_variant_access&)
    {
        return true;
    }
    return false;
#else
    return ends_program(fn);
#endif
}
template <typename V, typename... R>
void access(u8 a, u8 b, R*... r)
{
    using S = Small<2>;
    if (flag("wrong"))
    {
        V        x{r...};
        const V& c    = x;
        const bool has = flag("has");
        if (has) (void) x.template emplace<List>({a, b});
        bool      ok = false;
        const u64 op = choice("access", 6);
        __vx_shard(op);
        switch (op)
        {
        case 0: ok = refused([&] { (void) cetl::get<S&>(x); }); break;
        case 1: ok = refused([&] { (void) cetl::get<const S&>(c); }); break;
        case 2: ok = refused([&] { (void) cetl::get<S&&>(std::move(x)); }); break;
        case 3: ok = refused([&] { (void) cetl::get<S>(std::move(x)); }); break;
        case 4: ok = refused([&] { (void) cetl::get<const S&>(x); }); break;
        case 5: ok = refused([&] { (void) cetl::get<S>(std::move(c)); }); break;
        }
        VX_ASSERT(ok, "access with the wrong type was not refused");
        VX_ASSERT(x.has_value() == has && (cetl::get_if<List>(&x) != nullptr) == has, "a refused access changed the variant");
        return;
    }
    {
        V         x{r..., S{a}};
        const V&  c  = x;
        const u64 op = choice("access", 6);
        __vx_shard(op);
        switch (op)
        {
        case 0: { const S s = cetl::get<S>(x); VX_ASSERT(s.get() == a, "value obtained differs"); break; }
        case 1: { const S s = cetl::get<S>(c); VX_ASSERT(s.get() == a, "value obtained differs"); break; }
        case 2: { const S s = cetl::get<S>(std::move(x)); VX_ASSERT(s.get() == a, "value obtained differs"); break; }
        case 3: { const S s = cetl::get<S&&>(std::move(x)); VX_ASSERT(s.get() == a, "value obtained differs"); break; }
        case 4: { const S s = cetl::get<const S>(c); VX_ASSERT(s.get() == a, "value obtained differs"); break; }
        case 5: { cetl::get<S&>(x).v[0] = b; break; }
        }
        const S* const p = cetl::get_if<const S>(&c);
        VX_ASSERT(p != nullptr && x.has_value(), "access removed the value");
        VX_ASSERT(p == nullptr || p->v[0] == (op == 2 || op == 3 ? 0xEE : op == 5 ? b : a), "value left behind by the access is wrong");
        VX_ASSERT(cetl::get_if<S>(static_cast<V*>(nullptr)) == nullptr && cetl::get_if<S>(static_cast<const V*>(nullptr)) == nullptr, "no variant has a value");
    }
    {
        using In = typename V::template in_place_type_t<List>;
        V        x{r...};
        List*    p = nullptr;
        u8       e = 0;
        switch (choice("list", 3))
        {
        case 0: { V y{r..., In{}, {a, b, u8(3)}, b}; e = b; x = y; p = cetl::get_if<List>(&x); break; }
        case 1: { p = x.template emplace<List>({a, u8(4), b}); const List* q = cetl::get_if<List>(&x); VX_ASSERT(p == q, "emplace returned a different object"); break; }
        case 2: { x = cetl::make_unbounded_variant<List, V>(r..., {a, u8(1), u8(2)}, a); e = a; p = cetl::get_if<List>(&x); break; }
        }
        VX_ASSERT(p != nullptr && p->n == 3 && p->first == a && p->extra == e, "constructed with a different value");
    }
}
VX_HARNESS(ubv_access)
{
    Res      r{1};
    const u8 a = sym8("a"), b = sym8("b");
    const u64 c = choice("config", 3);
    __vx_shard(c);
    switch (c)
    {
    case 0: access<cetl::unbounded_variant<64, true, true, 16>>(a, b); break;
    case 1: access<cetl::unbounded_variant<16, true, true, 16, Mr>, Mr>(a, b, &r); break;
    case 2: access<cetl::unbounded_variant<0, true, true, 16, Mr>, Mr>(a, b, &r); break;
    }
    end_checks();
    end_path();
}
// Assigning a variant the value it already holds.
VX_HARNESS(ubv_self_alias)
{
    const u8 v = sym8("v");
    {
        Res                                              r{1};
        cetl::unbounded_variant<16, true, true, 16, Mr> x{&r};
        const bool wide = flag("wide");
        __vx_shard(wide);
        __vx_shard(0);
        if (wide)
        {
            x.emplace<Wide<1>>(v);
            x = *cetl::get_if<Wide<1>>(&x);
            VX_ASSERT(cetl::get_if<Wide<1>>(&x) && cetl::get_if<Wide<1>>(&x)->get() == v, "assigning a variant the value it holds changed it");
        }
        else
        {
            x.emplace<Small<1>>(v);
            x = *cetl::get_if<Small<1>>(&x);
            VX_ASSERT(cetl::get_if<Small<1>>(&x) && cetl::get_if<Small<1>>(&x)->get() == v, "assigning a variant the value it holds changed it");
        }
    }
    end_path();
}
