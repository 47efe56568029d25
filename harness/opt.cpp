// Optional: presence and value (C21), lifetimes and exceptions (C22).
#include "vxlib.hpp"
#include <cetl/pf17/optional.hpp>

#ifndef VX_K
#    define VX_K 2
#endif
#ifndef VX_BUDGET
#    define VX_BUDGET 0
#endif
using namespace vx;
namespace
{
using cetl::pf17::in_place;
using cetl::pf17::nullopt;
using cetl::pf17::optional;

// ------------------------------------------------------------------------------------------------------- value types
u8 get(u8 x) { return x; }
template <int K, int P>
u8 get(const Elem<K, P>& e) { return e.get(); }
/// Trivial to copy and destroy, but with assignments of its own.
struct Assigns
{
    u8 v;
    Assigns(u8 x) : v(x) {}
    Assigns(const Assigns&) = default;
    Assigns(Assigns&&)      = default;
    Assigns& operator=(const Assigns& o) { v = o.v; return *this; }
    Assigns& operator=(Assigns&& o) { const u8 t = o.v; o.v = 0xEE; v = t; return *this; }
};
u8 get(const Assigns& a) { return a.v; }
/// Copied but never moved.
struct CopyOnly
{
    Elem<2> e;
    CopyOnly(u8 x) : e(x) {}
    CopyOnly(const CopyOnly&)            = default;
    CopyOnly& operator=(const CopyOnly&) = default;
};
u8 get(const CopyOnly& a) { return a.e.get(); }
/// Aggregate of two bytes, all trivial.
struct Pair
{
    u8 a, b;
    Pair(u8 x) : a(x), b(static_cast<u8>(x ^ 0xFF)) {}
    Pair(u8 x, u8 y) : a(x), b(y) {}
};
u8 get(const Pair& p)
{
    VX_ASSERT(p.b == static_cast<u8>(p.a ^ 0xFF), "value is torn");
    return p.a;
}

template <typename T>
struct Traits
{
    static constexpr bool copy     = std::is_copy_constructible<T>::value;
    static constexpr bool moves    = false;  // moving leaves a mark
    static constexpr bool moves_as = false;  // move assignment leaves a mark
};
template <int K, int P>
struct Traits<Elem<K, P>>
{
    static constexpr bool copy     = K != 3;
    static constexpr bool moves    = true;
    static constexpr bool moves_as = true;
};
template <>
struct Traits<Assigns>
{
    static constexpr bool copy     = true;
    static constexpr bool moves    = false;
    static constexpr bool moves_as = true;
};
struct Model
{
    bool has = false;
    u8   v   = 0;
};
template <bool C>
using Bool = std::integral_constant<bool, C>;

template <typename T>
struct Machine
{
    using O = optional<T>;
    using R = Traits<T>;

    static int injected() { return life().thrown; }
    static u8  after_move(u8 v) { return R::moves ? 0xEE : v; }
    static u8  after_move_assign(u8 v) { return R::moves_as ? 0xEE : v; }

    template <typename Q>
    static int read(Q&& o, u8& out)
    {
#if VX_EXC
        try
        {
            auto&& t = static_cast<Q&&>(o).value();
            out      = get(t);
            return 1;
        }
        catch (const cetl::pf17::bad_optional_access&)
        {
            return 2;
        }
#else
        if (!o.has_value()) return ends_program([&] { (void) static_cast<Q&&>(o).value(); }) ? 2 : 1;
        auto&& t = static_cast<Q&&>(o).value();
        out      = get(t);
        return 1;
#endif
    }
    static void check(O& o, const Model& m)
    {
        const O& c = o;
        VX_ASSERT(c.has_value() == m.has && static_cast<bool>(c) == m.has, "presence is wrong");
        u8        x   = 0;
        const int how = read(c, x);
        VX_ASSERT(how == (m.has ? 1 : 2), "checked access disagrees with presence");
        if (!m.has) return;
        VX_ASSERT(x == m.v && get(*c) == m.v && get(*c.operator->()) == m.v && get(o.value()) == m.v && get(*o) == m.v, "value is wrong");
        VX_ASSERT(&*o == &*c && &*o == &o.value() && o.operator->() == &*o && c.operator->() == &c.value(), "accesses refer to different objects");
    }
    // An operation that failed half-way leaves presence and value as they were.
    template <typename Fn>
    static bool attempt(Fn fn)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            fn();
            ok = true;
        }
        VX_CATCH(const Boom&) {}
        VX_ASSERT(ok == (injected() == b), "exception of the value type did not reach the caller, or there was none");
        if (!ok) VX_REACH("failed");
        return ok;
    }
    static void set_rvalue(O& o, Model& m, u8 v)
    {
        if (attempt([&] { O& r = (o = T(v)); VX_ASSERT(&r == &o, "assignment does not return the target"); })) m = Model{true, v};
    }
    static void set_lvalue(O& o, Model& m, u8 v, std::true_type)
    {
        if (attempt([&] { const T t(v); O& r = (o = t); VX_ASSERT(&r == &o && get(t) == v, "assignment changed the source"); })) m = Model{true, v};
    }
    static void set_lvalue(O& o, Model& m, u8 v, std::false_type) { set_rvalue(o, m, v); }
    static void set_other(O& o, Model& m, u8 v)
    {
        // from something the value type can be made from
        if (attempt([&] { O& r = (o = v); VX_ASSERT(&r == &o, "assignment does not return the target"); })) m = Model{true, v};
    }
    static void emplace(O& o, Model& m, u8 v)
    {
        if (attempt([&] { T& r = o.emplace(v); VX_ASSERT(&r == &*o, "emplace returned a different object"); }))
            m = Model{true, v};
        else
            m.has = false;
    }
    static void copy_assign(O& o, Model& m, const O& p, const Model& n, std::true_type)
    {
        if (attempt([&] { O& r = (o = p); VX_ASSERT(&r == &o, "assignment does not return the target"); })) m = n;
    }
    static void copy_assign(O&, Model&, const O&, const Model&, std::false_type) {}
    static void move_assign(O& o, Model& m, O& p, Model& n)
    {
        if (!attempt([&] { O& r = (o = std::move(p)); VX_ASSERT(&r == &o, "assignment does not return the target"); })) return;
        const bool was = m.has;
        m              = n;
        if (n.has && std::is_move_constructible<T>::value) n.v = was ? after_move_assign(n.v) : after_move(n.v);
    }
    static void swap(O& o, Model& m, O& p, Model& n)
    {
        const bool both = m.has && n.has;
        if (attempt([&] { o.swap(p); }))
        {
            std::swap(m, n);
            return;
        }
        VX_ASSERT(o.has_value() == m.has && p.has_value() == n.has, "failed swap changed presence");
        if (both)
        {
            m.v = get(*o);
            n.v = get(*p);
        }
    }
    static void copy_construct(O& o, Model& m, std::true_type)
    {
        attempt([&] {
            const O& c = o;
            O        t{c};
            Model    k = m;
            check(t, k);
            t.reset();
            check(o, m);
        });
    }
    static void copy_construct(O&, Model&, std::false_type) {}
    static void move_construct(O& o, Model& m)
    {
        attempt([&] {
            O     t{std::move(o)};
            Model k = m;
            if (m.has) m.v = after_move(m.v);
            check(t, k);
            check(o, m);
        });
    }
    static void convert(O& o, Model& m, u8 v)
    {
        optional<u8> s;
        if (flag("src")) s = v;
        const Model n{s.has_value(), v};
        switch (choice("conv", 4))
        {
        case 0: if (attempt([&] { const optional<u8>& c = s; O& r = (o = c); VX_ASSERT(&r == &o, "assignment does not return the target"); })) m = n; break;
        case 1: if (attempt([&] { O& r = (o = std::move(s)); VX_ASSERT(&r == &o, "assignment does not return the target"); })) m = n; break;
        case 2: attempt([&] { const optional<u8>& c = s; O t(c); check(t, n); }); break;
        case 3: attempt([&] { O t(std::move(s)); check(t, n); }); break;
        }
    }
    static void fallback(O& o, Model& m, u8 v, std::true_type)
    {
        const O& c = o;
        attempt([&] { const T r = c.value_or(v); VX_ASSERT(get(r) == (m.has ? m.v : v), "value with fallback is wrong"); });
        attempt([&] { const T f(v); const T r = c.value_or(f); VX_ASSERT(get(r) == (m.has ? m.v : v), "value with fallback is wrong"); });
        fallback(o, m, v, std::false_type{});
    }
    static void fallback(O& o, Model& m, u8 v, std::false_type)
    {
        attempt([&] {
            const T r = std::move(o).value_or(v);
            VX_ASSERT(get(r) == (m.has ? m.v : v), "value with fallback is wrong");
            if (m.has) m.v = after_move(m.v);
        });
    }
    static void extract(O& o, Model& m)
    {
        const O& c    = o;
        u8       x    = 0;
        int      how_ = 0;
        switch (choice("form", m.has ? 2 : 3))
        {
        case 0: how_ = read(o, x); break;
        case 1: how_ = read(std::move(c), x); break;
        default: how_ = read(std::move(o), x); break;
        }
        VX_ASSERT(how_ == (m.has ? 1 : 2) && (!m.has || x == m.v), "checked access disagrees with presence");
        if (!m.has) return;
        const T&& d = *std::move(c);
        const T&& e = std::move(c).value();
        VX_ASSERT(&d == &*o && &e == &*o, "accesses refer to different objects");
        attempt([&] {
            const bool how = flag("how");
            T          t   = how ? T(*std::move(o)) : T(std::move(o).value());
            VX_ASSERT(get(t) == m.v, "value moved out is wrong");
            m.v = after_move(m.v);
        });
    }
    static void make(u8 v)
    {
        attempt([&] {
            auto t = cetl::pf17::make_optional<T>(v);
            VX_ASSERT(t.has_value() && get(*t) == v, "make_optional holds a different value");
            auto s = cetl::pf17::make_optional(T(v));
            VX_ASSERT(s.has_value() && get(*s) == v, "make_optional holds a different value");
            O a(in_place, v), b(T{v}), c(v), d, e(nullopt);
            VX_ASSERT(a && get(*a) == v && b && get(*b) == v && c && get(*c) == v && !d && !e, "constructed with a different value");
        });
    }
    static void self(O& o, Model& m, std::true_type)
    {
        const O& c = o;
        attempt([&] { o = c; });
        if (m.has) attempt([&] { o = *c; });
        self(o, m, std::false_type{});
    }
    static void self(O& o, Model& m, std::false_type)
    {
        if (!attempt([&] { o.swap(o); }) && m.has) m.v = get(*o);
    }
    static void step(O& o, Model& m, O& p, Model& n)
    {
        const u64 op = choice("op", 15);
        __vx_shard(op);
        const u8 v = op < 4 || op == 10 || op == 11 || op == 13 ? sym8("v") : 0;
        switch (op)
        {
        case 0: set_rvalue(o, m, v); break;
        case 1: set_lvalue(o, m, v, Bool<R::copy>{}); break;
        case 2: set_other(o, m, v); break;
        case 3: emplace(o, m, v); break;
        case 4: copy_assign(o, m, p, n, Bool<R::copy>{}); break;
        case 5: move_assign(o, m, p, n); break;
        case 6: swap(o, m, p, n); break;
        case 7: copy_construct(o, m, Bool<R::copy>{}); break;
        case 8: move_construct(o, m); break;
        case 9: o.reset(); m.has = false; break;
        case 10: convert(o, m, v); break;
        case 11: fallback(o, m, v, Bool<R::copy>{}); break;
        case 12: self(o, m, Bool<R::copy>{}); break;
        case 13: make(v); break;
        case 14:
        {
            if (flag("null"))
            {
                O& r = (o = nullopt);
                VX_ASSERT(&r == &o, "assignment does not return the target");
                m.has = false;
            }
            else
                extract(o, m);
            break;
        }
        }
    }
    static void run()
    {
        {
            O     x, y;
            Model m, n;
            throw_budget(0);
            if (flag("init_x")) emplace(x, m, sym8("x"));
            const bool iy = flag("init_y");
            __vx_shard(iy);
            if (iy) emplace(y, n, sym8("y"));
            throw_budget(VX_BUDGET);
            for (int k = 0; k < VX_K; ++k)
            {
                step(x, m, y, n);
                check(x, m);
                check(y, n);
                if (k + 1 < VX_K && flag("turn"))
                {
                    step(y, n, x, m);
                    check(x, m);
                    check(y, n);
                    ++k;
                }
            }
        }
        end_checks();
        end_path();
    }
};

/// A source of another type, and a value that remembers how it was made from one.
struct Source
{
    u8 v;
};
enum { ByCopy = 1, ByMove = 2, Assigned = 4 };
struct Target
{
    u8  v;
    int how = 0;
    Target(const Source& s) : v(s.v), how(ByCopy) {}
    Target(Source&& s) : v(s.v), how(ByMove) { s.v = 0xEE; }
    Target(const Target& t) : v(t.v), how(t.how) {}
    Target(Target&& t) noexcept : v(t.v), how(t.how) { t.v = 0xEE; }
    Target& operator=(const Source& s) { v = s.v; how = ByCopy | Assigned; return *this; }
    Target& operator=(Source&& s) { v = s.v; how = ByMove | Assigned; s.v = 0xEE; return *this; }
    Target& operator=(const Target&) = delete;
    Target& operator=(Target&&) = delete;
};
void sources()
{
    const u8         a = sym8("a"), b = sym8("b");
    const bool       ht = flag("target"), hs = flag("source"), mv = flag("move");
    const u64        op = choice("op", 4);
    optional<Target> t;
    optional<Source> s;
    __vx_shard(op);
    __vx_shard(mv);
    if (ht) t.emplace(Source{a});
    if (hs) s = Source{b};
    const optional<Source>& c = s;
    const int want = mv ? ByMove : ByCopy;
    bool      has  = true;
    switch (op)
    {
    case 0:  // the converting assignments
        has = hs;
        if (mv) t = std::move(s);
        else t = c;
        VX_ASSERT(!hs || !t || t->how == (want | (ht ? Assigned : 0)), "value was not taken over in the way requested");
        break;
    case 1:  // the converting constructors
    {
        has = hs;
        optional<Target> u = mv ? optional<Target>(std::move(s)) : optional<Target>(c);
        VX_ASSERT(u.has_value() == hs, "presence is wrong");
        VX_ASSERT(!u || (u->v == b && u->how == want), "value was not taken over in the way requested");
        VX_ASSERT(t.has_value() == ht && (!ht || t->v == a), "unrelated optional changed");
        break;
    }
    case 2:  // assignment of a value
    {
        if (!hs) break;
        if (mv) t = std::move(*s);
        else t = *c;
        VX_ASSERT(t && t->v == b && t->how == (want | (ht ? Assigned : 0)), "value was not taken over in the way requested");
        break;
    }
    case 3:  // construction from a value
    {
        if (!hs) break;
        optional<Target> u = mv ? optional<Target>(std::move(*s)) : optional<Target>(*c);
        VX_ASSERT(u && u->v == b && u->how == want, "value was not taken over in the way requested");
        break;
    }
    }
    if (op == 0) VX_ASSERT(t.has_value() == has && (!has || t->v == b), "value is wrong");
    VX_ASSERT(s.has_value() == hs, "presence of the source changed");
    VX_ASSERT(!hs || s->v == (mv ? 0xEE : b), mv ? "source was not moved from" : "source of a copy changed");
    end_checks();
    end_path();
}
}  // namespace
VX_HARNESS(opt_u8) { Machine<u8>::run(); }
VX_HARNESS(opt_pair) { Machine<Pair>::run(); }
VX_HARNESS(opt_assigns) { Machine<Assigns>::run(); }
VX_HARNESS(opt_elem) { Machine<Elem<0>>::run(); }
VX_HARNESS(opt_throw_all) { Machine<Elem<1>>::run(); }
VX_HARNESS(opt_throw_copy) { Machine<Elem<2>>::run(); }
VX_HARNESS(opt_move_only) { Machine<Elem<3>>::run(); }
VX_HARNESS(opt_copy_only) { Machine<CopyOnly>::run(); }
VX_HARNESS(opt_sources) { sources(); }

namespace
{
/// Made of a list and further arguments, which it must receive as they were given.
struct List
{
    u8 n, first, last, how;
    u8 a, b;
    void take(std::initializer_list<u8> l) { n = static_cast<u8>(l.size()); first = *l.begin(); last = *(l.end() - 1); }
    List(std::initializer_list<u8> l) : how(0), a(0), b(0) { take(l); }
    List(std::initializer_list<u8> l, const u8& x, u8& y) : how(1), a(x), b(y) { take(l); y = 0x77; }
    List(std::initializer_list<u8> l, u8&& x, Elem<3> y) : how(2), a(x), b(y.get()) { take(l); }
    List(const u8& x, u8& y) : n(0), first(0), last(0), how(3), a(x), b(y) { y = 0x77; }
    List(u8&& x, Elem<3> y) : n(0), first(0), last(0), how(4), a(x), b(y.get()) {}
    bool is(u8 N, u8 f, u8 l, u8 h, u8 x, u8 y) const { return n == N && first == f && last == l && how == h && a == x && b == y; }
};
}  // namespace
/// Values made in place of a list or of several arguments.
VX_HARNESS(opt_lists)
{
    {
        using O = optional<List>;
        const u8  x = sym8("x"), y = sym8("y"), z = sym8("z");
        const u8  c = x;
        u8        r = y;
        const u64 k = choice("before", 2), op = choice("op", 11);
        __vx_shard(k);
        __vx_shard(op);
        O o;
        if (k) o.emplace({z});
        bool made = false;
        switch (op)
        {
        case 0: { O t(in_place, {x, y, z}); VX_ASSERT(t && t->is(3, x, z, 0, 0, 0), "constructed with a different value"); break; }
        case 1: { O t(in_place, {x, y}, c, r); VX_ASSERT(t && t->is(2, x, y, 1, x, y) && r == 0x77, "constructed with a different value"); break; }
        case 2: { O t(in_place, {x}, u8(x), Elem<3>(z)); VX_ASSERT(t && t->is(1, x, x, 2, x, z), "constructed with a different value"); break; }
        case 3: { List& t = o.emplace({x, y, z}); VX_ASSERT(&t == &*o && o->is(3, x, z, 0, 0, 0), "emplaced a different value"); made = true; break; }
        case 4: { List& t = o.emplace({x, y}, c, r); VX_ASSERT(&t == &*o && o->is(2, x, y, 1, x, y) && r == 0x77, "emplaced a different value"); made = true; break; }
        case 5: { List& t = o.emplace({x}, u8(x), Elem<3>(z)); VX_ASSERT(&t == &*o && o->is(1, x, x, 2, x, z), "emplaced a different value"); made = true; break; }
        case 6: { auto t = cetl::pf17::make_optional<List>({x, y}, c, r); VX_ASSERT(t && t->is(2, x, y, 1, x, y) && r == 0x77, "make_optional holds a different value"); break; }
        case 7: { auto t = cetl::pf17::make_optional<List>(c, r); VX_ASSERT(t && t->is(0, 0, 0, 3, x, y) && r == 0x77, "make_optional holds a different value"); break; }
        case 8: { O t(in_place, u8(x), Elem<3>(z)); VX_ASSERT(t && t->is(0, 0, 0, 4, x, z), "constructed with a different value"); break; }
        case 9: { List& t = o.emplace(c, r); VX_ASSERT(&t == &*o && o->is(0, 0, 0, 3, x, y) && r == 0x77, "emplaced a different value"); made = true; break; }
        case 10: { List& t = o.emplace(u8(x), Elem<3>(z)); VX_ASSERT(&t == &*o && o->is(0, 0, 0, 4, x, z), "emplaced a different value"); made = true; break; }
        }
        VX_ASSERT(o.has_value() == (made || k != 0), "presence is wrong");
        if (!made && k) VX_ASSERT(o->is(1, z, z, 0, 0, 0), "another optional changed");
    }
    end_checks();
    end_path();
}
