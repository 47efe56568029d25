// Variable length array with failing allocations and throwing elements.
#include "vla.hpp"
#ifndef VX_N
#    define VX_N 3
#endif
#ifndef VX_LO
#    define VX_LO 0
#endif
#ifndef VX_BUDGET
#    define VX_BUDGET 1
#endif
#ifndef VX_K
#    define VX_K 1
#endif
using namespace vx;

namespace
{
enum FOp
{
    F_push_m, F_emplace, F_emplace0, F_reserve, F_resize, F_shrink, F_move_assign, F_move_ctor_alloc,
    F_copy,
    F_push_c = F_copy, F_resize_v, F_assign, F_copy_assign, F_copy_ctor, F_copy_ctor_alloc, F_iter_ctor, F_list_ctor, F_count
};

/// Reads every element (so that dead or uninitialised ones are noticed) and compares the first n with the model.
template <typename V>
void check_prefix(V& a, const Seq& m, std::size_t n)
{
    const V& c = a;
    VX_ASSERT(c.size() <= c.capacity(), "size exceeds capacity after a failure");
    for (std::size_t i = 0; i < c.size(); ++i)
    {
        const u8 x = rd<V>(c[i]);
        if (i < n) VX_ASSERT(x == m.v[i], "failed operation changed the contents");
    }
}
template <typename V>
void still_usable(V& a)
{
    const int oom = mem().oom, thr = life().throws;
    oom_budget(0);
    throw_budget(0);
    Seq m;
    for (std::size_t i = 0; i < a.size(); ++i) m.push(rd<V>(static_cast<const V&>(a)[i]));
    const u8 x = symv<typename V::value_type>("after");
    a.push_back(widen<typename V::value_type>(x));
    m.push(x);
    check_seq(a, m);
    a.resize(m.n + 2);
    m_resize(m, m.n + 2, 0);
    check_seq(a, m);
    a.pop_back();
    --m.n;
    a.shrink_to_fit();
    check_seq(a, m);
    a.clear();
    m.n = 0;
    check_seq(a, m);
    oom_budget(oom);
    throw_budget(thr);
}

template <typename V, typename F>
bool attempt(F f)
{
    // returns true when the operation reported failure
    bool reported = false;
    VX_TRY { f(); }
    VX_CATCH(const std::bad_alloc&) { reported = true; VX_REACH("bad_alloc"); }
    VX_CATCH(const Boom&) { reported = true; VX_REACH("boom"); }
    return reported;
}

template <typename V, bool Copyable>
struct FM
{
    using T = typename V::value_type;
    using A = typename V::allocator_type;
    V    a, b;
    Seq  ma, mb;
    A    alt;
    FM(const A& x, const A& y) : a(x), b(y), alt(y) {}
    static T make(u8 x) { return widen<T>(x); }

    /// A failed operation must leave `a` as it was.
    void strong(bool failed, std::size_t old_n, std::size_t old_cap, const Seq& expect)
    {
        if (failed)
        {
            VX_REACH("strong");
            VX_ASSERT(a.size() == old_n, "failed operation changed the size");
            VX_ASSERT(a.capacity() >= old_cap, "failed operation lost capacity");
            check_seq(a, ma);
        }
        else
        {
            ma = expect;
            check_seq(a, ma);
        }
    }
    /// did something fail that must be reported through the state when exceptions are disabled?
    static int fails() { return mem().failures + life().thrown; }

    void step(int op)
    {
        const std::size_t n   = a.size();
        const std::size_t cap = a.capacity();
        const int         f0  = fails();
        Seq               e   = ma;
        switch (op)
        {
        case F_push_m:
        case F_push_c:
        case F_emplace:
        case F_emplace0:
        {
            const u8 x      = op == F_emplace0 ? u8(0) : symv<typename V::value_type>("v");
            bool     failed = false;
            if (op == F_push_m || op == F_push_c) failed = push(x, op == F_push_c, std::integral_constant<bool, Copyable>{});
            else if (op == F_emplace) failed = attempt<V>([&] { a.emplace_back(emplace_arg<T>(x)); });
            else failed = attempt<V>([&] { emplace0<V>(0); });
#if !VX_EXC
            failed = a.size() == n;
            VX_ASSERT(!failed || fails() > f0, "append silently refused");
#else
            VX_ASSERT(failed == (fails() > f0), "failure not reported");
#endif
            e.push(x);
            strong(failed, n, cap, e);
            break;
        }
        case F_reserve:
        {
            const std::size_t r      = pick("reserve", 0, VX_N + 3);
            bool              failed = attempt<V>([&] { a.reserve(r); });
#if VX_EXC
            VX_ASSERT(failed == (fails() > f0), "failure not reported");
#else
            failed = a.capacity() < r;
            VX_ASSERT(failed == (fails() > f0), "failed reservation must leave the capacity short");
#endif
            VX_ASSERT(failed || a.capacity() >= r, "reserve did not provide the capacity");
            VX_ASSERT(!failed || a.capacity() == cap, "failed reservation changed the capacity");
            strong(failed, n, cap, e);
            if (!failed) check_seq(a, ma);
            break;
        }
        case F_shrink:
        {
            const bool failed = attempt<V>([&] { a.shrink_to_fit(); });
            check_seq(a, ma);
            VX_ASSERT(fails() > f0 || a.capacity() >= a.size(), "capacity");
            (void) failed;
            break;
        }
        case F_resize:
        case F_resize_v:
        {
            const std::size_t r = pick("resize", 0, VX_N + 3);
            const u8          x = op == F_resize ? u8(0) : symv<typename V::value_type>("v");
            bool              failed;
            if (op == F_resize) failed = attempt<V>([&] { a.resize(r); });
            else failed = resize_v(r, x, std::integral_constant<bool, Copyable>{});
            const bool hit = fails() > f0;
#if VX_EXC
            VX_ASSERT(failed == hit, "failure not reported");
            if (failed) check_prefix(a, ma, n < r ? n : r), VX_ASSERT(a.size() <= (n > r ? n : r) && a.size() >= (n < r ? n : r), "failed resize lost elements"), sync();
#else
            if (hit)
            {
                VX_ASSERT(a.size() < r && a.size() >= n, "failed resize must leave the size short");
                check_prefix(a, ma, n);
                sync();
            }
            failed = hit;
#endif
            if (!failed)
            {
                m_resize(ma, r, x);
                check_seq(a, ma);
            }
            break;
        }
        case F_assign: assign(std::integral_constant<bool, Copyable>{}); break;
        case F_move_assign:
        {
            const Seq  mb0    = mb;
            const bool failed = attempt<V>([&] { a = std::move(b); });
            const bool hit    = fails() > f0;
#if VX_EXC
            VX_ASSERT(failed == hit, "failure not reported");
#endif
            if (hit)
            {
                // nothing may be lost that was not transferred (element moves may have consumed values)
                if (life().thrown == 0)
                {
                    VX_ASSERT(b.size() == mb0.n, "failed move assignment lost the source's elements");
                    check_prefix(b, mb0, mb0.n);
                }
                sync();
                syncb();
            }
            else
            {
                ma = mb0;
                check_seq(a, ma);
                syncb();
            }
            break;
        }
        case F_copy_assign: copy_assign(std::integral_constant<bool, Copyable>{}); break;
        case F_move_ctor_alloc:
        {
            const Seq  m0     = ma;
            const bool failed = attempt<V>([&] {
                V c(std::move(a), alt);
                if (fails() == f0)
                {
                    check_seq(c, m0);
                    still_usable(c);
                }
            });
#if VX_EXC
            VX_ASSERT(failed == (fails() > f0), "failure not reported");
#endif
            (void) failed;
            if (fails() > f0 && life().thrown == 0)
            {
                VX_ASSERT(a.size() == m0.n, "failed move lost the source's elements");
                check_prefix(a, m0, m0.n);
            }
            sync();
            break;
        }
        default: ctor(op, std::integral_constant<bool, Copyable>{}); break;
        }
    }
    template <typename W>
    auto emplace0(int) -> decltype(std::declval<W>().emplace_back()) { a.emplace_back(); }
    template <typename W>
    void emplace0(long) { a.emplace_back(false); }
    bool push(u8 x, bool c, std::true_type)
    {
        T t = make(x);
        if (c)
        {
            const bool f = attempt<V>([&] { a.push_back(static_cast<const T&>(t)); });
            VX_ASSERT(rd<V>(t) == x, "push_back changed its argument");
            return f;
        }
        return attempt<V>([&] { a.push_back(std::move(t)); });
    }
    bool push(u8 x, bool, std::false_type)
    {
        T t = make(x);
        return attempt<V>([&] { a.push_back(std::move(t)); });
    }
    bool resize_v(std::size_t r, u8 x, std::true_type)
    {
        T t = make(x);
        return attempt<V>([&] { a.resize(r, t); });
    }
    bool resize_v(std::size_t, u8, std::false_type) { return false; }
    void assign(std::true_type)
    {
        const std::size_t r  = pick("assign", 0, VX_N + 3);
        const u8          x  = symv<typename V::value_type>("v");
        const int         f0 = fails();
        const std::size_t n  = a.size();
        T                 t  = make(x);
        const bool        failed = attempt<V>([&] { a.assign(r, t); });
        if (fails() > f0)
        {
#if VX_EXC
            VX_ASSERT(failed, "failure not reported");
            if (life().thrown == 0)
            {
                VX_ASSERT(a.size() == n, "failed assign changed the size");
                check_prefix(a, ma, n);
            }
#else
            VX_ASSERT(a.size() < r, "failed assign must leave the size short");
#endif
            check_prefix(a, ma, 0);
            sync();
        }
        else
        {
            m_assign(ma, r, x);
            check_seq(a, ma);
        }
    }
    void assign(std::false_type) {}
    void copy_assign(std::true_type)
    {
        const int  f0     = fails();
        const bool failed = attempt<V>([&] { a = b; });
        const bool hit    = fails() > f0;
        check_seq(b, mb);
        if (hit)
        {
#if VX_EXC
            VX_ASSERT(failed, "failure not reported");
#else
            VX_ASSERT(a.size() < mb.n, "failed copy assignment must leave the size short");
            check_prefix(a, mb, a.size());
#endif
            check_prefix(a, mb, 0);
            sync();
        }
        else
        {
            ma = mb;
            check_seq(a, ma);
        }
    }
    void copy_assign(std::false_type) {}
    void ctor(int op, std::true_type)
    {
        const int f0 = fails();
        T         arr[2] = {make(1), make(0)};
        Seq       marr;
        marr.push(1);
        marr.push(0);
        const bool failed = attempt<V>([&] {
            if (op == F_copy_ctor) { V c(a); made(c, ma, f0); }
            else if (op == F_copy_ctor_alloc) { V c(static_cast<const V&>(a), alt); made(c, ma, f0); }
            else if (op == F_iter_ctor)
            {
                if (flag("own")) { V c(a.begin(), a.end(), alt); made(c, ma, f0); }
                else { V c(arr, arr + 2, std::size_t(9), alt); made(c, marr, f0); }
            }
            else
            {
                const std::initializer_list<T> l = {make(1), make(0)};
                V c(l, alt);
                made(c, marr, f0);
            }
        });
#if VX_EXC
        VX_ASSERT(failed == (fails() > f0), "failure not reported");
#endif
        check_seq(a, ma);
    }
    void made(V& c, const Seq& m, int f0)
    {
        if (fails() == f0) check_seq(c, m);
        else
        {
            // short of memory the array may hold fewer elements (all of them when a further attempt to allocate succeeded)
            VX_ASSERT(c.size() <= m.n && c.size() <= c.capacity(), "construction without memory produced too many elements");
            check_prefix(c, m, c.size());
            still_usable(c);
        }
    }
    void ctor(int, std::false_type) {}
    void sync()
    {
        ma.n = 0;
        for (std::size_t i = 0; i < a.size(); ++i) ma.push(rd<V>(static_cast<const V&>(a)[i]));
    }
    void syncb()
    {
        mb.n = 0;
        for (std::size_t i = 0; i < b.size(); ++i) mb.push(rd<V>(static_cast<const V&>(b)[i]));
    }
};

template <typename T, typename A, bool Copyable>
void drive(const A& x, const A& y, int oom, int throws)
{
    using V = cetl::VariableLengthArray<T, A>;
    {
        if (std::is_same<T, bool>::value) __vx_merge(1);
        FM<V, Copyable>   m(x, y);
        const std::size_t n = pick("n", VX_LO, VX_N);
        __vx_shard(n);
        if (flag("presized")) m.a.reserve(n + 1);
        Machine<V>::fill(m.a, m.ma, n);
        Machine<V>::fill(m.b, m.mb, std::is_same<T, bool>::value ? pick("m", 0, 2) * 6 : pick("m", 0, 3));
        for (int k = 0; k < VX_K; ++k)
        {
            const int op = static_cast<int>(choice("op", Copyable ? F_count : F_copy));
            __vx_shard(static_cast<unsigned>(op));
            oom_budget(oom);
            mem().refuse = oom;
            throw_budget(throws);
            const int f0 = FM<V, Copyable>::fails();
            VX_TRY { m.step(op); }
            VX_CATCH(const Boom&) { m.sync(); m.syncb(); }  // thrown by the harness's own temporaries
            oom_budget(0);
            throw_budget(0);
            if (FM<V, Copyable>::fails() > f0) VX_REACH("failed");
        }
        log(m.a.size());
        for (std::size_t i = 0; i < m.a.size(); ++i) log(rd<V>(static_cast<const V&>(m.a)[i]));
        still_usable(m.a);
        still_usable(m.b);
    }
    end_checks();
    end_path();
}
template <typename T, bool Copyable, bool Prop>
void drive_alloc(int oom, int throws)
{
    using A = Alloc<T, Prop>;
    drive<T, A, Copyable>(A(1), A(flag("same_alloc") ? 1 : 2), oom, throws);
}
template <typename T, bool Copyable>
void drive_pmr(Re re, int oom, int throws)
{
    using A = cetl::pf17::pmr::polymorphic_allocator<T>;
    Res r1(1, re), r2(2, re);
    drive<T, A, Copyable>(A(&r1), A(flag("same_alloc") ? &r1 : &r2), oom, throws);
}
}  // namespace

VX_HARNESS(oom_u8) { drive_alloc<u8, true, true>(VX_BUDGET, 0); }
VX_HARNESS(oom_u8_noprop) { drive_alloc<u8, true, false>(VX_BUDGET, 0); }
VX_HARNESS(oom_u32_pmr) { drive_pmr<u32, true>(Re::None, VX_BUDGET, 0); }
VX_HARNESS(oom_u8_pmr_re) { drive_pmr<u8, true>(Re::Move, VX_BUDGET, 0); }
VX_HARNESS(oom_elem) { drive_alloc<Elem<0>, true, true>(VX_BUDGET, 0); }
VX_HARNESS(oom_elem_noprop) { drive_alloc<Elem<0>, true, false>(VX_BUDGET, 0); }
VX_HARNESS(oom_moveonly_noprop) { drive_alloc<Elem<3>, false, false>(VX_BUDGET, 0); }
VX_HARNESS(throw_all) { drive_alloc<Elem<1>, true, true>(0, VX_BUDGET); }
VX_HARNESS(throw_all_noprop) { drive_alloc<Elem<1>, true, false>(0, VX_BUDGET); }
VX_HARNESS(throw_copy) { drive_alloc<Elem<2>, true, true>(0, VX_BUDGET); }
VX_HARNESS(throw_copy_noprop) { drive_alloc<Elem<2>, true, false>(0, VX_BUDGET); }
VX_HARNESS(throw_pmr) { drive_pmr<Elem<1>, true>(Re::None, 0, VX_BUDGET); }
VX_HARNESS(throw_oom) { drive_alloc<Elem<1>, true, false>(1, 1); }
VX_HARNESS(oom_bool) { drive<bool, Alloc<u8, true>, true>(Alloc<u8, true>(1), Alloc<u8, true>(flag("same_alloc") ? 1 : 2), VX_BUDGET, 0); }
VX_HARNESS(oom_bool_noprop) { drive<bool, Alloc<u8, false>, true>(Alloc<u8, false>(1), Alloc<u8, false>(flag("same_alloc") ? 1 : 2), VX_BUDGET, 0); }
VX_HARNESS(oom_bool_pmr)
{
    using A = cetl::pf17::pmr::polymorphic_allocator<u8>;
    Res r1(1, Re::Move), r2(2, Re::Move);
    drive<bool, A, true>(A(&r1), A(flag("same_alloc") ? &r1 : &r2), VX_BUDGET, 0);
}
