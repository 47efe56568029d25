// Maximum size of variable length arrays: never exceeded, requests within it never refused.
#include "vla.hpp"
#ifndef VX_N
#    define VX_N 4
#endif
#ifndef VX_LO
#    define VX_LO 0
#endif
#ifndef VX_K
#    define VX_K 2
#endif
using namespace vx;

namespace
{
constexpr std::size_t Huge = ~std::size_t(0);

template <typename V>
struct LM
{
    using T = typename V::value_type;
    using A = typename V::allocator_type;
    V           a, b;
    Seq         ma, mb;
    std::size_t la, lb;  // configured limits
    std::size_t cap_a, cap_b;  // what the allocators can provide (elements)
    LM(std::size_t xa, const A& aa, std::size_t xb, const A& ab, std::size_t pa, std::size_t pb)
        : a(xa, aa), b(xb, ab), la(xa), lb(xb), cap_a(pa), cap_b(pb) {}
    static T    make(u8 x) { return widen<T>(x); }
    static std::size_t lim(std::size_t l, std::size_t c) { return l < c ? l : c; }
    std::size_t lim_a() const { return lim(la, cap_a); }

    template <typename F>
    bool refused(F f)
    {
        bool r = false;
        VX_TRY { f(); }
        VX_CATCH(const std::length_error&) { r = true; VX_REACH("length_error"); }
        return r;
    }
    void check()
    {
        VX_ASSERT(a.size() <= lim_a(), "array larger than its maximum size");
        VX_ASSERT(a.max_size() == lim_a(), "max_size() is not the smaller of the configured and the allocator's limit");
        VX_ASSERT(b.size() <= lim(lb, cap_b), "array larger than its maximum size");
        check_seq(a, ma);
        check_seq(b, mb, false);
    }
    /// Any count up to the array bound of the harness and any count beyond the limit (up to 2^64-1).
    static u64 count(std::size_t L)
    {
        const u64 n = sym64("count");
        __vx_assume(bool(int(n <= VX_N + 3) | int(n > L)));
        return n;
    }
    void step()
    {
        const int op = static_cast<int>(choice("op", 12));
        __vx_shard(static_cast<unsigned>(op));
        const std::size_t L = lim_a();
        switch (op)
        {
        case 0:
        case 1:
        {
            const u8   x = symv<T>("v");
            const bool r = refused([&] {
                if (op == 0) a.push_back(make(x));
                else a.emplace_back(make(x));
            });
            if (ma.n < L) ma.push(x), VX_ASSERT(!r, "append within the limit refused");
            else VX_ASSERT(r == bool(VX_EXC), "append beyond the limit not reported"), VX_REACH("limit");
            break;
        }
        case 2:
        case 3:
        case 4:
        {
            const u64 n = count(L);
            const u8  x = op == 2 ? u8(0) : symv<T>("v");
            const bool r = refused([&] {
                if (op == 2) a.resize(static_cast<std::size_t>(n));
                else if (op == 3) a.resize(static_cast<std::size_t>(n), make(x));
                else a.assign(static_cast<std::size_t>(n), make(x));
            });
            if (n <= L)
            {
                VX_ASSERT(!r, "resize within the limit refused");
                const std::size_t k = static_cast<std::size_t>(__vx_concretize(n));
                if (op == 4) m_assign(ma, k, x);
                else m_resize(ma, k, x);
            }
            else
            {
                VX_REACH("limit");
                VX_ASSERT(r == bool(VX_EXC), "resize beyond the limit not reported");
#if !VX_EXC
                // clamped: anything between the old size and the limit, with the old elements in front
                VX_ASSERT(a.size() <= L && a.size() >= (op == 4 ? 0 : ma.n), "clamped size out of range");
                if (op == 4) m_assign(ma, a.size(), x);
                else m_resize(ma, a.size(), x);
#endif
            }
            break;
        }
        case 5:
        {
            const u64 n = count(L);
            const std::size_t cap = a.capacity();
            const bool r = refused([&] { a.reserve(static_cast<std::size_t>(n)); });
            if (n <= L)
            {
                VX_ASSERT(!r, "reservation within the limit refused");
                VX_ASSERT(a.capacity() >= n, "reservation did not provide the capacity");
            }
            else if (n > cap) VX_ASSERT(r == bool(VX_EXC), "reservation beyond the limit not reported"), VX_REACH("limit");
            break;
        }
        case 6:
            a  = b;
            la = lb;
            ma = mb;
            break;
        case 7:
        {
            a  = std::move(b);
            la = lb;
            ma = mb;
            b.clear();
            mb.n = 0;
            break;
        }
        case 8:
        {
            V c(a);
            VX_ASSERT(c.max_size() == L, "copy has a different maximum size");
            check_seq(c, ma);
            V d(std::move(c));
            VX_ASSERT(d.max_size() == L, "moved-to array has a different maximum size");
            if (ma.n == L)
            {
                const bool r = refused([&] { d.push_back(make(1)); });
                VX_ASSERT(r == bool(VX_EXC) && d.size() == ma.n, "copy grew beyond the maximum size");
            }
            break;
        }
        case 9:
        {
            const std::initializer_list<T> l = {make(1), make(0), make(1)};
            ctor(l.begin(), l.size(), flag("list"), l);
            break;
        }
        case 10:
            a.pop_back();
            if (ma.n) --ma.n;
            break;
        default:
            a.shrink_to_fit();
            break;
        }
    }
    void ctor(const T* p, std::size_t n, bool list, const std::initializer_list<T>& l)
    {
        const std::size_t mx = pick("cmax", 0, 4);
        const std::size_t L  = lim(mx, cap_a);
        Seq               m;
        m.push(1);
        m.push(0);
        m.push(1);
        const bool r = refused([&] {
            if (list)
            {
                V c(l, mx, a.get_allocator());
                VX_ASSERT(c.size() <= L, "constructed array larger than its maximum size");
                m.n = n < L ? n : L;
                check_seq(c, m);
            }
            else
            {
                V c(p, p + n, mx, a.get_allocator());
                VX_ASSERT(c.size() <= L, "constructed array larger than its maximum size");
                m.n = n < L ? n : L;
                check_seq(c, m);
            }
        });
        VX_ASSERT(r == (VX_EXC && n > L), "construction: limit not applied");
    }
};

template <typename T, typename A>
void drive(const A& x, const A& y, std::size_t pa, std::size_t pb, std::size_t N)
{
    using V = cetl::VariableLengthArray<T, A>;
    {
        if (std::is_same<T, bool>::value) __vx_merge(1);
        const std::size_t la = pick("la", VX_LO, N), lb = flag("lb_huge") ? Huge : pick("lb", VX_LO, N);
        LM<V>             m(la, x, lb, y, pa, pb);
        const std::size_t na = la < pa ? la : pa;
        std::size_t       n  = pick("n", na < VX_LO ? na : VX_LO, na);
        __vx_shard(n);
        if (flag("exact")) m.a.reserve(n);
        Machine<V>::fill(m.a, m.ma, n);
        const std::size_t mb_lim = lb < N ? lb : N, mb_max = mb_lim < pb ? mb_lim : pb;
        Machine<V>::fill(m.b, m.mb, pick("m", VX_LO < mb_max ? VX_LO : mb_max, mb_max));
        m.check();
        for (int k = 0; k < VX_K; ++k)
        {
            m.step();
            m.check();
        }
        log(m.a.size());
    }
    end_checks();
    end_path();
}
template <typename T, bool Prop>
void drive_alloc(std::size_t N)
{
    using A = Alloc<T, Prop>;
    drive<T, A>(A(1), A(flag("same_alloc") ? 1 : 2), std::size_t(0) + (~std::size_t(0) / 2) / sizeof(T), (~std::size_t(0) / 2) / sizeof(T), N);
}
}  // namespace

VX_HARNESS(limit_u8) { drive_alloc<u8, true>(VX_N); }
VX_HARNESS(limit_u8_noprop) { drive_alloc<u8, false>(VX_N); }
VX_HARNESS(limit_elem) { drive_alloc<Elem<0>, false>(VX_N); }
VX_HARNESS(limit_u32_alloc)  // the allocator's own limit applies
{
    using A             = Alloc<u32, false>;
    const std::size_t p = pick("pa", 0, 3);
    drive<u32, A>(A(1, p * 4 + pick("slack", 0, 3)), A(1, p * 4), p, p, VX_N);
}
VX_HARNESS(limit_u16_pmr)
{
    using A = cetl::pf17::pmr::polymorphic_allocator<u16>;
    Res r(1);
    drive<u16, A>(A(&r), A(&r), (~std::size_t(0) / 2) / 2, (~std::size_t(0) / 2) / 2, VX_N);
}
VX_HARNESS(limit_bool) { drive<bool>(Alloc<u8, false>(1), Alloc<u8, false>(flag("same_alloc") ? 1 : 2), ~std::size_t(7), ~std::size_t(7), VX_N); }
VX_HARNESS(limit_bool_alloc)  // the allocator provides a whole number of bytes
{
    const std::size_t p = pick("pa", 0, 2);
    drive<bool>(Alloc<u8, true>(1, p), Alloc<u8, true>(1, p), p * 8, p * 8, VX_N);
}
