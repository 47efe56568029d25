// Variable length array of booleans against a reference bit sequence.
#include "vla.hpp"
#ifndef VX_N
#    define VX_N 10
#endif
#ifndef VX_M
#    define VX_M 17
#endif
#ifndef VX_K
#    define VX_K 1
#endif
using namespace vx;

namespace
{
using A  = Alloc<bool, true>;
using B  = cetl::VariableLengthArray<bool, Alloc<unsigned char, true>>;
using BN = cetl::VariableLengthArray<bool, Alloc<unsigned char, false>>;

/// Bits written through masks: the packing must not leak into neighbours whatever garbage is left in the storage.
template <typename V>
void dirty(V& w)
{
    // leave stale ones and zeros behind in the reserved storage
    const u8 g = sym8("garbage");
    for (int i = 0; i < 8; ++i) w.push_back(bool((g >> i) & 1));
    for (int i = 0; i < 8; ++i) w.push_back(bool((g >> i) & 1));
    w.clear();
}

template <typename V>
void drive(const typename V::allocator_type& x, const typename V::allocator_type& y, bool edge)
{
    {
        __vx_merge(1);
        Machine<V> m(x, y, VX_M);
        const std::size_t n = edge ? pick("n", 5, VX_N) : pick("n", 0, VX_N);
        __vx_shard(n);
        switch (choice("prep", 3))
        {
        case 0: break;
        case 1: m.a.reserve(n + 1); break;
        default: dirty(m.a); break;
        }
        m.fill(m.a, m.ma, n);
        m.fill(m.b, m.mb, edge ? 9 : pick("m", 0, 2) * 4);
        for (int i = 0; i < VX_K; ++i)
        {
            const int op = static_cast<int>(choice("op", O_count));
            __vx_shard(static_cast<unsigned>(op));
            m.template step<true>(op);
            m.check();
        }
        check_at_rejects(m.a, m.ma);
        for (std::size_t i = 0; i < m.ma.n; ++i) log(m.ma.v[i]);
    }
    end_checks();
    end_path();
}
}  // namespace

VX_HARNESS(bool_ops)
{
    drive<B>(Alloc<unsigned char, true>(1), Alloc<unsigned char, true>(flag("same_alloc") ? 1 : 2), false);
}
VX_HARNESS(bool_ops_noprop)
{
    drive<BN>(Alloc<unsigned char, false>(1), Alloc<unsigned char, false>(flag("same_alloc") ? 1 : 2), false);
}
VX_HARNESS(bool_ops_pmr)
{
    using P = cetl::pf17::pmr::polymorphic_allocator<unsigned char>;
    Res r1(1, Re::Move), r2(2, Re::Move);
    drive<cetl::VariableLengthArray<bool, P>>(P(&r1), P(flag("same_alloc") ? &r1 : &r2), false);
}

/// Long arrays: grown to each of a few lengths, then one operation.
VX_HARNESS(bool_long)
{
    {
        __vx_merge(1);
        const std::size_t lengths[] = {63, 64, 129};
        const u64         l         = choice("length", 3);
        const std::size_t n         = lengths[l];
        __vx_shard(l);
        Machine<BN> m(Alloc<unsigned char, false>(1), Alloc<unsigned char, false>(flag("same_alloc") ? 1 : 2), n + 70);
        m.sparse = true;
        if (flag("presized")) m.a.reserve(n);
        m.fill(m.a, m.ma, n);
        m.fill(m.b, m.mb, flag("longer") ? n + 1 : n - 7);
        const int op = static_cast<int>(choice("op", O_count));
        __vx_shard(static_cast<unsigned>(op));
        m.template step<true>(op);
        m.check();
        check_at_rejects(m.a, m.ma);
        log(m.a.size());
    }
    end_checks();
    end_path();
}

/// Equality holds exactly when the lengths and all bits are equal, whatever is stored in unused bits.
VX_HARNESS(bool_eq)
{
    {
        __vx_merge(1);
        Alloc<unsigned char, true> al(1);
        B a(al), b(al);
        const std::size_t n = pick("n", 0, VX_M), m = pick("m", 0, VX_M);
        __vx_shard(n);
        if (flag("dirty")) dirty(a);
        Seq ma, mb;
        Machine<B>::fill(a, ma, n);
        Machine<B>::fill(b, mb, m);
        const std::size_t pops = pick("pops", 0, 2);  // removed bits stay behind in the storage
        for (std::size_t i = 0; i < pops; ++i)
        {
            a.pop_back();
            if (ma.n) --ma.n;
        }
        unsigned eq = ma.n == mb.n;
        for (std::size_t i = 0; i < ma.n && i < mb.n; ++i) eq &= unsigned(ma.v[i] == mb.v[i]);
        VX_ASSERT((a == b) == bool(eq), "equality disagrees with the bits");
        VX_ASSERT((b == a) == bool(eq), "equality is not symmetric");
        VX_ASSERT((a != b) == !bool(eq), "inequality is not the negation of equality");
        VX_ASSERT(a == a && !(a != a), "array differs from itself");
        B c(a);
        VX_ASSERT(c == a, "copy differs from its source");
        if (ma.n == mb.n) VX_REACH("same_length");
    }
    end_checks();
    end_path();
}

/// Proxies and single bits: writing position i (symbolic) changes bit i and nothing else.
VX_HARNESS(bool_proxy)
{
    {
        __vx_merge(1);
        Alloc<unsigned char, true> al(1);
        B a(al);
        const std::size_t n = pick("n", 1, VX_M);
        __vx_shard(n);
        Seq ma;
        Machine<B>::fill(a, ma, n);
        const std::size_t i = static_cast<std::size_t>(range("i", 0, n - 1));
        const std::size_t j = static_cast<std::size_t>(range("j", 0, n - 1));
        const bool        x = symbool("x");
        const int         k = static_cast<int>(choice("how", 9));
        __vx_shard(static_cast<unsigned>(k));
        const u8 oi = ma.v[i], oj = ma.v[j];
        bool     ni = x;
        switch (k)
        {
        case 0: a[i] = x; break;
        case 1: a[i].flip(); ni = !oi; break;
        case 2: B::set(a, i, x); break;
        case 3: *(a.begin() + static_cast<std::ptrdiff_t>(i)) = x; break;
        case 4: a[i] = a[j]; ni = oj != 0; break;
        case 5: { auto it = a.end(); it -= static_cast<std::ptrdiff_t>(n - i); *it = x; break; }
        case 6: B::set(a, i); ni = true; break;
        case 7: { B::set(a, n + j, x); ni = oi != 0; break; }  // beyond the end: no effect
        default: { B::reference r = a[j]; a[i] = std::move(r); ni = oj != 0; break; }
        }
        VX_ASSERT((~a[i]) == !ni, "operator~");
        VX_ASSERT((a[i] == a[j]) == (bool(a[i]) == bool(a[j])), "proxy equality");
        VX_ASSERT((a[i] != a[j]) == (bool(a[i]) != bool(a[j])), "proxy inequality");
        VX_ASSERT(B::test(a, i) == ni, "test");
        VX_ASSERT(!B::test(a, n + j), "test beyond the end");
        for (std::size_t p = 0; p < n; ++p)
        {
            const bool now    = static_cast<const B&>(a)[p];
            const bool expect = p == i ? ni : ma.v[p] != 0;
            VX_ASSERT(now == expect, "writing one bit changed another, or did not change the addressed one");
        }
        VX_ASSERT(a.size() == n, "size changed");
    }
    end_checks();
    end_path();
}

/// Iterator arithmetic and ordering for every pair of positions.
VX_HARNESS(bool_iter)
{
    {
        __vx_merge(1);
        Alloc<unsigned char, true> al(1);
        B a(al);
        const std::size_t n = pick("n", 1, VX_M);
        __vx_shard(n);
        Seq ma;
        Machine<B>::fill(a, ma, n);
        const std::ptrdiff_t N = static_cast<std::ptrdiff_t>(n);
        const std::ptrdiff_t i = static_cast<std::ptrdiff_t>(range("i", 0, n));
        const std::ptrdiff_t j = static_cast<std::ptrdiff_t>(range("j", 0, n));
        const B& ca = a;
        const auto p = a.begin() + i, q = a.begin() + j;
        const auto cp = ca.begin() + i, cq = ca.cbegin() + j;
        VX_ASSERT(p - q == i - j && cp - cq == i - j, "iterator difference");
        VX_ASSERT((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "iterator ordering");
        VX_ASSERT((cp == cq) == (i == j) && (cp < cq) == (i < j) && (cp >= cq) == (i >= j), "const iterator ordering");
        VX_ASSERT(a.end() - a.begin() == N && ca.end() - ca.begin() == N && a.cend() - a.cbegin() == N, "iterator range");
        auto t = p;
        t += (j - i);
        VX_ASSERT(t == q, "+=");
        t -= (j - i);
        VX_ASSERT(t == p, "-=");
        VX_ASSERT(p + (j - i) == q && q - (j - i) == p, "+ and -");
        auto o = t++;
        VX_ASSERT(o == p && t - p == 1, "post-increment");
        o = t--;
        VX_ASSERT(o - p == 1 && t == p, "post-decrement");
        VX_ASSERT(++t - p == 1 && t - p == 1, "pre-increment");
        VX_ASSERT(--t == p && t == p, "pre-decrement");
        if (i < N)
        {
            auto pm = p;
            auto cm = cp;
            VX_ASSERT(bool(*p) == (ma.v[i] != 0) && *cp == (ma.v[i] != 0) && bool(*pm) == (ma.v[i] != 0) && *cm == (ma.v[i] != 0), "dereference");
            VX_ASSERT(bool(q[i - j]) == (ma.v[i] != 0) && cq[i - j] == (ma.v[i] != 0), "iterator indexing");
            B z(al);
            (void) z;
        }
        // range constructor over a sub-range of symbolic position
        const std::size_t lo = pick("lo", 0, n), hi = pick("hi", lo, n);
        B s(a.begin() + static_cast<std::ptrdiff_t>(lo), a.begin() + static_cast<std::ptrdiff_t>(hi), al);
        VX_ASSERT(s.size() == hi - lo, "range construction length");
        for (std::size_t k = 0; k < hi - lo; ++k) VX_ASSERT(bool(s[k]) == (ma.v[lo + k] != 0), "range construction contents");
    }
    end_checks();
    end_path();
}
