// Variable length array against a reference sequence.
#include "vla.hpp"
#include <cetl/pf17/sys/memory_resource.hpp>
#include <iterator>
#ifndef VX_N
#    define VX_N 3
#endif
#ifndef VX_K
#    define VX_K 2
#endif
using namespace vx;

/// Initial arrays of symbolic content and every length/slack, then VX_K arbitrary operations.
template <typename T, typename A, bool Copyable>
static void drive(const A& x, const A& y)
{
    using V = cetl::VariableLengthArray<T, A>;
    {
        Machine<V> m(x, y, VX_N + VX_K);
        const std::size_t n = pick("n", 0, VX_N);
        __vx_shard(n);
        if (flag("presized")) m.a.reserve(n + 1);
        m.fill(m.a, m.ma, n);
        m.fill(m.b, m.mb, pick("m", 0, 2));
        for (int i = 0; i < VX_K; ++i)
        {
            const int op = static_cast<int>(choice("op", Copyable ? O_count : O_copy_ops));
            __vx_shard(static_cast<unsigned>(op));
            m.template step<Copyable>(op);
            m.check();
        }
        check_data(m.a, m.ma);
        check_at_rejects(m.a, m.ma);
        for (std::size_t i = 0; i < m.ma.n; ++i) log(m.ma.v[i]);
        log(m.a.capacity());
    }
    end_checks();
    end_path();
}
template <typename T, bool Copyable, bool Prop, bool PropCopy = Prop>
static void drive_alloc()
{
    using A = Alloc<T, Prop, false, PropCopy>;
    drive<T, A, Copyable>(A(1), A(flag("same_alloc") ? 1 : 2));
}
template <typename T, bool Copyable>
static void drive_pmr(Re re)
{
    using A = cetl::pf17::pmr::polymorphic_allocator<T>;
    Res r1(1, re), r2(2, re);
    drive<T, A, Copyable>(A(&r1), A(flag("same_alloc") ? &r1 : &r2));
}

VX_HARNESS(vla_u8) { drive_alloc<u8, true, true>(); }
VX_HARNESS(vla_u8_noprop) { drive_alloc<u8, true, false>(); }
VX_HARNESS(vla_u8_prop_move) { drive_alloc<u8, true, true, false>(); }
VX_HARNESS(vla_u8_prop_copy) { drive_alloc<u8, true, false, true>(); }
VX_HARNESS(vla_elem_prop_move) { drive_alloc<Elem<0>, true, true, false>(); }
VX_HARNESS(vla_elem_prop_copy) { drive_alloc<Elem<0>, true, false, true>(); }
VX_HARNESS(vla_u32_std) { drive<u32, std::allocator<u32>, true>(std::allocator<u32>{}, std::allocator<u32>{}); }
VX_HARNESS(vla_u8_pmr) { drive_pmr<u8, true>(Re::None); }
VX_HARNESS(vla_u16_pmr_re) { drive_pmr<u16, true>(Re::Move); }
VX_HARNESS(vla_elem) { drive_alloc<Elem<0>, true, true>(); }
VX_HARNESS(vla_elem_noprop) { drive_alloc<Elem<0>, true, false>(); }
VX_HARNESS(vla_elem_pmr) { drive_pmr<Elem<0>, true>(Re::None); }
VX_HARNESS(vla_elem_copymove) { drive_alloc<Elem<1>, true, true>(); }
VX_HARNESS(vla_moveonly) { drive_alloc<Elem<3>, false, true>(); }
VX_HARNESS(vla_moveonly_noprop) { drive_alloc<Elem<3>, false, false>(); }
VX_HARNESS(vla_wide) { drive_alloc<Elem<0, 3>, true, true>(); }

/// Long arrays: grown one by one to each of a few lengths, then one operation.
template <typename T, bool Prop>
static void drive_long(std::initializer_list<std::size_t> lengths)
{
    using A = Alloc<T, Prop>;
    using V = cetl::VariableLengthArray<T, A>;
    {
        const u64         l = choice("length", lengths.size());
        const std::size_t n = lengths.begin()[l];
        __vx_shard(l);
        Machine<V> m(A(1), A(flag("same_alloc") ? 1 : 2), n + n / 2);
        m.sparse = true;
        const u64 presized = choice("presized", 3);
        if (presized) m.a.reserve(n + (presized - 1));
        m.fill(m.a, m.ma, n);
        m.fill(m.b, m.mb, flag("longer") ? n + 1 : n - 7);
        m.check();
        const int op = static_cast<int>(choice("op", O_count));
        __vx_shard(static_cast<unsigned>(op));
        m.template step<true>(op);
        m.check();
        check_data(m.a, m.ma);
        check_at_rejects(m.a, m.ma);
        log(m.a.size());
        log(m.a.capacity());
    }
    end_checks();
    end_path();
}
VX_HARNESS(vla_long_u8) { drive_long<u8, true>({65, 256}); }
VX_HARNESS(vla_long_u32) { drive_long<u32, false>({31, 129, 255}); }
VX_HARNESS(vla_long_elem) { drive_long<Elem<0>, false>({9, 10, 25}); }

/// Two arrays of every length and content are equal exactly when their elements are.
template <typename T>
static void equality()
{
    using A = Alloc<T, true>;
    using V = cetl::VariableLengthArray<T, A>;
    {
        Machine<V>        m(A(1), A(flag("same_alloc") ? 1 : 2), VX_N + 1);
        const std::size_t n = pick("n", 0, VX_N), k = pick("m", 0, VX_N);
        __vx_shard(n);
        __vx_shard(k);
        if (flag("slack_a")) m.a.reserve(n + 2);
        if (flag("slack_b")) m.b.reserve(k + 1);
        m.fill(m.a, m.ma, n);
        m.fill(m.b, m.mb, k);
        if (flag("shrunk"))
        {
            m.a.push_back(Machine<V>::make(7));
            m.a.pop_back();
        }
        bool eq = n == k;
        for (std::size_t i = 0; eq && i < n; ++i) eq = m.ma.v[i] == m.mb.v[i];
        const V &a = m.a, &b = m.b;
        VX_ASSERT((a == b) == eq && (b == a) == eq, "equality disagrees with the elements");
        VX_ASSERT((a != b) == !eq && (b != a) == !eq, "inequality disagrees with the elements");
        VX_ASSERT(a == a && !(b != b), "an array differs from itself");
        V c(a);
        VX_ASSERT(c == a && !(a != c), "a copy differs from its source");
        check_seq(m.a, m.ma, false);
        check_seq(m.b, m.mb, false);
    }
    end_checks();
    end_path();
}
/// Construction from ranges whose iterators are not pointers to the element type.
template <typename T, typename Src>
static void ranges()
{
    using A = Alloc<T, true>;
    using V = cetl::VariableLengthArray<T, A>;
    {
        Src               src[VX_N + 1];
        const std::size_t lo = pick("lo", 0, VX_N), hi = lo + pick("len", 0, VX_N - lo);
        __vx_shard(lo);
        __vx_shard(hi);
        u8 x[VX_N];
        for (std::size_t i = 0; i < VX_N; ++i) src[i] = widen<Src>(x[i] = sym8("v"));
        const bool limited = flag("limited");
        const Src *first = src + lo, *last = src + hi;
        using R = std::reverse_iterator<const Src*>;
        V a = limited ? V(first, last, hi - lo, A(1)) : V(first, last, A(1));
        V b = limited ? V(R(last), R(first), hi - lo, A(1)) : V(R(last), R(first), A(1));
        VX_ASSERT(a.size() == hi - lo && b.size() == hi - lo, "array size differs from the range");
        for (std::size_t i = 0; i < hi - lo; ++i)
        {
            VX_ASSERT(a[i] == static_cast<T>(src[lo + i]), "element differs from the range");
            VX_ASSERT(b[i] == static_cast<T>(src[hi - 1 - i]), "element differs from the range");
        }
        if (limited) VX_ASSERT(a.max_size() == hi - lo && b.max_size() == hi - lo, "maximum size not honoured by the range constructor");
        for (std::size_t i = 0; i < VX_N; ++i) VX_ASSERT(src[i] == widen<Src>(x[i]), "the range changed");
    }
    end_checks();
    end_path();
}
VX_HARNESS(vla_eq_u8) { equality<u8>(); }
VX_HARNESS(vla_eq_u32) { equality<u32>(); }
VX_HARNESS(vla_eq_elem) { equality<Elem<0>>(); }
VX_HARNESS(vla_range_u8) { ranges<u8, u8>(); }
VX_HARNESS(vla_range_wider) { ranges<u32, u8>(); }
VX_HARNESS(vla_range_narrower) { ranges<u8, u32>(); }
VX_HARNESS(vla_range_elem) { ranges<Elem<0>, u8>(); }
