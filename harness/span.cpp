// Spans (C27).
#include "vxlib.hpp"
#include <array>
#include <cetl/pf20/span.hpp>

#ifndef VX_N
#    define VX_N 4
#endif
using namespace vx;
namespace
{
using cetl::pf20::dynamic_extent;
using cetl::pf20::span;
using std::size_t;

/// An element of three bytes.
struct E
{
    u8 a, b, c;
};
bool eq(const E& x, const E& y) { return (static_cast<int>(x.a == y.a) & static_cast<int>(x.b == y.b) & static_cast<int>(x.c == y.c)) != 0; }

/// A call that has to be stopped by an assertion of a debug build.
template <typename Fn>
void stopped(Fn fn)
{
    VX_REACH("outside");
#ifdef NDEBUG
    __vx_assume(false);  // undefined there
#endif
    __vx_expect_terminate(1);
    fn();
    __vx_expect_terminate(0);
    VX_ASSERT(false, "a request outside the span was not caught");
}
template <typename S>
void same(const S& s, const E* p, size_t n)
{
    VX_ASSERT(s.data() == p, "the span starts elsewhere");
    VX_ASSERT(s.size() == n && s.empty() == (n == 0), "the span has another size");
    VX_ASSERT(s.size_bytes() == n * sizeof(E), "the span has another size in bytes");
    VX_ASSERT(s.begin() == p && s.end() == p + n, "iterators do not delimit the span");
    size_t k = 0;
    for (auto& e : s)
    {
        VX_ASSERT(k < n && &e == p + k, "iteration visits other elements");
        ++k;
    }
    VX_ASSERT(k == n, "iteration ends early");
    for (auto i = s.rbegin(); i != s.rend(); ++i)
    {
        VX_ASSERT(k > 0 && &*i == p + (k - 1), "backward iteration visits other elements");
        --k;
    }
    VX_ASSERT(k == 0, "backward iteration ends early");
    for (size_t i = 0; i < n; ++i) VX_ASSERT(&s[i] == p + i, "indexing refers to another element");
    if (n > 0) VX_ASSERT(&s.front() == p && &s.back() == p + (n - 1), "front or back refer to another element");
}
template <typename S>
void outside(const S& s, size_t n)
{
    const u64 op = choice("what", 3);
    if (op == 0)
    {
        const size_t i = sym64("i");
        __vx_assume(i >= n);
        stopped([&] { (void) s[i]; });
    }
    if (n == 0)
        stopped([&] {
            if (op == 1)
                (void) s.front();
            else
                (void) s.back();
        });
}
/// Slices with run-time bounds, of a span of either kind.
template <typename S>
void slices(const S& s, E* p, size_t n)
{
    const u64 op = choice("op", 5);
    __vx_shard(op);
    switch (op)
    {
    case 0:
    {
        const size_t k = sym64("k");
        if (k > n) stopped([&] { (void) s.first(k); });
        same(s.first(k), p, k);
        break;
    }
    case 1:
    {
        const size_t k = sym64("k");
        if (k > n) stopped([&] { (void) s.last(k); });
        same(s.last(k), p + (n - k), k);
        break;
    }
    case 2:
    {
        const size_t o = sym64("o");
        if (o > n) stopped([&] { (void) s.subspan(o); });
        same(s.subspan(o), p + o, n - o);
        break;
    }
    case 3:
    {
        const size_t o = sym64("o"), k = sym64("k");
        if (o > n) stopped([&] { (void) s.subspan(o, k); });
        if (k != dynamic_extent && k > n - o) stopped([&] { (void) s.subspan(o, k); });
        same(s.subspan(o, k), p + o, k == dynamic_extent ? n - o : k);
        break;
    }
    case 4: outside(s, n); break;
    }
}
/// Any number of elements in a block of exactly their size.
struct Store
{
    E*     p;
    size_t n;
    E      was[VX_N + 1];
    explicit Store(size_t k) : n(k)
    {
        p = static_cast<E*>(std::malloc(n * sizeof(E) + 1));
        for (size_t i = 0; i < n; ++i)
        {
            p[i].a = sym8("a");
            p[i].b = sym8("b");
            p[i].c = sym8("c");
            was[i] = p[i];
        }
    }
    void check() const
    {
        for (size_t i = 0; i < n; ++i) VX_ASSERT(eq(p[i], was[i]), "an element was changed");
    }
    ~Store() { std::free(p); }
};
void run_dynamic()
{
    const size_t n = static_cast<size_t>(choice("n", VX_N + 1));
    __vx_shard(n);
    Store     st(n);
    E* const  p   = st.p;
    const u64 how = choice("how", 5);
    switch (how)
    {
    case 0:
    {
        const span<E> s(p, n);
        same(s, p, n);
        slices(s, p, n);
        break;
    }
    case 1:
    {
        const span<E> s(p, p + n);
        same(s, p, n);
        const span<const E> c(s);
        same(c, p, n);
        span<const E> d;
        VX_ASSERT(d.data() == nullptr && d.size() == 0 && d.empty() && d.begin() == d.end() && d.rbegin() == d.rend() && d.size_bytes() == 0, "a default span is not empty");
        d = c;
        same(d, p, n);
        d = d.first(n / 2);
        same(d, p, n / 2);
        const span<const E> e(static_cast<const E*>(p), static_cast<const E*>(p) + n);
        same(e, p, n);
        break;
    }
    case 2:
    {
        // the end before the beginning
        const size_t k = static_cast<size_t>(choice("k", VX_N + 1));
        __vx_assume(k < n);
        stopped([&] { const span<E> s(p + n, p + k); (void) s; });
        break;
    }
    case 3:
    {
        if (n == 0) break;
        const span<E> s(p, n);
        const size_t  i = static_cast<size_t>(choice("i", VX_N));
        __vx_assume(i < n);
        const u8 v = sym8("v");
        s[i].b     = v;
        VX_ASSERT(p[i].b == v, "a change through the span was lost");
        st.was[i].b = v;
        break;
    }
    case 4:
    {
        const span<E> s(p, n);
        switch (choice("static", 7))
        {
        case 0:
            if (n < 2) stopped([&] { (void) s.first<2>(); });
            same(s.first<2>(), p, 2);
            break;
        case 1:
            if (n < 3) stopped([&] { (void) s.last<3>(); });
            same(s.last<3>(), p + (n - 3), 3);
            break;
        case 2:
            if (n < 2) stopped([&] { (void) s.subspan<2>(); });
            same(s.subspan<2>(), p + 2, n - 2);
            break;
        case 3:
            if (n < 1) stopped([&] { (void) s.subspan<1, 2>(); });
            if (n < 3) stopped([&] { (void) s.subspan<1, 2>(); });
            same(s.subspan<1, 2>(), p + 1, 2);
            break;
        case 4:
            same(s.first<0>(), p, 0);
            same(s.last<0>(), p + n, 0);
            same(s.subspan<0>(), p, n);
            same(s.subspan<0, 0>(), p, 0);
            break;
        case 5:
            if (n != 3) stopped([&] { const span<E, 3> t(s); (void) t; });
            same(span<E, 3>(s), p, 3);
            same(span<const E, 3>(s), p, 3);
            break;
        case 6:
            if (n != 2) stopped([&] { const span<const E, 2> t(s); (void) t; });
            same(span<const E, 2>(s), p, 2);
            break;
        }
        break;
    }
    }
    st.check();
}
template <size_t N>
void make_static(E* p)
{
    using S = span<E, N>;
    switch (choice("how", 4))
    {
    case 0:
    {
        const size_t k = sym64("count");
        if (k != N) stopped([&] { const S s(p, k); (void) s; });
        same(S(p, k), p, N);
        break;
    }
    case 1:
    {
        const size_t k = static_cast<size_t>(choice("to", VX_N + 1));
        if (k != N) stopped([&] { const S s(p, p + k); (void) s; });
        same(S(p, p + k), p, N);
        break;
    }
    case 2:
    {
        const S s(p, N);
        same(s, p, N);
        slices(s, p, N);
        break;
    }
    case 3:
    {
        const S                 s(p, N);
        const span<const E, N>  c(s);
        const span<E>           d(s);
        const span<const E>     e(s);
        S                       f(p + (VX_N - N), N);
        same(c, p, N);
        same(d, p, N);
        same(e, p, N);
        same(f, p + (VX_N - N), N);
        f = s;
        same(f, p, N);
        static_assert(S::extent == N, "");
        break;
    }
    }
}
void run_static()
{
    Store     st(VX_N);
    E* const  p = st.p;
    const u64 n = choice("n", VX_N + 1);
    __vx_shard(n);
    switch (n)
    {
    case 0:
        make_static<0>(p);
        VX_ASSERT((span<E, 0>().size() == 0 && span<E, 0>().data() == nullptr), "a default span is not empty");
        break;
    case 1: make_static<1>(p); break;
    case 2: make_static<2>(p); break;
    case 3: make_static<3>(p); break;
    case 4: make_static<4>(p); break;
    default: break;
    }
    st.check();
}
/// Slices with compile-time bounds of spans with a static extent: all of them.
template <size_t N, size_t O, size_t C>
struct Slice
{
    static void at(const span<E, N>& s, E* p)
    {
        const auto a = s.template subspan<O, C>();
        static_assert(decltype(a)::extent == C, "the slice has another extent");
        same(a, p + O, C);
        next(s, p, std::integral_constant<bool, (O + C < N)>{});
    }
    static void next(const span<E, N>& s, E* p, std::true_type) { Slice<N, O, C + 1>::at(s, p); }
    static void next(const span<E, N>& s, E* p, std::false_type)
    {
        same(s.template subspan<O>(), p + O, N - O);
        more(s, p, std::integral_constant<bool, (O < N)>{});
    }
    static void more(const span<E, N>& s, E* p, std::true_type) { Slice<N, O + 1, 0>::at(s, p); }
    static void more(const span<E, N>&, E*, std::false_type) {}
};
template <size_t N, size_t C>
struct Ends
{
    static void at(const span<E, N>& s, E* p)
    {
        same(s.template first<C>(), p, C);
        same(s.template last<C>(), p + (N - C), C);
        next(s, p, std::integral_constant<bool, (C < N)>{});
    }
    static void next(const span<E, N>& s, E* p, std::true_type) { Ends<N, C + 1>::at(s, p); }
    static void next(const span<E, N>&, E*, std::false_type) {}
};
template <size_t N>
void static_slices(E* p)
{
    const span<E, N> s(p, N);
    Slice<N, 0, 0>::at(s, p);
    Ends<N, 0>::at(s, p);
}
void run_static_slices()
{
    Store     st(VX_N);
    const u64 n = choice("n", 5);
    __vx_shard(n);
    switch (n)
    {
    case 0: static_slices<0>(st.p); break;
    case 1: static_slices<1>(st.p); break;
    case 2: static_slices<2>(st.p); break;
    case 3: static_slices<3>(st.p); break;
    case 4: static_slices<4>(st.p); break;
    }
    st.check();
}
void run_arrays()
{
    E c[3], one[1];
    for (E& e : c) e = E{sym8("a"), sym8("b"), sym8("c")};
    std::array<E, 3>        a{{c[0], c[1], c[2]}};
    const std::array<E, 3>  k{{c[0], c[1], c[2]}};
    const std::array<const E, 2> l{{c[0], c[1]}};
    __vx_shard(0);
    same(span<E>(c), c, 3);
    same(span<E>(one), one, 1);
    same(span<const E>(a), a.data(), 3);
    same(span<E>(a), a.data(), 3);
    same(span<const E>(k), k.data(), 3);
    same(span<const E>(l), l.data(), 2);
    same(span<E, 3>(c), c, 3);
    same(span<E, 1>(one), one, 1);
    same(span<E, 3>(a), a.data(), 3);
    same(span<const E, 3>(a), a.data(), 3);
    same(span<const E, 3>(k), k.data(), 3);
    same(span<const E, 2>(l), l.data(), 2);
    for (size_t i = 0; i < 3; ++i) VX_ASSERT(eq(span<E>(a)[i], c[i]) && eq(span<const E, 3>(k)[i], c[i]), "an element is wrong");
}
}  // namespace
VX_HARNESS(span_dynamic) { run_dynamic(); __vx_shard(0); end_checks(); end_path(); }
VX_HARNESS(span_static) { run_static(); __vx_shard(0); end_checks(); end_path(); }
VX_HARNESS(span_static_slices) { run_static_slices(); __vx_shard(0); end_checks(); end_path(); }
VX_HARNESS(span_arrays) { run_arrays(); __vx_shard(0); end_checks(); end_path(); }
/// Spans of any length: arithmetic on views, without looking at the elements.
VX_HARNESS(span_any_length)
{
    using W = u32;
    W            p[1] = {};
    const size_t n = sym64("n");
    const u64    op = choice("op", 5);
    __vx_shard(op);
    __vx_shard(0);
    __vx_assume(n >= 1 && n <= (static_cast<size_t>(1) << 58));
    const span<W> s(p, n);
    const auto    is = [&](const span<W>& x, size_t o, size_t k) {
        VX_ASSERT(x.data() == p + o && x.size() == k && x.empty() == (k == 0), "the span views other elements");
        VX_ASSERT(x.size_bytes() == k * sizeof(W), "the span has another size in bytes");
        VX_ASSERT(x.begin() == p + o && x.end() == p + o + k && x.rbegin().base() == x.end() && x.rend().base() == x.begin(), "iterators do not delimit the span");
    };
    is(s, 0, n);
    const size_t o = sym64("o"), k = sym64("k");
    __vx_assume(o <= n && k <= n - o);
    switch (op)
    {
    case 0: is(s.first(k), 0, k); break;
    case 1: is(s.last(k), n - k, k); break;
    case 2: is(s.subspan(o), o, n - o); break;
    case 3: is(s.subspan(o, k), o, k); break;
    default:
        if (o < n) VX_ASSERT(&s[o] == p + o, "indexing refers to another element");
        VX_ASSERT(&s.front() == p && &s.back() == p + (n - 1), "front or back refer to another element");
        is(span<W>(p + o, p + o + k), o, k);
        is(span<W>(s), 0, n);
    }
    end_checks();
    end_path();
}
