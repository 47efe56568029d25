// String views (C26).
#include "vxlib.hpp"
#include <cetl/pf17/string_view.hpp>

#ifndef VX_N
#    define VX_N 4
#endif
#ifndef VX_M
#    define VX_M 2
#endif
using namespace vx;
namespace
{
using std::size_t;
constexpr size_t NPOS = static_cast<size_t>(-1);

template <typename C>
struct Sym;
template <>
struct Sym<char>
{
    using key = unsigned char;
    static char any(const char* n) { return static_cast<char>(sym8(n)); }
};
template <>
struct Sym<char16_t>
{
    using key = char16_t;
    static char16_t any(const char* n) { return static_cast<char16_t>(sym16(n)); }
};
/// A text of any length up to the bound in a block of exactly its size.
template <typename C>
struct Text
{
    C*     p = nullptr;
    size_t n = 0;
    Text(const char* what, size_t max)
    {
        n = static_cast<size_t>(choice(what, max + 1));
        __vx_shard(n);
        p = static_cast<C*>(std::malloc(n * sizeof(C) + (n == 0)));
        if (n == 0) p = p + 1;  // nothing may be read
        for (size_t i = 0; i < n; ++i) p[i] = Sym<C>::any("c");
    }
    ~Text() { std::free(n == 0 ? static_cast<void*>(p - 1) : p); }
    cetl::pf17::basic_string_view<C> view() const { return {p, n}; }
};
template <>
Text<char16_t>::Text(const char* what, size_t max)
{
    n = static_cast<size_t>(choice(what, max + 1));
    __vx_shard(n);
    p = static_cast<char16_t*>(std::malloc(n * 2 + (n == 0 ? 2 : 0)));
    if (n == 0) p = p + 1;
    for (size_t i = 0; i < n; ++i) p[i] = Sym<char16_t>::any("c");
}
template <typename Fn>
bool out_of_range(Fn fn)
{
#if VX_EXC
    try
    {
        fn();
        return false;
    }
    catch (const std::out_of_range&)
    {
        return true;
    }
#else
    return ends_program(fn);
#endif
}
template <typename C>
void same(const cetl::pf17::basic_string_view<C> v, const C* p, size_t n)
{
    VX_ASSERT(v.size() == n && v.length() == n && v.empty() == (n == 0), "the view has another size");
    VX_ASSERT(v.data() == p, "the view starts elsewhere");
    VX_ASSERT(v.begin() == p && v.end() == p + n && v.cbegin() == p && v.cend() == p + n, "iterators do not delimit the view");
}
// ------------------------------------------------------------------------------------------------------------ elements
template <typename C>
void elements()
{
    using V = cetl::pf17::basic_string_view<C>;
    Text<C> t("n", VX_N);
    V       v(t.p, t.n);
    same(v, t.p, t.n);
    const u64 op = choice("op", 7);
    __vx_shard(op);
    switch (op)
    {
    case 0:
    {
        const size_t i = sym64("i");
        if (i < t.n)
        {
            VX_ASSERT(&v.at(i) == &t.p[i] && &v[i] == &t.p[i], "access refers to another character");
            VX_ASSERT(v[i] == t.p[i], "character is wrong");
        }
        else
            VX_ASSERT(out_of_range([&] { (void) v.at(i); }), "access beyond the end was not reported");
        break;
    }
    case 1:
    {
        if (t.n == 0) break;
        VX_ASSERT(&v.front() == t.p && &v.back() == t.p + (t.n - 1), "front or back refer to another character");
        break;
    }
    case 2:
    {
        const size_t k = sym64("k");
        __vx_assume(k <= t.n);
        if (flag("suffix"))
        {
            v.remove_suffix(k);
            same(v, static_cast<const C*>(t.p), t.n - k);
        }
        else
        {
            v.remove_prefix(k);
            same(v, static_cast<const C*>(t.p + k), t.n - k);
        }
        break;
    }
    case 3:
    {
        C c[2] = {};
        V w(c, 2);
        if (flag("free"))
            cetl::pf17::swap(v, w);
        else
            v.swap(w);
        same(v, static_cast<const C*>(c), 2);
        same(w, static_cast<const C*>(t.p), t.n);
        V x;
        VX_ASSERT(x.data() == nullptr && x.size() == 0 && x.empty(), "a default view is not empty");
        x.swap(w);
        same(x, static_cast<const C*>(t.p), t.n);
        VX_ASSERT(w.data() == nullptr && w.size() == 0, "swap lost an empty view");
        break;
    }
    case 4:
    {
        V w(v);
        V x;
        x = v;
        same(w, static_cast<const C*>(t.p), t.n);
        same(x, static_cast<const C*>(t.p), t.n);
        break;
    }
    case 5:
    {
        // a string that ends at its first zero
        if (t.n == 0) break;
        t.p[t.n - 1] = 0;
        size_t len   = 0;
        while (t.p[len] != 0) ++len;
        const C* const s = t.p;
        const V        w(s);
        same(w, s, len);
        break;
    }
    case 6:
    {
        size_t k = 0;
        for (const C& c : v)
        {
            VX_ASSERT(k < t.n && &c == &t.p[k], "iteration visits other characters");
            ++k;
        }
        VX_ASSERT(k == t.n, "iteration ends early");
        break;
    }
    }
    end_checks();
}
// ----------------------------------------------------------------------------------------------------------- slicing
template <typename C>
void slices()
{
    using V = cetl::pf17::basic_string_view<C>;
    Text<C>      t("n", VX_N);
    const V      v   = t.view();
    const size_t pos = sym64("pos");
    const u64    op  = choice("op", 3);
    __vx_shard(op);
    if (pos > t.n)
    {
        VX_REACH("beyond");
        const size_t count = sym64("count");
        VX_ASSERT(out_of_range([&] { (void) v.substr(pos, count); }), "a slice that starts beyond the end was not reported");
        VX_ASSERT(out_of_range([&] { C c[1]; (void) v.copy(c, count, pos); }), "a copy that starts beyond the end was not reported");
        end_checks();
        return;
    }
    const size_t count = op == 1 ? NPOS : sym64("count");
    const size_t rest  = t.n - pos;
    const size_t want  = count < rest ? count : rest;
    switch (op)
    {
    case 0: same(v.substr(pos, count), static_cast<const C*>(t.p + pos), want); break;
    case 1:
        same(v.substr(pos), static_cast<const C*>(t.p + pos), want);
        same(v.substr(), static_cast<const C*>(t.p), t.n);
        break;
    case 2:
    {
        C         dst[VX_N + 2];
        const C   mark = Sym<C>::any("mark");
        for (C& c : dst) c = mark;
        const size_t got = pos == 0 && flag("default") ? v.copy(dst + 1, count) : v.copy(dst + 1, count, pos);
        VX_ASSERT(got == want, "another number of characters was copied");
        for (size_t i = 0; i < want; ++i) VX_ASSERT(dst[1 + i] == t.p[pos + i], "another character was copied");
        VX_ASSERT(dst[0] == mark, "copy wrote before its destination");
        for (size_t i = want + 1; i < VX_N + 2; ++i) VX_ASSERT(dst[i] == mark, "copy wrote too much");
        break;
    }
    }
    end_checks();
}
// ----------------------------------------------------------------------------------------------------------- searching
template <typename C>
void find_char()
{
    Text<C>      t("n", VX_N);
    const auto   v   = t.view();
    const C      c   = Sym<C>::any("needle");
    const size_t pos = sym64("pos");
    __vx_shard(0);
    size_t want = NPOS;
    for (size_t i = t.n; i-- > 0;)
        if ((static_cast<int>(t.p[i] == c) & static_cast<int>(i >= pos)) != 0) want = i;
    VX_ASSERT(v.find(c, pos) == want, "search for a character is wrong");
    if (pos == 0) VX_ASSERT(v.find(c) == want, "search for a character is wrong");
    end_checks();
}
template <typename C>
void find_text()
{
    Text<C>      t("n", VX_N);
    Text<C>      s("m", VX_M);
    const auto   v   = t.view();
    const size_t pos = sym64("pos");
    size_t       want = NPOS;
    if (s.n <= t.n)
        for (size_t i = t.n - s.n + 1; i-- > 0;)
        {
            int ok = static_cast<int>(i >= pos);
            for (size_t k = 0; k < s.n; ++k) ok &= static_cast<int>(t.p[i + k] == s.p[k]);
            if (ok != 0) want = i;
        }
    VX_ASSERT(v.find(s.view(), pos) == want, "search for a text is wrong");
    if (pos == 0) VX_ASSERT(v.find(s.view()) == want, "search for a text is wrong");
    if (s.n == 0) VX_ASSERT(v.find(cetl::pf17::basic_string_view<C>{}, pos) == want, "search for an empty text is wrong");
    end_checks();
}
// ---------------------------------------------------------------------------------------------------------- comparison
template <typename C>
void compare()
{
    using K = typename Sym<C>::key;
    Text<C>    t("n", VX_N);
    Text<C>    s("m", VX_N);
    const auto a = t.view(), b = s.view();
    int        want = t.n < s.n ? -1 : t.n > s.n ? 1 : 0;
    for (size_t i = t.n < s.n ? t.n : s.n; i-- > 0;)
    {
        const K x = static_cast<K>(t.p[i]), y = static_cast<K>(s.p[i]);
        want = x < y ? -1 : x > y ? 1 : want;
    }
    const int got = a.compare(b);
    VX_ASSERT((got < 0) == (want < 0) && (got > 0) == (want > 0), "compare is wrong");
    VX_ASSERT((a == b) == (want == 0), "== is wrong");
    VX_ASSERT((a != b) == (want != 0), "!= is wrong");
    VX_ASSERT((a < b) == (want < 0), "< is wrong");
    VX_ASSERT((a <= b) == (want <= 0), "<= is wrong");
    VX_ASSERT((a > b) == (want > 0), "> is wrong");
    VX_ASSERT((a >= b) == (want >= 0), ">= is wrong");
    const cetl::pf17::basic_string_view<C> none;
    VX_ASSERT((none == a) == (t.n == 0) && (a > none) == (t.n > 0) && none.compare(none) == 0, "comparison with an empty view is wrong");
    end_checks();
}
// Views of overlapping parts of one text.
template <typename C>
void overlap()
{
    using V = cetl::pf17::basic_string_view<C>;
    Text<C>      t("n", VX_N);
    const V      v    = t.view();
    const size_t from = static_cast<size_t>(choice("from", VX_N + 1));
    __vx_shard(from);
    __vx_assume(from <= t.n);
    const V w = v.substr(from);
    size_t  want = NPOS;
    for (size_t i = from + 1; i-- > 0;)
    {
        int ok = 1;
        for (size_t k = 0; k < w.size(); ++k) ok &= static_cast<int>(t.p[i + k] == t.p[from + k]);
        if (ok != 0) want = i;
    }
    VX_ASSERT(v.find(w) == want, "search for a part of the text is wrong");
    VX_ASSERT(v.find(w, from) == from, "a part of the text is not found where it is");
    VX_ASSERT((v == w) == (from == 0), "comparison with a part of the text is wrong");
    end_checks();
}
/// Views of any length: operations that need not look at more than a few characters.
template <typename C>
void any_length()
{
    using V = cetl::pf17::basic_string_view<C>;
    using K = typename Sym<C>::key;
    C p[4];
    for (auto& c : p) c = Sym<C>::any("c");
    const size_t n = sym64("n"), m = static_cast<size_t>(choice("m", 4));
    const u64    op = choice("op", 5);
    __vx_shard(m);
    __vx_shard(op);
    __vx_assume(n >= 4 && n <= (static_cast<size_t>(1) << 60));
    const V v(p, n);
    VX_ASSERT(v.size() == n && v.length() == n && !v.empty() && v.data() == p, "the view has another size");
    VX_ASSERT(v.begin() == p && static_cast<size_t>(v.end() - v.begin()) == n, "iterators do not delimit the view");
    switch (op)
    {
    case 0:
    {
        const size_t o = sym64("pos"), k = sym64("count");
        __vx_assume(o <= n);
        const V w = v.substr(o, k);
        VX_ASSERT(w.data() == p + o && w.size() == (k < n - o ? k : n - o), "substr views other characters");
        break;
    }
    case 1:
    {
        const size_t k = sym64("count");
        __vx_assume(k <= n);
        V w = v, u = v;
        w.remove_prefix(k);
        u.remove_suffix(k);
        VX_ASSERT(w.data() == p + k && w.size() == n - k, "remove_prefix leaves other characters");
        VX_ASSERT(u.data() == p && u.size() == n - k, "remove_suffix leaves other characters");
        break;
    }
    case 2:
    {
        C q[4];
        for (auto& c : q) c = Sym<C>::any("d");
        const V w(q, m);
        int     want = 1;
        for (size_t i = m; i-- > 0;)
        {
            const K x = static_cast<K>(p[i]), y = static_cast<K>(q[i]);
            want = x < y ? -1 : x > y ? 1 : want;
        }
        const int a = v.compare(w), b = w.compare(v);
        VX_ASSERT((a < 0) == (want < 0) && a != 0 && (b < 0) == (want > 0) && b != 0, "compare is wrong");
        VX_ASSERT(!(v == w) && v != w && (v < w) == (want < 0) && (v > w) == (want > 0) && (v <= w) == (want < 0) && (v >= w) == (want > 0), "comparison is wrong");
        break;
    }
    case 3:
    {
        C to[4] = {};
        VX_ASSERT(v.copy(to, m) == m, "copy reports another count");
        for (size_t i = 0; i < 4; ++i) VX_ASSERT(to[i] == (i < m ? p[i] : C()), "copy wrote other characters");
        break;
    }
    default:
    {
        V w(p + 1, m), u = v;
        u.swap(w);
        VX_ASSERT(w.data() == p && w.size() == n && u.data() == p + 1 && u.size() == m, "swap mixed the views up");
        swap(u, w);
        VX_ASSERT(u.data() == p && u.size() == n && w.data() == p + 1 && w.size() == m, "swap mixed the views up");
    }
    }
    end_checks();
}
/// Long texts: one character repeated, with a few arbitrary ones among them.
template <typename C>
void long_text()
{
    using V = cetl::pf17::basic_string_view<C>;
    using K = typename Sym<C>::key;
    constexpr size_t N = 66000;
    static C         p[N], q[N];
    const size_t     lengths[] = {257, 1030, N};
    const u64        l = choice("length", 3), op = choice("op", 4);
    const size_t     n = lengths[op == 2 && l == 2 ? 1 : l];
    __vx_shard(l);
    __vx_shard(op);
    const C fill = C('a');
    for (size_t i = 0; i < n; ++i) p[i] = q[i] = fill;
    const size_t at = n - 2;
    p[at] = Sym<C>::any("c");
    p[0]  = Sym<C>::any("first");
    q[0]  = p[0];
    q[at] = Sym<C>::any("d");
    const V v(p, n), w(q, n);
    VX_ASSERT(v.size() == n && v[n - 1] == fill && v.back() == fill && v.at(at) == p[at], "the view has other characters");
    switch (op)
    {
    case 0:
    {
        const K   x = static_cast<K>(p[at]), y = static_cast<K>(q[at]);
        const int a = v.compare(w);
        VX_ASSERT((a < 0) == (x < y) && (a > 0) == (x > y), "compare of long texts is wrong");
        VX_ASSERT((v == w) == (x == y) && (v != w) == (x != y) && (v < w) == (x < y), "comparison of long texts is wrong");
        const V u = w.substr(0, n - 1);
        VX_ASSERT((v == u) == false && (u.compare(v) < 0) == (y <= x), "compare of long texts of different length is wrong");
        break;
    }
    case 1:
    {
        const C      c    = Sym<C>::any("needle");
        const size_t want = c == p[0] ? 0 : c == fill ? 1 : c == p[at] ? at : V::npos;
        VX_ASSERT(v.find(c) == want, "search in a long text is wrong");
        VX_ASSERT(v.find(c, at) == (c == p[at] ? at : c == fill ? at + 1 : V::npos), "search in a long text is wrong");
        break;
    }
    case 2:
    {
        const C needle[2] = {Sym<C>::any("needle"), fill};
        const C x         = needle[0];
        const size_t want = x == p[0] ? 0 : x == fill ? 1 : x == p[at] ? at : V::npos;
        VX_ASSERT(v.find(V(needle, 2)) == want, "search in a long text is wrong");
        VX_ASSERT(v.find(w.substr(0, n)) == (p[at] == q[at] ? 0 : V::npos), "search of a long text is wrong");
        break;
    }
    default:
    {
        static C     to[N + 1];
        const size_t k = v.copy(to, N + 1, 0);
        VX_ASSERT(k == n && to[0] == p[0] && to[at] == p[at] && to[n - 1] == fill && to[n] == C(), "copy of a long text is wrong");
        const V u = v.substr(at, n);
        VX_ASSERT(u.size() == 2 && u.data() == p + at, "substr of a long text is wrong");
        p[n - 1] = C();
        p[at]    = p[at] == C() ? fill : p[at];
        p[0]     = p[0] == C() ? fill : p[0];
        VX_ASSERT(V(p).size() == n - 1, "view of a long terminated text has the wrong length");
        break;
    }
    }
    end_checks();
}
}  // namespace
VX_HARNESS(sv_long_text) { long_text<char>(); end_path(); }
VX_HARNESS(sv_any_length) { any_length<char>(); end_path(); }
VX_HARNESS(sv_any_length_16) { any_length<char16_t>(); end_path(); }
VX_HARNESS(sv_elements) { elements<char>(); end_path(); }
VX_HARNESS(sv_elements_16) { elements<char16_t>(); end_path(); }
VX_HARNESS(sv_slices) { slices<char>(); end_path(); }
VX_HARNESS(sv_slices_16) { slices<char16_t>(); end_path(); }
VX_HARNESS(sv_find_char) { find_char<char>(); end_path(); }
VX_HARNESS(sv_find_char_16) { find_char<char16_t>(); end_path(); }
VX_HARNESS(sv_find_text) { find_text<char>(); end_path(); }
VX_HARNESS(sv_find_text_16) { find_text<char16_t>(); end_path(); }
VX_HARNESS(sv_compare) { compare<char>(); end_path(); }
VX_HARNESS(sv_compare_16) { compare<char16_t>(); end_path(); }
VX_HARNESS(sv_overlap) { overlap<char>(); end_path(); }
