// Visitation of variants and overload sets (C24).
#include "vxlib.hpp"
#include <cetl/pf17/variant.hpp>
#include <cetl/visit_helpers.hpp>

using namespace vx;
namespace
{
using cetl::pf17::variant;
using cetl::pf17::visit;

struct Fail {};
/// Alternatives: distinct types, each with one byte.
template <int Tag>
struct Alt
{
    u8 v;
    Alt(u8 x) : v(x) {}
    Alt(Fail)
    {
#if VX_EXC
        throw Fail{};
#endif
    }
    Alt(const Alt& o) : v(o.v) {}
    Alt(Alt&& o) : v(o.v) { o.v = 0xEE; }
    Alt& operator=(const Alt&) = default;
    ~Alt() {}
};
struct Seen
{
    const void* p;
    u8          v;
    int         tag;
    int         cat;  // 0 &, 1 const &, 2 &&, 3 const &&
};
struct Log
{
    Seen seen[4];
    int  n     = 0;
    int  calls = 0;
    int  self  = 0;  // how the visitor itself was called
    void clear() { n = calls = self = 0; }
};
Log& log()
{
    static Log l;
    return l;
}
template <int Tag> void note(Alt<Tag>& a) { log().seen[log().n++] = Seen{&a, a.v, Tag, 0}; }
template <int Tag> void note(const Alt<Tag>& a) { log().seen[log().n++] = Seen{&a, a.v, Tag, 1}; }
template <int Tag> void note(Alt<Tag>&& a) { log().seen[log().n++] = Seen{&a, a.v, Tag, 2}; }
template <int Tag> void note(const Alt<Tag>&& a) { log().seen[log().n++] = Seen{&a, a.v, Tag, 3}; }

inline void notes() {}
template <typename H, typename... T>
void notes(H&& h, T&&... t)
{
    note(std::forward<H>(h));
    notes(std::forward<T>(t)...);
}
/// Records what it is called with and how; the result identifies the call.
struct Recorder
{
    u8 result;
    template <typename... T>
    u8 operator()(T&&... t) &
    {
        log().self = 1;
        ++log().calls;
        notes(std::forward<T>(t)...);
        return result;
    }
    template <typename... T>
    u8 operator()(T&&... t) const&
    {
        log().self = 2;
        ++log().calls;
        notes(std::forward<T>(t)...);
        return result;
    }
    template <typename... T>
    u8 operator()(T&&... t) &&
    {
        log().self = 3;
        ++log().calls;
        notes(std::forward<T>(t)...);
        return result;
    }
};
struct State
{
    int         tag   = -1;
    u8          v     = 0;
    const void* p     = nullptr;
    int         cat   = 0;
    bool        empty() const { return tag < 0; }
};
template <typename... Ts>
struct Maker;
template <int... Tags>
struct Maker<Alt<Tags>...>
{
    using V                         = variant<Alt<Tags>...>;
    static constexpr int       N    = sizeof...(Tags);
    template <int I>
    static void put(V& v, State& s, int which, std::integral_constant<int, I>)
    {
        if (which == I)
        {
            constexpr int tags[] = {Tags...};
            s.v                  = sym8("val");
            s.tag                = tags[I];
            s.p                  = &v.template emplace<I>(s.v);
        }
        else
            put(v, s, which, std::integral_constant<int, I + 1>{});
    }
    static void put(V& v, State&, int, std::integral_constant<int, N>)
    {
#if VX_EXC
        try
        {
            v.template emplace<N - 1>(Fail{});
        }
        catch (const Fail&)
        {
        }
        __vx_assume(v.valueless_by_exception());
#endif
    }
    static void any(V& v, State& s, const char* what)
    {
        const u64 w = choice(what, N + (VX_EXC ? 1 : 0));
        __vx_shard(w);
        put(v, s, static_cast<int>(w), std::integral_constant<int, 0>{});
    }
};
/// Runs the visit; true if it was rejected because a variant has no value.
template <typename Fn>
bool rejected(Fn fn)
{
#if VX_EXC
    try
    {
        fn();
        return false;
    }
    catch (const cetl::pf17::bad_variant_access&)
    {
        return true;
    }
#else
    fn();
    return false;
#endif
}
template <typename Fn>
void judge(const State* s, int n, int self, u8 want, Fn fn)
{
    log().clear();
    u8         got  = 0;
    bool       none = false;
    for (int i = 0; i < n; ++i) none = none || s[i].empty();
    const bool rej = rejected([&] { got = fn(); });
    VX_ASSERT(rej == none, "visiting is rejected exactly when a variant has no value");
    VX_ASSERT(log().calls == (none ? 0 : 1), "the visitor was not called exactly once");
    if (none) return;
    VX_ASSERT(got == want, "the result of the visitor was lost");
    VX_ASSERT(log().self == self, "the visitor was called with another value category");
    VX_ASSERT(log().n == n, "the visitor got another number of arguments");
    for (int i = 0; i < n; ++i)
    {
        const Seen& x = log().seen[i];
        VX_ASSERT(x.tag == s[i].tag, "the visitor got another alternative than the active one");
        VX_ASSERT(x.p == s[i].p && x.v == s[i].v, "the visitor got another object than the one held");
        VX_ASSERT(x.cat == s[i].cat, "the visitor got the value with another constness or value category");
    }
}
using M1 = Maker<Alt<10>, Alt<11>, Alt<12>, Alt<13>>;
using M2 = Maker<Alt<20>, Alt<21>, Alt<10>>;
using M3 = Maker<Alt<30>, Alt<31>>;

void run_one()
{
    M1::V     v(cetl::pf17::in_place_index<0>, u8{0});
    State     s[1];
    M1::any(v, s[0], "v");
    const u8       res = sym8("res");
    const M1::V&   c   = v;
    Recorder       r{res};
    const Recorder cr{res};
    s[0].cat = 0;
    judge(s, 1, 1, res, [&] { return visit(r, v); });
    judge(s, 1, 2, res, [&] { return visit(cr, v); });
    judge(s, 1, 3, res, [&] { return visit(Recorder{res}, v); });
    s[0].cat = 1;
    judge(s, 1, 1, res, [&] { return visit(r, c); });
    judge(s, 1, 2, res, [&] { return visit(cr, c); });
    s[0].cat = 2;
    judge(s, 1, 1, res, [&] { return visit(r, std::move(v)); });
    judge(s, 1, 3, res, [&] { return visit(Recorder{res}, std::move(v)); });
    s[0].cat = 3;
    judge(s, 1, 2, res, [&] { return visit(cr, std::move(c)); });
    State none[1];
    judge(none, 0, 1, res, [&] { return visit(r); });
}
void run_two()
{
    M1::V v(cetl::pf17::in_place_index<0>, u8{0});
    M2::V w(cetl::pf17::in_place_index<0>, u8{0});
    State s[2];
    M1::any(v, s[0], "v");
    M2::any(w, s[1], "w");
    const u8     res = sym8("res");
    Recorder     r{res};
    const M1::V& cv = v;
    const M2::V& cw = w;
    judge(s, 2, 1, res, [&] { return visit(r, v, w); });
    s[0].cat = 1;
    judge(s, 2, 1, res, [&] { return visit(r, cv, w); });
    s[1].cat = 2;
    judge(s, 2, 3, res, [&] { return visit(Recorder{res}, cv, std::move(w)); });
    s[0].cat = 2;
    s[1].cat = 1;
    judge(s, 2, 1, res, [&] { return visit(r, std::move(v), cw); });
    State t[2] = {s[1], s[0]};
    t[0].cat   = 0;
    t[1].cat   = 3;
    judge(t, 2, 1, res, [&] { return visit(r, w, std::move(cv)); });
}
void run_same()
{
    // the same variant given twice
    M3::V v(cetl::pf17::in_place_index<0>, u8{0});
    State s[2];
    M3::any(v, s[0], "v");
    __vx_shard(0);
    s[1]         = s[0];
    s[1].cat     = 1;
    const u8 res = sym8("res");
    Recorder r{res};
    const M3::V& c = v;
    judge(s, 2, 1, res, [&] { return visit(r, v, c); });
}
void run_three()
{
    M2::V v(cetl::pf17::in_place_index<0>, u8{0});
    M1::V w(cetl::pf17::in_place_index<0>, u8{0});
    M3::V x(cetl::pf17::in_place_index<0>, u8{0});
    State s[3];
    M2::any(v, s[0], "v");
    M1::any(w, s[1], "w");
    M3::any(x, s[2], "x");
    const u8     res = sym8("res");
    Recorder     r{res};
    const M1::V& cw = w;
    judge(s, 3, 1, res, [&] { return visit(r, v, w, x); });
    s[1].cat = 1;
    s[2].cat = 2;
    judge(s, 3, 3, res, [&] { return visit(Recorder{res}, v, cw, std::move(x)); });
    State t[3] = {s[2], s[0], s[1]};
    t[0].cat   = 0;
    judge(t, 3, 1, res, [&] { return visit(r, x, v, cw); });
}
/// What a visitor does to the value it is given, and what it returns by reference, is the value itself.
void run_effects()
{
    M1::V v(cetl::pf17::in_place_index<0>, u8{0});
    State s;
    M1::any(v, s, "v");
    __vx_shard(0);
    if (s.empty()) return;
    const u8 n = sym8("n");
    visit([n](auto& a) { a.v = n; }, v);
    u8 back = visit([](const auto& a) { return a.v; }, v);
    VX_ASSERT(back == n, "a change made by the visitor was lost");
    auto&& ref = visit([](auto& a) -> u8& { return a.v; }, v);
    VX_ASSERT(&ref == s.p, "a reference returned by the visitor refers to another object");
    const M1::V& c    = v;
    auto&&       cref = visit([](const auto& a) -> const u8& { return a.v; }, c);
    VX_ASSERT(&cref == s.p, "a reference returned by the visitor refers to another object");
    M3::V w(cetl::pf17::in_place_index<1>, n);
    auto&& ref2 = visit([](auto&, auto& b) -> u8& { return b.v; }, v, w);
    VX_ASSERT(&ref2 == &cetl::pf17::get<1>(w).v, "a reference returned by the visitor refers to another object");
    // moving out
    const u8 out = visit([](auto&& a) { auto t = std::move(a); return t.v; }, std::move(v));
    VX_ASSERT(out == n && visit([](const auto& a) { return a.v; }, v) == 0xEE, "moving out of a visited value is wrong");
    // results of different types
    struct Wide
    {
        int  operator()(const Alt<10>& a) const { return a.v; }
        u8   operator()(const Alt<11>& a) const { return a.v; }
        long operator()(const Alt<12>& a) const { return a.v; }
        short operator()(const Alt<13>& a) const { return a.v; }
    };
    visit([n](auto& a) { a.v = n; }, v);
    VX_ASSERT(visit(Wide{}, v) == n, "the result of the visitor was lost");
#if VX_EXC
    bool caught = false;
    try
    {
        visit([](const auto& a) { if (a.v > 7) throw a.v; }, v);
    }
    catch (const u8 e)
    {
        caught = true;
        VX_ASSERT(e == n, "the exception of the visitor was changed");
    }
    VX_ASSERT(caught == (n > 7), "the exception of the visitor was lost");
#endif
}
/// Each argument goes to the callable that accepts it.
void run_overloaded()
{
    M1::V v(cetl::pf17::in_place_index<0>, u8{0});
    State s;
    M1::any(v, s, "v");
    __vx_shard(0);
    if (s.empty()) return;
    const u8 a = sym8("a"), b = sym8("b"), c = sym8("c"), d = sym8("d");
    int      calls = 0;
    {
        const auto     o   = cetl::make_overloaded([a, &calls](const Alt<10>& x) { ++calls; return u8(x.v + a); },
                                           [b, &calls](const Alt<11>& x) { ++calls; return u8(x.v ^ b); },
                                           [c, &calls](const Alt<12>& x) { ++calls; return u8(x.v - c); },
                                           [d, &calls](const Alt<13>& x) { ++calls; return u8(x.v | d); });
        const u8 got = visit(o, v);
        const u8 t[] = {u8(s.v + a), u8(s.v ^ b), u8(s.v - c), u8(s.v | d)};
        VX_ASSERT(got == t[s.tag - 10] && calls == 1, "an argument went to another callable");
        auto     copy = o;
        const u8 got2 = visit(std::move(copy), v);
        VX_ASSERT(got2 == got, "a copy of the overload set behaves differently");
    }
    {
        // a fallback and a more specific callable, in both orders
        const u8 g1 = visit(cetl::make_overloaded([a](const auto&) { return a; }, [b](const Alt<12>& x) { return u8(x.v ^ b); }), v);
        const u8 g2 = visit(cetl::make_overloaded([b](const Alt<12>& x) { return u8(x.v ^ b); }, [a](const auto&) { return a; }), v);
        const u8 w  = s.tag == 12 ? u8(s.v ^ b) : a;
        VX_ASSERT(g1 == w && g2 == w, "an argument went to another callable");
        const u8 g3 = visit(cetl::make_overloaded([c](const auto& x) { return u8(x.v + c); }), v);
        VX_ASSERT(g3 == u8(s.v + c), "an argument went to another callable");
    }
    {
        // state of a callable
        auto o = cetl::make_overloaded([k = u8(0)](const Alt<11>&) mutable { return ++k; }, [k = u8(100)](const auto&) mutable { return ++k; });
        visit(o, v);
        const u8 k = visit(o, v);
        VX_ASSERT(k == (s.tag == 11 ? 2 : 102), "the state of a callable was lost");
    }
    {
        // two arguments
        M3::V w(cetl::pf17::in_place_index<0>, u8{0});
        State z;
        M3::any(w, z, "w");
        if (z.empty()) return;
        const u8 g = visit(cetl::make_overloaded([a](const Alt<10>&, const Alt<30>&) { return a; }, [b](const Alt<11>&, const Alt<31>&) { return b; },
                                                 [c](const auto&, const auto&) { return c; }),
                           v, w);
        const u8 e = s.tag == 10 && z.tag == 30 ? a : s.tag == 11 && z.tag == 31 ? b : c;
        VX_ASSERT(g == e, "an argument went to another callable");
    }
}
}  // namespace
VX_HARNESS(visit_one) { run_one(); __vx_shard(0); end_checks(); end_path(); }
VX_HARNESS(visit_two) { run_two(); end_checks(); end_path(); }
VX_HARNESS(visit_same) { run_same(); end_checks(); end_path(); }
VX_HARNESS(visit_three) { run_three(); end_checks(); end_path(); }
VX_HARNESS(visit_effects) { run_effects(); end_checks(); end_path(); }
VX_HARNESS(visit_overloaded) { run_overloaded(); end_checks(); end_path(); }
