// Comparisons of optionals and variants (C25).
#include "vxlib.hpp"
#include <cetl/pf17/optional.hpp>
#include <cetl/pf17/variant.hpp>

using namespace vx;
namespace
{
using cetl::pf17::nullopt;
using cetl::pf17::optional;
using cetl::pf17::variant;

/// Result of comparing two values: the six operators as a set of bits.
enum { EQ = 1, NE = 2, LT = 4, LE = 8, GT = 16, GE = 32 };
constexpr int LESS = NE | LT | LE, EQUAL = EQ | LE | GE, GREATER = NE | GT | GE, UNORDERED = NE;

/// Partially ordered: values from 0xF0 on have no order with anything, themselves included (like a float's NaN).
template <int Tag>
struct P
{
    u8 v;
    bool nan() const { return v >= 0xF0; }
};
template <int A, int B>
int rel(const P<A>& a, const P<B>& b)
{
    if (a.nan() || b.nan()) return UNORDERED;
    return a.v < b.v ? LESS : a.v == b.v ? EQUAL : GREATER;
}
template <int A, int B> bool operator==(const P<A>& a, const P<B>& b) { return (rel(a, b) & EQ) != 0; }
template <int A, int B> bool operator!=(const P<A>& a, const P<B>& b) { return (rel(a, b) & NE) != 0; }
template <int A, int B> bool operator<(const P<A>& a, const P<B>& b) { return (rel(a, b) & LT) != 0; }
template <int A, int B> bool operator<=(const P<A>& a, const P<B>& b) { return (rel(a, b) & LE) != 0; }
template <int A, int B> bool operator>(const P<A>& a, const P<B>& b) { return (rel(a, b) & GT) != 0; }
template <int A, int B> bool operator>=(const P<A>& a, const P<B>& b) { return (rel(a, b) & GE) != 0; }

u8 ordered(const char* name)
{
    const u8 x = sym8(name);
    __vx_assume(x < 0xF0);
    return x;
}
int rel(u8 a, u8 b) { return a < b ? LESS : a == b ? EQUAL : GREATER; }
int rel(std::int16_t a, std::int16_t b) { return a < b ? LESS : a == b ? EQUAL : GREATER; }
int flip(int r) { return r == LESS ? GREATER : r == GREATER ? LESS : r; }

template <typename A, typename B>
void judge(const A& a, const B& b, int want)
{
    VX_ASSERT((a == b) == ((want & EQ) != 0), "== is wrong");
    VX_ASSERT((a != b) == ((want & NE) != 0), "!= is wrong");
    VX_ASSERT((a < b) == ((want & LT) != 0), "< is wrong");
    VX_ASSERT((a <= b) == ((want & LE) != 0), "<= is wrong");
    VX_ASSERT((a > b) == ((want & GT) != 0), "> is wrong");
    VX_ASSERT((a >= b) == ((want & GE) != 0), ">= is wrong");
}
template <typename A, typename B>
void both(const A& a, const B& b, int want)
{
    judge(a, b, want);
    judge(b, a, flip(want));
}
template <typename T, typename U>
void optionals(const T t, const U u)
{
    optional<T> a;
    optional<U> b;
    const bool  ha = flag("a"), hb = flag("b");
    __vx_shard(ha);
    __vx_shard(hb);
    if (ha) a.emplace(t);
    if (hb) b.emplace(u);
    const int want = ha && hb ? rel(t, u) : ha ? GREATER : hb ? LESS : EQUAL;
    both(a, b, want);
    both(a, u, ha ? rel(t, u) : LESS);
    both(t, b, hb ? rel(t, u) : GREATER);
    both(a, nullopt, ha ? GREATER : EQUAL);
    both(b, nullopt, hb ? GREATER : EQUAL);
    judge(a, a, ha ? rel(t, t) : EQUAL);
    const optional<T> c = a;
    both(a, c, ha ? rel(t, t) : EQUAL);
}
struct Fail {};
template <int Tag>
struct Bomb : P<Tag>
{
    Bomb(u8 x) : P<Tag>{x} {}
    Bomb(Fail) : P<Tag>{0}
    {
#if VX_EXC
        throw Fail{};
#endif
    }
};
using V = variant<P<0>, u8, P<0>, Bomb<1>>;
struct State
{
    u64 ix;
    u8  v;
};
State any(V& v, const char* what)
{
    State s{choice(what, VX_EXC ? 5 : 4), ordered("val")};
    __vx_shard(s.ix);
    switch (s.ix)
    {
    case 0: v.emplace<0>(P<0>{s.v}); break;
    case 1: v.emplace<1>(s.v); break;
    case 2: v.emplace<2>(P<0>{s.v}); break;
    case 3: v.emplace<3>(s.v); break;
    case 4:
#if VX_EXC
        try
        {
            v.emplace<3>(Fail{});
        }
        catch (const Fail&)
        {
        }
        __vx_assume(v.valueless_by_exception());
#endif
        break;
    }
    return s;
}
int rel(const State& s, const State& t)
{
    if (s.ix == 4 || t.ix == 4) return s.ix == t.ix ? EQUAL : s.ix == 4 ? LESS : GREATER;
    if (s.ix != t.ix) return s.ix < t.ix ? LESS : GREATER;
    return s.ix == 1 ? rel(s.v, t.v) : rel(P<0>{s.v}, P<0>{t.v});
}
void variants()
{
    V           a(cetl::pf17::in_place_index<0>, P<0>{1}), b(cetl::pf17::in_place_index<0>, P<0>{1});
    const State s = any(a, "a"), t = any(b, "b");
    both(a, b, rel(s, t));
    judge(a, a, rel(s, s));
    using cetl::pf17::monostate;
    judge(monostate{}, monostate{}, EQUAL);
    using W = variant<monostate, std::int16_t>;
    W          c, d;
    const u8   x = s.v, y = t.v;
    const bool hc = flag("c"), hd = flag("d");
    if (hc) c.emplace<1>(std::int16_t(x * 3 - 200));
    if (hd) d.emplace<1>(std::int16_t(y * 3 - 200));
    both(c, d, hc && hd ? rel(x, y) : hc ? GREATER : hd ? LESS : EQUAL);
}
}  // namespace
VX_HARNESS(cmp_opt_u8) { const u8 a = sym8("x"), b = sym8("y"); optionals(a, b); end_checks(); end_path(); }
VX_HARNESS(cmp_opt_type)
{
    const u8 a = sym8("x"), b = sym8("y");
    optionals(P<0>{a}, P<0>{b});
    end_checks();
    end_path();
}
VX_HARNESS(cmp_opt_cross)
{
    const u8 a = sym8("x"), b = sym8("y");
    optionals(P<0>{a}, P<1>{b});
    end_checks();
    end_path();
}
VX_HARNESS(cmp_opt_i16)
{
    const std::int16_t a = static_cast<std::int16_t>(vx::sym16("x")), b = static_cast<std::int16_t>(vx::sym16("y"));
    optionals(a, b);
    end_checks();
    end_path();
}
VX_HARNESS(cmp_var)
{
    variants();
    end_checks();
    end_path();
}
/// The operators that do not claim an order for unordered contents.
template <typename A, typename B>
void apart(const A& a, const B& b)
{
    VX_ASSERT(!(a == b) && !(b == a), "== is wrong for unordered contents");
    VX_ASSERT(a != b && b != a, "!= is wrong for unordered contents");
    VX_ASSERT(!(a < b) && !(b < a), "< is wrong for unordered contents");
    VX_ASSERT(!(a > b) && !(b > a), "> is wrong for unordered contents");
}
VX_HARNESS(cmp_unordered)
{
    const u8 a = sym8("x"), b = sym8("y");
    __vx_assume(a >= 0xF0 || b >= 0xF0);
    const optional<P<0>> x(P<0>{a});
    const optional<P<1>> y(P<1>{b});
    apart(x, y);
    apart(x, P<1>{b});
    apart(P<0>{a}, y);
    const V v(cetl::pf17::in_place_index<2>, P<0>{a}), w(cetl::pf17::in_place_index<2>, P<0>{b});
    apart(v, w);
    end_checks();
    end_path();
}
// Variants of which at least one has no order with the other: a known failure of <= and >= (see known_findings.txt).
VX_HARNESS(cmp_var_unordered)
{
    const u8 a = sym8("x"), b = sym8("y");
    __vx_assume(a >= 0xF0 || b >= 0xF0);
    V x(cetl::pf17::in_place_index<0>, P<0>{a}), y(cetl::pf17::in_place_index<0>, P<0>{b});
    judge(x, y, UNORDERED);
    end_checks();
    end_path();
}
