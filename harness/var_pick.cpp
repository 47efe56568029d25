// Variant: which alternative a value of another type becomes (C28).
#include "vxlib.hpp"
#include <cetl/pf17/variant.hpp>

using namespace vx;
namespace
{
using cetl::pf17::in_place_index;
using cetl::pf17::variant;
using cetl::pf17::variant_npos;

// ---------------------------------------------------------------------------------------------- definition of the choice
template <typename...>
struct Void { using type = void; };
/// An alternative is a candidate if `T x[] = {source}` is well formed, which excludes narrowing.
template <typename T>
struct Array1 { T x[1]; };
template <typename F, typename T, typename = void>
struct Candidate : std::false_type {};
template <typename F, typename T>
struct Candidate<F, T, typename Void<decltype(Array1<T>{{std::declval<F>()}})>::type> : std::true_type {};
/// The candidates form a set of overloads taking the alternative by value.
template <std::size_t I, typename F, typename T, bool = Candidate<F, T>::value>
struct Overload { void choose() const; };
template <std::size_t I, typename F, typename T>
struct Overload<I, F, T, true> { std::integral_constant<std::size_t, I> choose(T) const; };
template <std::size_t I, typename F, typename... Ts>
struct Overloads;
template <std::size_t I, typename F, typename T>
struct Overloads<I, F, T> : Overload<I, F, T> { using Overload<I, F, T>::choose; };
template <std::size_t I, typename F, typename T, typename U, typename... Ts>
struct Overloads<I, F, T, U, Ts...> : Overload<I, F, T>, Overloads<I + 1, F, U, Ts...>
{
    using Overload<I, F, T>::choose;
    using Overloads<I + 1, F, U, Ts...>::choose;
};
template <typename F, typename Set, typename = void>
struct Choice : std::integral_constant<std::size_t, variant_npos> {};
template <typename F, typename... Ts>
struct Choice<F, variant<Ts...>, typename Void<decltype(std::declval<Overloads<0, F, Ts...>>().choose(std::declval<F>()))>::type>
    : decltype(std::declval<Overloads<0, F, Ts...>>().choose(std::declval<F>())) {};

// ------------------------------------------------------------------------------------------------- sources, alternatives
enum Plain : int { plain_a, plain_b = 100 };
enum class Scoped : u8 { a, b };
struct Tag { u8 v; };
struct ToInt { int v; operator int() const { return v; } };
struct ToBool { bool v; operator bool() const { return v; } };
struct OfTag { u8 v; OfTag(u8 x, int) : v(x) {} OfTag(const Tag& t) : v(t.v) {} };
struct OfTagToo { u8 v; OfTagToo(u8 x, int) : v(x) {} OfTagToo(const Tag& t) : v(t.v) {} };
struct OfTagMoved { u8 v; OfTagMoved(u8 x, int) : v(x) {} OfTagMoved(Tag&& t) : v(t.v) {} };
struct OfTagExplicit { u8 v; OfTagExplicit(u8 x, int) : v(x) {} explicit OfTagExplicit(const Tag& t) : v(t.v) {} };
struct OfLong { long long v; OfLong(u8 x, int) : v(x) {} OfLong(long long x) : v(x) {} };
struct OfText { const char* v; OfText(u8, int) : v(nullptr) {} OfText(const char* x) : v(x) {} };

template <typename T>
auto same(const T& a, const T& b, int) -> decltype(a.v == b.v) { return a.v == b.v; }
template <typename T>
bool same(const T& a, const T& b, long) { return a == b; }

int         g_int[2];
const char* g_text[2] = {"", "b"};
template <typename T>
struct Make { static T value() { return static_cast<T>(sym64("value")); } };
template <> struct Make<bool> { static bool value() { return symbool("value"); } };
template <> struct Make<Tag> { static Tag value() { return Tag{sym8("value")}; } };
template <> struct Make<ToInt> { static ToInt value() { return ToInt{static_cast<int>(sym32("value"))}; } };
template <> struct Make<ToBool> { static ToBool value() { return ToBool{symbool("value")}; } };
template <> struct Make<int*> { static int* value() { const u64 k = choice("value", 3); return k == 2 ? nullptr : &g_int[k]; } };
template <> struct Make<const char*> { static const char* value() { return g_text[choice("value", 2)]; } };
template <> struct Make<std::nullptr_t> { static std::nullptr_t value() { return nullptr; } };
template <> struct Make<Plain> { static Plain value() { return flag("value") ? plain_a : plain_b; } };
template <> struct Make<Scoped> { static Scoped value() { return flag("value") ? Scoped::a : Scoped::b; } };
template <> struct Make<OfTag> { static OfTag value() { return OfTag(sym8("value"), 0); } };
template <> struct Make<OfLong> { static OfLong value() { return OfLong(static_cast<long long>(sym64("value"))); } };

template <typename T>
auto fill(int) -> decltype(T(u8{}, 0)) { return T(sym8("before"), 0); }
template <typename T>
T fill(long) { return T(); }

template <typename V, std::size_t I = 0, bool = (I < cetl::pf17::variant_size<V>::value)>
struct Start
{
    static void make(V& v, u64 i)
    {
        if (i == I)
            v.template emplace<I>(fill<cetl::pf17::variant_alternative_t<I, V>>(0));
        else
            Start<V, I + 1>::make(v, i);
    }
};
template <typename V, std::size_t I>
struct Start<V, I, false> { static void make(V&, u64) {} };


template <typename V, typename F, bool Both>
struct Convert
{
    template <typename S>
    static void construct(S&) {}
    template <typename S>
    static void assign(V&, S&) {}
};
template <typename V, typename F>
struct Convert<V, F, true>
{
    static constexpr std::size_t I = Choice<F, V>::value;
    using T                        = cetl::pf17::variant_alternative_t<I, V>;
    template <typename S>
    static void check(const V& v, S twin)
    {
        const Array1<T> want{{static_cast<F>(twin)}};
        const T* const  p = cetl::pf17::get_if<I>(&v);
        VX_ASSERT(v.index() == I && p != nullptr, "another alternative was chosen");
        VX_ASSERT(p == nullptr || same(*p, want.x[0], 0), "the alternative has a different value");
    }
    template <typename S>
    static void construct(S& s)
    {
        S twin = s;
        V v(static_cast<F>(s));
        check(v, twin);
    }
    template <typename S>
    static void assign(V& v, S& s)
    {
        S  twin = s;
        V& r    = (v = static_cast<F>(s));
        VX_ASSERT(&r == &v, "assignment does not return the target");
        check(v, twin);
    }
};

template <typename V, typename F, typename S>
void one(S s, bool assign)
{
    constexpr bool expected = Choice<F, V>::value != variant_npos;
    if (assign)
    {
        VX_ASSERT((std::is_assignable<V&, F>::value == expected), "assignment is available although no alternative is the best, or the reverse");
        V v = [] { V t(in_place_index<0>, fill<cetl::pf17::variant_alternative_t<0, V>>(0)); return t; }();
        Start<V>::make(v, choice("before", cetl::pf17::variant_size<V>::value));
        Convert<V, F, expected && std::is_assignable<V&, F>::value>::assign(v, s);
    }
    else
    {
        VX_ASSERT((std::is_constructible<V, F>::value == expected), "construction is available although no alternative is the best, or the reverse");
        VX_ASSERT((std::is_convertible<F, V>::value == expected), "conversion is available although no alternative is the best, or the reverse");
        Convert<V, F, expected && std::is_constructible<V, F>::value>::construct(s);
    }
}
/// A value of type S as a temporary, as a named object and as a constant.
template <typename V, typename S>
void each(bool assign)
{
    S s = Make<S>::value();
    switch (choice("category", 3))
    {
    case 0: one<V, S&&>(s, assign); break;
    case 1: one<V, S&>(s, assign); break;
    case 2: one<V, const S&>(s, assign); break;
    }
}
template <typename V>
void sources(u64, bool) {}
template <typename V, typename S, typename... Ss>
void sources(u64 k, bool assign)
{
    if (k == 0)
        each<V, S>(assign);
    else
        sources<V, Ss...>(k - 1, assign);
}
template <typename... Ss>
struct From
{
    template <typename V>
    static void run(u64 k, bool assign) { sources<V, Ss...>(k, assign); }
    template <typename V, typename... Vs>
    static void lists(u64 l, u64 k, bool assign)
    {
        if (l == 0)
            run<V>(k, assign);
        else
            next<Vs...>(l - 1, k, assign);
    }
    template <typename... Vs>
    static void next(u64 l, u64 k, bool assign, std::enable_if_t<(sizeof...(Vs) > 0)>* = nullptr) { lists<Vs...>(l, k, assign); }
    template <typename... Vs>
    static void next(u64, u64, bool, std::enable_if_t<(sizeof...(Vs) == 0)>* = nullptr) {}
    template <typename... Vs>
    static void all()
    {
        {
            const u64 l = choice("list", sizeof...(Vs)), k = choice("source", sizeof...(Ss));
            __vx_shard(l);
            __vx_shard(k);
            const bool a = flag("assign");
            lists<Vs...>(l, k, a);
        }
        end_checks();
        end_path();
    }
};
using Numbers  = From<bool, char, std::int8_t, u8, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>;
using Others   = From<Plain, Scoped, ToInt, ToBool, int*, const char*, std::nullptr_t, Tag>;
using Objects  = From<Tag, OfTag, OfLong, bool, char, short, int, unsigned, long, const char*, Plain>;
using cetl::pf17::monostate;
}  // namespace
#define LISTS                                                                                                               \
    variant<int>, variant<bool>, variant<bool, long>, variant<long, bool>, variant<float, long>, variant<int, long, unsigned>, \
        variant<long, long>, variant<double, unsigned, unsigned>, variant<float, int, long long>, variant<u8, u16, u32, u64>,  \
        variant<std::int8_t, std::int16_t, std::int32_t, std::int64_t>, variant<char, bool>, variant<monostate, long long>,   \
        variant<std::int64_t, std::int32_t, std::int16_t, std::int8_t>, variant<u64, long long, double, bool>
VX_HARNESS(pick_numbers) { Numbers::all<LISTS>(); }
VX_HARNESS(pick_others)
{
    Others::all<LISTS, variant<int*, bool>, variant<void*, bool>, variant<bool, void*>, variant<void*, int*>, variant<const char*, bool>,
                variant<const void*, const int*>, variant<Plain, int>, variant<int, Plain>, variant<Scoped, u8>, variant<std::nullptr_t, void*>,
                variant<Tag, bool>, variant<ToInt, int>, variant<ToBool, bool, int>>();
}
VX_HARNESS(pick_objects)
{
    Objects::all<variant<OfTag>, variant<OfTag, OfTagExplicit>, variant<OfTagExplicit, OfTag, u8>, variant<OfTag, OfTagToo>, variant<OfTag, Tag>,
                 variant<OfTag, OfTagMoved>, variant<OfTagMoved, OfTag>, variant<OfTagExplicit>, variant<OfLong, bool>, variant<bool, OfLong>,
                 variant<OfLong, int>, variant<OfText, bool>, variant<bool, OfText>, variant<OfText, const char*>, variant<OfLong, OfTag, OfText>>();
}
