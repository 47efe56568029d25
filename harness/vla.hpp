// Shared driver for variable length arrays: applies a symbolic sequence of operations to two arrays and to two reference
// sequences and compares them after every step.
#pragma once
#include "vxlib.hpp"
#include <cetl/variable_length_array.hpp>
#include <initializer_list>

#ifndef VX_SEQ_MAX
#    define VX_SEQ_MAX 48
#endif

namespace vx
{
struct Seq
{
    static constexpr int Max = VX_SEQ_MAX;
    u8                   v[Max];
    std::size_t          n = 0;
    void push(u8 x) { v[n++] = x; }
};

template <typename T>
inline u8 val(const T& t) { return t.get(); }
template <>
inline u8 val<u8>(const u8& t) { return t; }
template <>
inline u8 val<u16>(const u16& t) { return static_cast<u8>(t); }
template <>
inline u8 val<u32>(const u32& t) { return static_cast<u8>(t); }
template <>
inline u8 val<u64>(const u64& t) { return static_cast<u8>(t); }
template <>
inline u8 val<bool>(const bool& t) { return t ? 1 : 0; }

/// The element the model value x stands for. Every byte of an integer depends on x and no two agree, 0 is 0.
template <typename T>
inline T widen(u8 x) { return static_cast<T>(x); }
template <>
inline u16 widen<u16>(u8 x) { return static_cast<u16>(x * 0x0301U); }
template <>
inline u32 widen<u32>(u8 x) { return x * 0x07050301U; }
template <>
inline u64 widen<u64>(u8 x) { return x * 0x0F0D0B0907050301ULL; }
/// The argument emplace_back makes that element of.
template <typename T>
inline std::conditional_t<std::is_integral<T>::value, T, u8> emplace_arg(u8 x) { return widen<std::conditional_t<std::is_integral<T>::value, T, u8>>(x); }

/// Symbolic element value in model form (bool: 0/1).
template <typename T>
inline u8 symv(const char* n) { return sym8(n); }
template <>
inline u8 symv<bool>(const char* n) { return symbool(n) ? 1 : 0; }
/// Reads an element, which may be a proxy object.
template <typename V>
inline u8 rd(const typename V::value_type& t) { return val<typename V::value_type>(t); }

/// Is t the element that the model value x stands for?
template <typename T, std::enable_if_t<std::is_integral<T>::value, int> = 0>
inline bool is(const T& t, u8 x) { return t == widen<T>(x); }
template <typename T, std::enable_if_t<!std::is_integral<T>::value, int> = 0>
inline bool is(const T& t, u8 x) { return val(t) == x; }
template <typename V>
inline bool eq(const typename V::value_type& t, u8 x) { return is<typename V::value_type>(t, x); }

template <typename V>
void check_seq(V& a, const Seq& m, bool deep = true)
{
    const V& c = a;
    VX_ASSERT(c.size() == m.n, "array size differs from the reference sequence");
    VX_ASSERT(c.empty() == (m.n == 0), "empty() disagrees with size");
    VX_ASSERT(c.capacity() >= c.size(), "capacity smaller than size");
    if (c.size() != m.n) return;
    for (std::size_t i = 0; i < m.n; ++i) VX_ASSERT(eq<V>(c[i], m.v[i]), "element differs from the reference sequence");
    if (!deep) return;
    for (std::size_t i = 0; i < m.n; ++i) VX_ASSERT(eq<V>(a[i], m.v[i]), "element (mutable access) differs");
    std::size_t k = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++k) VX_ASSERT(k < m.n && eq<V>(*it, m.v[k]), "const iteration differs");
    VX_ASSERT(k == m.n, "const iteration visits a different number of elements");
    k = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++k) VX_ASSERT(k < m.n && eq<V>(*it, m.v[k]), "iteration differs");
    VX_ASSERT(k == m.n, "iteration visits a different number of elements");
    k = 0;
    for (auto it = a.cbegin(); it != a.cend(); ++it, ++k) {}
    VX_ASSERT(k == m.n, "cbegin/cend iteration visits a different number of elements");
    if (m.n > 0)
    {
        VX_ASSERT(eq<V>(c.front(), m.v[0]) && eq<V>(c.back(), m.v[m.n - 1]), "front/back differ");
        VX_ASSERT(eq<V>(a.front(), m.v[0]) && eq<V>(a.back(), m.v[m.n - 1]), "front/back (mutable) differ");
    }
#if VX_EXC
    for (std::size_t i = 0; i < m.n; ++i) VX_ASSERT(eq<V>(c.at(i), m.v[i]) && eq<V>(a.at(i), m.v[i]), "at() differs");
#endif
}
template <typename V>
void check_data(V& a, const Seq& m)
{
    const V& c = a;
    for (std::size_t i = 0; i < m.n; ++i)
        VX_ASSERT(eq<V>(c.data()[i], m.v[i]) && eq<V>(a.data()[i], m.v[i]), "data() differs");
    if (m.n > 0)
        VX_ASSERT(c.data() == &c[0] && a.data() == &a[0] && &*c.begin() == c.data() && &a.back() == a.data() + (m.n - 1),
                  "element addresses disagree");
}
template <typename V>
void check_at_rejects(V& a, const Seq& m)
{
#if VX_EXC
    const u64 pos = sym64("pos");
    __vx_assume(pos >= m.n);
    bool t1 = false, t2 = false;
    try { (void) rd<V>(a.at(static_cast<std::size_t>(pos))); } catch (const std::out_of_range&) { t1 = true; }
    const V& c = a;
    try { (void) rd<V>(c.at(static_cast<std::size_t>(pos))); } catch (const std::out_of_range&) { t2 = true; }
    VX_ASSERT(t1 && t2, "at() beyond the end was not rejected");
#endif
}

inline void m_resize(Seq& m, std::size_t n, u8 v)
{
    while (m.n < n) m.push(v);
    m.n = n;
}
inline void m_assign(Seq& m, std::size_t n, u8 v)
{
    m.n = 0;
    m_resize(m, n, v);
}

/// All operations that leave the array a sequence; `b`/`mb` is a second array that takes part in copies and moves.
/// Capability flags: Copy = element type is copyable.
enum Op
{
    O_push_c, O_push_m, O_emplace, O_pop, O_resize, O_reserve, O_shrink, O_clear, O_move_assign, O_self_move, O_move_ctor,
    O_move_ctor_alloc, O_write, O_swap, O_emplace0,
    O_copy_ops,  // operations below require a copyable element
    O_copy_assign = O_copy_ops, O_self_copy, O_copy_ctor, O_copy_ctor_alloc, O_resize_v, O_assign, O_iter_ctor, O_push_own, O_resize_own, O_assign_own, O_list_ctor,
    O_count
};

template <typename V>
struct Machine
{
    using T  = typename V::value_type;
    using A  = typename V::allocator_type;
    V    a, b;
    Seq  ma, mb;
    A    alt;
    std::size_t maxn;
    bool        sparse = false;  // counts around the current size only

    std::size_t count(const char* name) const
    {
        if (!sparse) return static_cast<std::size_t>(pick(name, 0, maxn));
        const std::size_t c[] = {0, 1, ma.n - 1, ma.n, ma.n + 1, ma.n + 9, maxn};
        return c[choice(name, 7)];
    }

    std::size_t index(const char* name) const
    {
        if (!sparse) return static_cast<std::size_t>(pick(name, 0, ma.n - 1));
        const std::size_t c[] = {0, ma.n / 2, ma.n - 1};
        return c[choice(name, 3)];
    }

    Machine(const A& x, const A& y, std::size_t n) : a(x), b(y), alt(y), maxn(n) {}
    Machine(std::size_t mx, const A& x, const A& y, std::size_t n) : a(mx, x), b(mx, y), alt(y), maxn(n) {}

    static T make(u8 x) { return widen<T>(x); }
    template <typename W>
    static void fill(W& w, Seq& m, std::size_t n)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            const u8 x = symv<T>("init");
            w.push_back(make(x));
            m.push(x);
        }
    }
    template <typename W = V>
    void copy_op(int op, std::true_type)
    {
        switch (op)
        {
        case O_copy_assign:
            a  = b;
            ma = mb;
            break;
        case O_self_copy:
        {
            V& r = a;
            a    = r;
            break;
        }
        case O_copy_ctor:
        {
            V   c(a);
            Seq mc = ma;
            check_seq(c, mc);
            const u8 x = symv<T>("cx");
            c.push_back(make(x));
            mc.push(x);
            check_seq(a, ma);
            a.clear();
            ma.n = 0;
            check_seq(c, mc);
            b  = c;
            mb = mc;
            break;
        }
        case O_copy_ctor_alloc:
        {
            const V& ca = a;
            V        c(ca, alt);
            VX_ASSERT(c.get_allocator() == alt, "allocator-extended copy does not use the given allocator");
            Seq      mc = ma;
            check_seq(c, mc);
            const u8 x = symv<T>("cx");
            c.push_back(make(x));
            mc.push(x);
            check_seq(c, mc);
            break;
        }
        case O_resize_v:
        {
            const std::size_t n = count("resize");
            const u8          x = symv<T>("v");
            a.resize(n, make(x));
            m_resize(ma, n, x);
            break;
        }
        case O_assign:
        {
            const std::size_t n = count("assign");
            const u8          x = symv<T>("v");
            a.assign(n, make(x));
            m_assign(ma, n, x);
            break;
        }
        case O_push_own:  // the argument is an element of the array itself
        case O_resize_own:
        case O_assign_own:
        {
            if (ma.n == 0) break;
            const std::size_t i = index("own");
            const u8          x = ma.v[i];
            const V&          c = a;
            if (op == O_push_own)
            {
                a.push_back(c[i]);
                ma.push(x);
            }
            else
            {
                const std::size_t n = count("count");
                if (op == O_resize_own) a.resize(n, c[i]), m_resize(ma, n, x);
                else a.assign(n, c[i]), m_assign(ma, n, x);
            }
            break;
        }
        case O_iter_ctor:
        {
            V c(a.begin(), a.end(), alt);
            check_seq(c, ma);
            V d(a.begin(), a.end(), maxn + 1, alt);
            check_seq(d, ma);
            VX_ASSERT(d.max_size() <= maxn + 1, "maximum size not honoured by the range constructor");
            c.pop_back();
            check_seq(a, ma);
            break;
        }
        default:
        {
            const u8 x = symv<T>("l0"), y = symv<T>("l1"), z = symv<T>("l2");
            V        c({make(x), make(y), make(z)}, alt);
            Seq      mc;
            mc.push(x);
            mc.push(y);
            mc.push(z);
            check_seq(c, mc);
            const std::initializer_list<T> l1 = {make(x)};
            V d(l1, std::size_t(5), alt);
            mc.n = 1;
            check_seq(d, mc);
            VX_ASSERT(d.max_size() <= 5, "maximum size not honoured by the list constructor");
            b    = c;
            mc.n = 3;
            mb   = mc;
            break;
        }
        }
    }
    void copy_op(int, std::false_type) {}

    /// A moved-from array is valid but unspecified; it must accept clear() and behave as empty afterwards.
    void moved_from(V& w, Seq& m)
    {
        const std::size_t n = w.size();
        VX_ASSERT(w.empty() == (n == 0), "moved-from array inconsistent");
        for (std::size_t i = 0; i < n; ++i) (void) rd<V>(static_cast<const V&>(w)[i]);
        w.clear();
        m.n = 0;
        check_seq(w, m, false);
    }
    template <bool Copyable>
    void step(int op)
    {
        switch (op)
        {
        case O_push_c:
        case O_push_m:
        {
            const u8 x = symv<T>("v");
            push(x, op == O_push_m, std::integral_constant<bool, Copyable>{});
            ma.push(x);
            break;
        }
        case O_emplace:
        {
            const u8 x = symv<T>("v");
            a.emplace_back(emplace_arg<T>(x));
            ma.push(x);
            break;
        }
        case O_emplace0:
            emplace0(0);
            ma.push(0);
            break;
        case O_pop:
            a.pop_back();
            if (ma.n > 0) --ma.n;
            break;
        case O_resize:
        {
            const std::size_t n = count("resize");
            a.resize(n);
            m_resize(ma, n, 0);
            break;
        }
        case O_reserve:
        {
            const std::size_t n   = count("reserve");
            const std::size_t old = a.capacity();
            a.reserve(n);
            VX_ASSERT(a.capacity() >= n && a.capacity() >= old, "reserve did not provide the capacity");
            break;
        }
        case O_shrink:
            a.shrink_to_fit();
            break;
        case O_clear:
            a.clear();
            ma.n = 0;
            break;
        case O_move_assign:
            a  = std::move(b);
            ma = mb;
            moved_from(b, mb);
            break;
        case O_self_move:
        {
            V& r = a;
            a    = std::move(r);
            VX_ASSERT(a.size() == ma.n, "self move changed the size");
            break;
        }
        case O_move_ctor:
        {
            V c(std::move(a));
            check_seq(c, ma);
            moved_from2(a);
            a.push_back(make(1));
            a = std::move(c);
            moved_from2(c);
            break;
        }
        case O_move_ctor_alloc:
        {
            V c(std::move(a), alt);
            VX_ASSERT(c.get_allocator() == alt, "allocator-extended move does not use the given allocator");
            check_seq(c, ma);
            moved_from2(a);
            a.push_back(make(1));
            const u8 x = symv<T>("v");
            c.push_back(make(x));
            ma.push(x);
            check_seq(c, ma);
            c.pop_back();
            --ma.n;
            a = std::move(c);
            break;
        }
        case O_write:
        {
            if (ma.n == 0) break;
            const std::size_t i = index("widx");
            const u8          x = symv<T>("v");
            write(i, x);
            ma.v[i] = x;
            break;
        }
        case O_swap:
        {
            V t(std::move(a));
            a = std::move(b);
            b = std::move(t);
            const Seq s = ma;
            ma          = mb;
            mb          = s;
            break;
        }
        default: copy_op(op, std::integral_constant<bool, Copyable>{});
        }
    }
    void push(u8 x, bool mv, std::true_type)
    {
        T t = make(x);
        if (mv) a.push_back(std::move(t));
        else
        {
            a.push_back(static_cast<const T&>(t));
            VX_ASSERT(eq<V>(t, x), "push_back modified its argument");
        }
    }
    void push(u8 x, bool, std::false_type) { a.push_back(make(x)); }
    template <typename W = V>
    auto emplace0(int) -> decltype(std::declval<W>().emplace_back()) { a.emplace_back(); }
    void emplace0(long) { a.push_back(make(0)); }
    void moved_from2(V& w)
    {
        Seq e;
        moved_from(w, e);
    }
    void write(std::size_t i, u8 x)
    {
        switch (choice("wkind", 4))
        {
        case 0: a[i] = make(x); break;
        case 1: *(a.begin() + static_cast<std::ptrdiff_t>(i)) = make(x); break;
        case 2:
            if (i == 0) a.front() = make(x);
            else a[i] = make(x);
            break;
        default:
            if (i + 1 == ma.n) a.back() = make(x);
            else a.begin()[static_cast<std::ptrdiff_t>(i)] = make(x);
            break;
        }
    }
    void check()
    {
        check_seq(a, ma);
        check_seq(b, mb, false);
    }
};

/// Allocator factories so that one driver serves every allocator type.
template <typename A>
struct MakeAlloc;
template <typename T, bool P, bool R>
struct MakeAlloc<Alloc<T, P, R>>
{
    static Alloc<T, P, R> make(int id) { return Alloc<T, P, R>(id); }
    static Alloc<T, P, R> limited(int id, std::size_t max) { return Alloc<T, P, R>(id, max); }
};
}  // namespace vx
