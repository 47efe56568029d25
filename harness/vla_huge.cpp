// Arrays of thousands of elements (C01, C03, C07): one operation, contents judged at a few positions.
#include "vxlib.hpp"
#include <cetl/variable_length_array.hpp>

namespace vx
{
template <typename T>
static T any()
{
    return sizeof(T) == 1 ? static_cast<T>(sym8("v")) : static_cast<T>(sym32("v"));
}
template <>
bool any<bool>()
{
    return symbool("v");
}

/// Expected contents: x up to `split`, y from there on, with one marked element.
template <typename T>
struct Expect
{
    std::size_t size, split, at;
    T           x, y, z;
    T           value(std::size_t i) const { return i == at ? z : i < split ? x : y; }
};
template <typename V, typename T>
static void judge(const V& v, const Expect<T>& e)
{
    VX_ASSERT(v.size() == e.size, "long array has the wrong length");
    VX_ASSERT(v.empty() == (e.size == 0) && v.capacity() >= v.size(), "long array has the wrong capacity");
    if (v.size() != e.size) return;
    const std::size_t n     = e.size;
    const std::size_t pos[] = {0, 1, n / 2, n - 2, n - 1, e.at, e.at - 1, e.at + 1, e.split - 1, e.split, n & 0xFFFF, n & 0xFF, (n & 0xFFFF) - 1, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536};
    for (const std::size_t i : pos)
        if (i < n) VX_ASSERT(v[i] == e.value(i), "long array holds the wrong element");
    if (n > 0) VX_ASSERT(v.front() == e.value(0) && v.back() == e.value(n - 1), "front or back of a long array is wrong");
    VX_ASSERT(static_cast<std::size_t>(v.end() - v.begin()) == n, "iterators of a long array span the wrong length");
}

template <typename T, bool Prop>
static void huge(std::initializer_list<std::size_t> lengths)
{
    {
        using B = std::conditional_t<std::is_same<T, bool>::value, unsigned char, T>;
        using A = Alloc<B, Prop>;
        using V = cetl::VariableLengthArray<T, A>;
        const u64         l = choice("length", lengths.size());
        const std::size_t n = lengths.begin()[l], d = 700;
        __vx_shard(l);
        const T   x = any<T>(), y = any<T>(), z = any<T>();
        A         other(flag("same_alloc") ? 1 : 2);
        const u64 op = choice("op", 12);
        __vx_shard(op);
        V         v{A(1)};
        Expect<T> e{n, n, n - 3, x, y, z};
        if (flag("reserved")) v.reserve(n);
        v.resize(n, x);
        v[e.at] = z;
        judge(v, e);
        switch (op)
        {
        case 0: v.push_back(y), e.size = n + 1; break;
        case 1: v.resize(n + d, y), e.size = n + d; break;
        case 2: v.resize(n - d, y), e.size = n - d; break;
        case 3:
        {
            V w(v);
            judge(w, e);
            V u(v, other);
            judge(u, e);
            VX_ASSERT(w == v && u == v, "copies of a long array differ from it");
            w[n - 2] = static_cast<T>(!w[n - 2]);
            VX_ASSERT(!(w == v), "long arrays that differ in one element compare equal");
            break;
        }
        case 4:
        {
            V w(std::move(v));
            judge(w, e);
            v = std::move(w);
            break;
        }
        case 5:
        {
            V w{other};
            w.resize(d, y);
            w = v;
            judge(w, e);
            v.resize(3);
            v = w;
            break;
        }
        case 6:
        {
            V w{other};
            w.resize(n + d, y);
            w = std::move(v);
            judge(w, e);
            v = V{A(1)};
            v = std::move(w);
            break;
        }
        case 7:
            v.pop_back();
            v.pop_back();
            v.shrink_to_fit();
            e.size = n - 2;
            break;
        case 8: v.assign(n + d, y), e.size = n + d, e.split = 0, e.at = ~std::size_t(0) / 2; break;
        case 9: v.assign(n - d, y), e.size = n - d, e.split = 0, e.at = ~std::size_t(0) / 2; break;
        case 10:
        {
            V w(v.begin(), v.end(), other);
            judge(w, e);
            break;
        }
        default:
            v.clear();
            VX_ASSERT(v.empty() && v.size() == 0, "cleared array is not empty");
            v.resize(n + 1, y);
            e.size = n + 1, e.split = 0, e.at = ~std::size_t(0) / 2;
            break;
        }
        judge(v, e);
        log(v.size());
        log(v.capacity());
    }
    end_checks();
    end_path();
}
VX_HARNESS(huge_u8) { huge<u8, true>({1030, 66000}); }
VX_HARNESS(huge_u16) { huge<u16, false>({4099, 33000}); }
#ifndef VX_BITS
#    define VX_BITS 4103
#endif
VX_HARNESS(huge_bool) { huge<bool, false>({1025, VX_BITS}); }
}  // namespace vx
