// Run-time type identification (C20).
#include "vxlib.hpp"
#include <cetl/rtti.hpp>

using namespace vx;
namespace
{
using cetl::is_instance_of;
using cetl::rtti_cast;
using cetl::type_id;

template <u8... B>
using Id = cetl::type_id_type<B...>;

// Identities that differ in single bytes at either end and in the middle, and ones given with fewer bytes.
using IdA = Id<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>;
using IdB = Id<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17>;
using IdC = Id<2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>;
using IdD = Id<1, 2, 3, 4, 5, 6, 7, 0x88, 9, 10, 11, 12, 13, 14, 15, 16>;
using IdE = Id<1>;
using IdF = Id<1, 2>;
using IdG = Id<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>;
using IdH = Id<0xFF, 0x80>;
using IdZ = Id<9, 9, 9>;

struct A : cetl::rtti_helper<IdA> { u8 a = 0; };
struct B : cetl::rtti_helper<IdB> { u64 b = 0; };
struct C : cetl::rtti_helper<IdC, A, B> { u8 c = 0; };
struct E : cetl::rtti_helper<IdE> { u8 e[3]; };
struct D : cetl::rtti_helper<IdD, E, C> { u8 d = 0; };
struct F : cetl::rtti_helper<IdF, B> { u8 f = 0; };
struct G : cetl::rtti_helper<IdG, A, F, E> { u8 g = 0; };
struct Mix { u64 unrelated = 5; virtual ~Mix() = default; };
struct H : cetl::rtti_helper<IdH, D>, Mix { u8 h = 0; };
struct Z : cetl::rtti_helper<IdZ> { u8 z = 0; };
// Implements the interface by hand, by composition as the documentation shows.
struct Manual final : virtual cetl::rtti
{
    static constexpr type_id _get_type_id_() noexcept { return {{0x55, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x55}}; }
    void* _cast_(const type_id& id) & noexcept override
    {
        if (id == _get_type_id_()) return static_cast<void*>(this);
        if (void* const p = inner._cast_(id)) return p;
        return other._cast_(id);
    }
    const void* _cast_(const type_id& id) const& noexcept override
    {
        if (id == _get_type_id_()) return static_cast<const void*>(this);
        if (const void* const p = inner._cast_(id)) return p;
        return other._cast_(id);
    }
    C inner;
    E other;
};

type_id sym_id(const char* n)
{
    type_id id;
    for (auto& b : id) b = sym8(n);
    return id;
}
bool same(const type_id& x, const type_id& y)
{
    bool r = true;
    for (std::size_t i = 0; i < 16; ++i) r = r & (x[i] == y[i]);
    return r;
}
template <typename T>
type_id declared();  // what the type was declared with, byte by byte
template <> type_id declared<A>() { return {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}}; }
template <> type_id declared<B>() { return {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17}}; }
template <> type_id declared<C>() { return {{2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}}; }
template <> type_id declared<D>() { return {{1, 2, 3, 4, 5, 6, 7, 0x88, 9, 10, 11, 12, 13, 14, 15, 16}}; }
template <> type_id declared<E>() { return {{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}; }
template <> type_id declared<F>() { return {{1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}; }
template <> type_id declared<G>() { return {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}; }
template <> type_id declared<H>() { return {{0xFF, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}; }
template <> type_id declared<Z>() { return {{9, 9, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}; }
template <> type_id declared<Manual>() { return {{0x55, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x55}}; }

// The part of the object that type T names, or null; the compiler's own conversions are the reference.
template <typename T, typename O>
const void* part_of(const O& o, std::true_type) { return static_cast<const T*>(&o); }
template <typename T, typename O>
const void* part_of(const O&, std::false_type) { return nullptr; }
template <typename T, typename O>
const void* part(const O& o) { return part_of<T>(o, std::is_convertible<const O*, const T*>{}); }
template <typename T>
const void* part(const Manual& o)
{
    if (std::is_same<T, Manual>::value) return &o;
    const void* p = part<T>(o.inner);
    return p ? p : part<T>(o.other);
}

template <typename T, typename O, typename View>
void cast_one(O& o, View& view)
{
    const View& cview = view;
    const void* want  = part<T>(o);
    T*          p     = rtti_cast<T*>(&view);
    VX_ASSERT(p == want, "cast yields a different object or accepts a type the object does not have");
    const T* q = rtti_cast<T*>(&cview);
    VX_ASSERT(q == want, "const cast yields a different object or accepts a type the object does not have");
    const T* s = rtti_cast<const T*>(&view);
    VX_ASSERT(s == want, "cast to const yields a different object or accepts a type the object does not have");
    VX_ASSERT(is_instance_of<T>(view) == (want != nullptr), "type query disagrees with the object's types");
    VX_ASSERT(is_instance_of(cview, declared<T>()) == (want != nullptr), "type query by identity disagrees with the object's types");
}
template <typename O, typename View>
void cast_all(O& o, View& view, const type_id& id)
{
    cast_one<A>(o, view);
    cast_one<B>(o, view);
    cast_one<C>(o, view);
    cast_one<D>(o, view);
    cast_one<E>(o, view);
    cast_one<F>(o, view);
    cast_one<G>(o, view);
    cast_one<H>(o, view);
    cast_one<Z>(o, view);
    cast_one<Manual>(o, view);
    // any identity whatsoever
    bool known = false;
    const void* want = nullptr;
#define VX_TYPE(T) { const bool e = same(id, declared<T>()) & (part<T>(o) != nullptr); known |= e; if (e) want = part<T>(o); }
    VX_TYPE(A) VX_TYPE(B) VX_TYPE(C) VX_TYPE(D) VX_TYPE(E) VX_TYPE(F) VX_TYPE(G) VX_TYPE(H) VX_TYPE(Z) VX_TYPE(Manual)
#undef VX_TYPE
    VX_ASSERT(is_instance_of(view, id) == known, "type query answers wrongly for some identity");
    VX_ASSERT(view._cast_(id) == want, "cast answers wrongly for some identity");
    const View& cview = view;
    VX_ASSERT(cview._cast_(id) == want, "const cast answers wrongly for some identity");
    View* none = nullptr;
    VX_ASSERT(rtti_cast<A*>(none) == nullptr && rtti_cast<A*>(static_cast<const View*>(none)) == nullptr, "cast of a null pointer is not null");
}
}  // namespace
VX_HARNESS(rtti_cast)
{
    const type_id id = sym_id("id");
    const u64 c = choice("object", 14);
    __vx_shard(c);
    __vx_shard(0);
    A a; B b; C cc; D d; E e; F f; G g; H h; Manual m;
    switch (c)
    {
    case 0: cast_all(a, a, id); break;
    case 1: cast_all(b, b, id); break;
    case 2: cast_all(cc, cc, id); break;
    case 3: cast_all(cc, static_cast<A&>(cc), id); break;
    case 4: cast_all(cc, static_cast<B&>(cc), id); break;
    case 5: cast_all(d, d, id); break;
    case 6: cast_all(d, static_cast<B&>(d), id); break;
    case 7: cast_all(d, static_cast<E&>(d), id); break;
    case 8: cast_all(f, static_cast<B&>(f), id); break;
    case 9: cast_all(g, g, id); break;
    case 10: cast_all(g, static_cast<E&>(g), id); break;
    case 11: cast_all(h, h, id); break;
    case 12: cast_all(h, static_cast<C&>(h), id); break;
    case 13: cast_all(m, m, id); break;
    }
    VX_REACH("end");
}
VX_HARNESS(rtti_ids)
{
    __vx_shard(0);
    __vx_shard(0);
    const type_id x = sym_id("x"), y = sym_id("y");
    VX_ASSERT((x == y) == same(x, y) && (x != y) == !same(x, y), "identities compare wrongly");
    VX_ASSERT(same(cetl::type_id_value<A>, declared<A>()) && same(cetl::type_id_value<B>, declared<B>()) && same(cetl::type_id_value<C>, declared<C>()), "identity differs from the declared bytes");
    VX_ASSERT(same(cetl::type_id_value<D>, declared<D>()) && same(cetl::type_id_value<E>, declared<E>()) && same(cetl::type_id_value<F>, declared<F>()), "identity differs from the declared bytes");
    VX_ASSERT(same(cetl::type_id_value<G>, declared<G>()) && same(cetl::type_id_value<H>, declared<H>()) && same(cetl::type_id_value<Manual>, declared<Manual>()), "identity differs from the declared bytes");
    VX_ASSERT(same(cetl::type_id_getter<A>(), declared<A>()) && same(cetl::type_id_type_value<IdE>(), declared<E>()), "identity differs from the declared bytes");
    VX_ASSERT(same(cetl::type_id_value<void>, type_id{}), "identity of void is not zero");
    VX_ASSERT(!(cetl::has_type_id<int>) && cetl::has_type_id<A> && cetl::is_rtti_convertible<A> && !(cetl::is_rtti_convertible<Mix>), "capabilities misreported");
    VX_REACH("end");
}
