// Polymorphic allocator (C14), factory and deleters (C15).
#include "vxlib.hpp"
#include <cetl/pmr/memory.hpp>
#include <tuple>

#ifndef VX_K
#    define VX_K 3
#endif
using namespace vx;
namespace
{
using cetl::pf17::pmr::memory_resource;
template <typename T>
using PA = cetl::pf17::pmr::polymorphic_allocator<T>;

/// Records the requests it gets and serves them from a small object; refuses what does not fit.
class Recorder final : public memory_resource
{
public:
    int         asked = 0, returned = 0, moved = 0;
    std::size_t size = 0, align = 0, rsize = 0, ralign = 0, old_size = 0;
    void*       rp  = nullptr;
    std::size_t max = ~std::size_t(0);
    int         id  = 0;
    bool        throws = false;  // failed reallocation is reported by an exception
    alignas(64) unsigned char store[64];

private:
    void* do_allocate(std::size_t s, std::size_t a) override
    {
        ++asked;
        size  = s;
        align = a;
        if (s > sizeof(store))
        {
#if VX_EXC
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        return store;
    }
    void do_deallocate(void* p, std::size_t s, std::size_t a) override
    {
        ++returned;
        rp     = p;
        rsize  = s;
        ralign = a;
    }
    void* do_reallocate(void* p, std::size_t o, std::size_t s, std::size_t a) override
    {
        ++moved;
        rp       = p;
        old_size = o;
        size     = s;
        align    = a;
#if VX_EXC
        if (throws && s > sizeof(store)) throw std::bad_alloc();
#endif
        return s <= sizeof(store) ? store : nullptr;
    }
    bool        do_is_equal(const memory_resource& r) const noexcept override { return static_cast<const Recorder&>(r).id == id; }
    std::size_t do_max_size() const noexcept override { return max; }
};

template <typename T>
void requests()
{
    Recorder  r;
    PA<T>     a{&r};
    const u64 n = sym64("count");
    const bool representable = n <= ~u64(0) / sizeof(T);
    T*         p      = nullptr;
    bool       failed = false;
    VX_TRY { p = a.allocate(n); }
    VX_CATCH(const std::bad_alloc&) { failed = true; }
    if (representable)
    {
        VX_ASSERT(r.asked == 1, "the resource was not asked exactly once");
        VX_ASSERT(r.size == n * sizeof(T) && r.align == alignof(T), "the resource was asked for a different size or alignment");
        VX_ASSERT((p == nullptr) == (n * sizeof(T) > sizeof(r.store)), "the resource's answer was not passed on");
    }
    else
    {
        VX_ASSERT(p == nullptr && r.asked == 0, "a count whose size cannot be represented was not refused");
        VX_ASSERT(failed == (VX_EXC != 0), "failure was not reported");
    }
    if (p)
    {
        VX_ASSERT(static_cast<void*>(p) == r.store, "a different block was returned");
        const u64 m = sym64("newcount");
        T*        q = nullptr;
        r.throws    = flag("throws");
        VX_TRY { q = a.reallocate(p, n, m); }
        VX_CATCH(const std::bad_alloc&) {}
        if (m > ~u64(0) / sizeof(T))
            VX_ASSERT(q == nullptr, "a count whose size cannot be represented was not refused");
        else
        {
            VX_ASSERT(r.moved == 1 && r.rp == p && r.old_size == n * sizeof(T) && r.size == m * sizeof(T) && r.align == alignof(T), "reallocation request was changed");
            VX_ASSERT((q != nullptr) == (m * sizeof(T) <= sizeof(r.store)), "the resource's answer was not passed on");
        }
        const u64 back = q ? m : n;
        a.deallocate(p, back);
        VX_ASSERT(r.returned == 1 && r.rp == p && r.rsize == back * sizeof(T) && r.ralign == alignof(T), "block was given back with different numbers");
        VX_REACH("roundtrip");
    }
    r.max = sym64("max");
    VX_ASSERT(a.max_size() == r.max / sizeof(T), "max_size is not the resource's capacity in objects");
    VX_REACH("end");
}
struct alignas(32) Over { unsigned char b[32]; };
struct Three { unsigned char b[3]; };

struct Boxed  // not allocator aware; value category of the argument is recorded
{
    u8   v   = 0;
    char how = 'd';
    Boxed() = default;
    Boxed(u8 x, u8 y) : v(static_cast<u8>(x * 3 + y)), how('2') {}
    Boxed(u8& x) : v(x), how('l') { x = static_cast<u8>(x + 1); }
    Boxed(const u8& x) : v(x), how('c') {}
    Boxed(u8&& x) : v(x), how('r') {}
    Boxed(const Boxed& o) : v(o.v), how('C') {}
    Boxed(Boxed&& o) : v(o.v), how('M') { o.v = 0xEE; }
};
template <bool Leading>
struct Aware
{
    using allocator_type = PA<u8>;
    u8               v   = 0;
    char             how = '?';
    memory_resource* r   = nullptr;
    // exactly one of the two protocols is offered
    template <bool L = Leading, typename = std::enable_if_t<L>>
    Aware(std::allocator_arg_t, const allocator_type& a) : how('d'), r(a.resource()) {}
    template <bool L = Leading, typename = std::enable_if_t<L>>
    Aware(std::allocator_arg_t, const allocator_type& a, u8 x) : v(x), how('v'), r(a.resource()) {}
    template <bool L = Leading, typename = std::enable_if_t<L>>
    Aware(std::allocator_arg_t, const allocator_type& a, const Aware& o) : v(o.v), how('C'), r(a.resource()) {}
    template <bool L = Leading, typename = std::enable_if_t<L>>
    Aware(std::allocator_arg_t, const allocator_type& a, Aware&& o) : v(o.v), how('M'), r(a.resource()) { o.v = 0xEE; }
    template <bool L = Leading, typename = std::enable_if_t<!L>>
    Aware(const allocator_type& a) : how('d'), r(a.resource()) {}
    template <bool L = Leading, typename = std::enable_if_t<!L>>
    Aware(u8 x, const allocator_type& a) : v(x), how('v'), r(a.resource()) {}
    template <bool L = Leading, typename = std::enable_if_t<!L>>
    Aware(const Aware& o, const allocator_type& a) : v(o.v), how('C'), r(a.resource()) {}
    template <bool L = Leading, typename = std::enable_if_t<!L>>
    Aware(Aware&& o, const allocator_type& a) : v(o.v), how('M'), r(a.resource()) { o.v = 0xEE; }
    Aware(const Aware& o) = default;
    Aware(Aware&& o)      = default;
};
struct MoveOnly
{
    u8 v;
    MoveOnly(u8 x) : v(x) {}
    MoveOnly(MoveOnly&& o) : v(o.v) { o.v = 0xEE; }
    MoveOnly(const MoveOnly&) = delete;
};
template <typename T>
struct Slot
{
    alignas(T) unsigned char b[sizeof(T)];
    T* at() { return reinterpret_cast<T*>(b); }
    T& get() { return *at(); }
};
template <bool L>
void aware(const PA<u8>& a0, Recorder& r)
{
    PA<u8>    a{a0};
    const u8  x = sym8("x");
    using T = Aware<L>;
    Slot<T> s;
    a.construct(s.at());
    VX_ASSERT(s.get().how == 'd' && s.get().r == &r, "allocator was not passed to a default constructed object");
    a.construct(s.at(), x);
    VX_ASSERT(s.get().how == 'v' && s.get().v == x && s.get().r == &r, "argument or allocator was not passed");
    T src = s.get();
    a.construct(s.at(), static_cast<const T&>(src));
    VX_ASSERT(s.get().how == 'C' && s.get().v == x && s.get().r == &r && src.v == x, "copy with allocator is wrong");
    a.construct(s.at(), std::move(src));
    VX_ASSERT(s.get().how == 'M' && s.get().v == x && s.get().r == &r && src.v == 0xEE, "move with allocator is wrong");
    a.destroy(s.at());

    using P = std::pair<Boxed, T>;
    Slot<P> p;
    u8      y = sym8("y");
    const u8 y0 = y;
    a.construct(p.at());
    VX_ASSERT(p.get().first.how == 'd' && p.get().second.how == 'd' && p.get().second.r == &r, "default constructed pair is wrong");
    a.construct(p.at(), y, x);
    VX_ASSERT(p.get().first.how == 'l' && p.get().first.v == y0 && y == static_cast<u8>(y0 + 1), "first argument of a pair was not forwarded as given");
    VX_ASSERT(p.get().second.how == 'v' && p.get().second.v == x && p.get().second.r == &r, "second half of a pair is wrong");
    a.construct(p.at(), std::move(y), x);
    VX_ASSERT(p.get().first.how == 'r' && p.get().first.v == static_cast<u8>(y0 + 1), "first argument of a pair was not forwarded as given");
    a.construct(p.at(), std::piecewise_construct, std::make_tuple(x, y0), std::make_tuple(y0));
    VX_ASSERT(p.get().first.how == '2' && p.get().first.v == static_cast<u8>(x * 3 + y0) && p.get().second.v == y0 && p.get().second.r == &r, "piecewise constructed pair is wrong");
    const P* cp = p.at();
    Slot<P>  q;
    a.construct(q.at(), *cp);
    VX_ASSERT(q.get().first.how == 'C' && q.get().first.v == p.get().first.v && q.get().second.how == 'C' && q.get().second.v == y0 && q.get().second.r == &r, "pair copied from a pair is wrong");
    a.construct(q.at(), std::move(p.get()));
    VX_ASSERT(q.get().first.how == 'M' && q.get().second.how == 'M' && q.get().second.v == y0 && q.get().second.r == &r, "pair moved from a pair is wrong");
    VX_ASSERT(p.get().first.v == 0xEE && p.get().second.v == 0xEE, "pair moved from a pair is wrong");
    std::pair<u8, u8> small{x, y0};
    a.construct(q.at(), small);
    VX_ASSERT(q.get().first.v == x && q.get().second.v == y0 && q.get().second.how == 'v', "pair converted from a pair is wrong");
    using R = std::pair<T, T>;
    Slot<R> rr;
    a.construct(rr.at(), x, y0);
    VX_ASSERT(rr.get().first.v == x && rr.get().second.v == y0 && rr.get().first.r == &r && rr.get().second.r == &r, "allocator was not passed to both halves of a pair");
    VX_REACH("end");
}
}  // namespace
VX_HARNESS(poly_u8) { requests<u8>(); }
VX_HARNESS(poly_u64) { requests<u64>(); }
VX_HARNESS(poly_three) { requests<Three>(); }
VX_HARNESS(poly_over) { requests<Over>(); }
VX_HARNESS(poly_leading)
{
    Recorder r;
    aware<true>(PA<u8>{&r}, r);
}
VX_HARNESS(poly_trailing)
{
    Recorder r;
    aware<false>(PA<u8>{PA<u64>{&r}}, r);
}
VX_HARNESS(poly_plain)
{
    Recorder r;
    PA<u64>  a{&r};
    u8       x = sym8("x");
    const u8 x0 = x, y = sym8("y");
    Slot<Boxed> s;
    a.construct(s.at());
    VX_ASSERT(s.get().how == 'd', "default construction is wrong");
    a.construct(s.at(), x);
    VX_ASSERT(s.get().how == 'l' && s.get().v == x0 && x == static_cast<u8>(x0 + 1), "lvalue argument was not forwarded as given");
    a.construct(s.at(), static_cast<const u8&>(x));
    VX_ASSERT(s.get().how == 'c' && s.get().v == x, "const argument was not forwarded as given");
    a.construct(s.at(), std::move(x));
    VX_ASSERT(s.get().how == 'r' && s.get().v == x, "rvalue argument was not forwarded as given");
    a.construct(s.at(), x, y);
    VX_ASSERT(s.get().how == '2' && s.get().v == static_cast<u8>(x * 3 + y), "several arguments were not forwarded as given");
    using P = std::pair<MoveOnly, Boxed>;
    Slot<P> p, q;
    a.construct(p.at(), MoveOnly{x0}, y);
    VX_ASSERT(p.get().first.v == x0 && p.get().second.v == y, "pair is wrong");
    a.construct(q.at(), std::move(p.get()));
    VX_ASSERT(q.get().first.v == x0 && q.get().second.v == y && q.get().second.how == 'M' && p.get().first.v == 0xEE, "pair moved from a pair is wrong");
    VX_REACH("end");
}
VX_HARNESS(poly_equal)
{
    Recorder r[2];
    r[0].id = static_cast<int>(sym8("id0"));
    r[1].id = static_cast<int>(sym8("id1"));
    PA<u8>     a{&r[0]}, c{a};
    PA<u64>    b{&r[1]}, e{a};
    const bool same = r[0].id == r[1].id;
    VX_ASSERT(a == a && a == c && !(a != c) && a == e, "an allocator differs from its copy");
    VX_ASSERT((a == b) == same && (a != b) == !same && (b == a) == same, "allocators are not equal exactly when their resources are");
    VX_ASSERT(c.resource() == &r[0] && e.resource() == &r[0] && a.select_on_container_copy_construction().resource() == &r[0], "a copy uses a different resource");
    VX_REACH("end");
}

// -------------------------------------------------------------------------------------------- factory and deleters
namespace
{
template <int Kind>
void factory()
{
    using T = Elem<Kind, 3>;
    Res      res{1};
    PA<T>    a{&res};
    const u8 x = sym8("x");
    oom_budget(1);
    throw_budget(1);
    {
        using Ptr = cetl::pmr::Factory::unique_ptr_t<PA<T>>;
        bool failed = false;
        VX_TRY
        {
            Ptr p = flag("dflt") ? cetl::pmr::Factory::make_unique(a) : cetl::pmr::Factory::make_unique(a, x);
            if (p)
            {
                VX_REACH("made");
                VX_ASSERT(p->get() == x || p->get() == 0, "object was constructed from a different value");
                VX_ASSERT_M(mem_live() == 1 && mem_find(p.get()) != nullptr, "object does not live in a block of the resource");
                VX_ASSERT_M(mem_find(p.get())->size == sizeof(T) && mem_find(p.get())->align == alignof(T), "block has the wrong size or alignment");
                switch (choice("then", 4))
                {
                case 0: break;
                case 1:
                {
                    Ptr q{std::move(p)};
                    VX_ASSERT(p == nullptr && q != nullptr, "moved-from pointer still owns");
                    Ptr z{std::move(q)};
                    break;
                }
                case 2: p.reset(); VX_ASSERT_M(mem_live() == 0, "reset kept the memory"); break;
                case 3:
                {
                    T* raw = p.release();
                    VX_ASSERT_L(life().n == 1, "release destroyed the object");
                    cetl::pmr::PolymorphicDeleter<PA<T>> d{a, 1}, d2{d};
                    d2(raw);
                    break;
                }
                }
            }
            else
            {
                failed = true;
                VX_ASSERT(mem().failures > 0, "a null pointer was returned although memory was available");
            }
        }
        VX_CATCH(const std::bad_alloc&) { failed = true; VX_ASSERT(mem().failures > 0, "allocation failure reported without reason"); }
        VX_CATCH(const Boom&) { failed = true; }
        VX_ASSERT(!failed || faulted(), "creation failed without reason");
        if (failed) VX_REACH("failed");
    }
    end_checks();
    end_path();
}
struct Token
{
    u8 v;
};
struct Exact
{
    Elem<0> e, f;
    bool    exact = false;  // arguments arrived as they were passed
    Exact(Token&& x, u8& y) : e(x.v), f(y), exact(true) {}
    Exact(const Token& x, u8& y) : e(x.v), f(y) {}
    Exact(Token&& x, const u8& y) : e(x.v), f(y) {}
    Exact(const Token& x, const u8& y) : e(x.v), f(y) {}
};
using MRD = cetl::pmr::MemoryResourceDeleter<memory_resource>;
using MRP = std::unique_ptr<void, MRD>;
MRP get(Res& r, std::size_t size, std::size_t align)
{
    return MRP{r.allocate(size, align), MRD{&r, size, align}};
}
}  // namespace
VX_HARNESS(factory_plain) { factory<0>(); }
VX_HARNESS(factory_throw) { factory<1>(); }
VX_HARNESS(factory_moveonly) { factory<3>(); }
VX_HARNESS(factory_forward)
{
    Res       res{1};
    PA<Exact> a{&res};
    u8        x = sym8("x"), y = sym8("y");
    {
        auto p = cetl::pmr::Factory::make_unique(a, Token{x}, y);
        VX_ASSERT(p != nullptr && p->e.get() == x && p->f.get() == y, "object was constructed from a different value");
        VX_ASSERT(p->exact, "constructor arguments were not passed on as they were given");
        p.get_deleter()(nullptr);  // nothing to delete
        VX_ASSERT_L(life().n == 2, "deleting nothing destroyed something");
    }
    end_checks();
    end_path();
}
VX_HARNESS(deleter_ops)
{
    Res r1{1}, r2{2};
    r1.fixed = r2.fixed = 16;
    {
        const std::size_t s1 = range("s1", 1, 16), s2 = range("s2", 1, 16), a1 = u64(1) << choice("a1", 4), a2 = u64(1) << choice("a2", 3);
        MRP               p = get(r1, s1, a1), q = get(r2, s2, a2);
        bool              pv = true, qv = true;  // deleters that have not been moved from
        for (int k = 0; k < VX_K; ++k)
        {
            switch (choice("op", 8))
            {
            case 0: if (qv) { p = std::move(q); qv = false; pv = true; } break;
            case 1: if (pv) { q = std::move(p); pv = false; qv = true; } break;
            case 2: if (pv) { MRP t{std::move(p)}; p = std::move(t); } break;
            case 3: p.reset(); break;
            case 4: if (pv && qv) p.swap(q); break;
            case 5:
                if (pv)
                {
                    MRP& self = p;
                    p         = std::move(self);
                }
                break;
            case 6:
                if (pv)
                {
                    void* raw = p.release();
                    p.get_deleter()(raw);
                }
                break;
            default:
            {
                MRD d{&r1, s1, a1};
                MRD e{std::move(d)};
                VX_ASSERT(e.size() == s1 && e.alignment() == a1 && e.resource() == &r1, "moved deleter lost its data");
                VX_ASSERT(d.resource() == nullptr, "moved-from deleter still refers to the resource");
                MRD f{&r2, s2, a2};
                f = std::move(e);
                VX_ASSERT(f.size() == s1 && f.alignment() == a1 && f.resource() == &r1, "move-assigned deleter lost its data");
            }
            }
            VX_ASSERT_M(mem_live() == (p ? 1 : 0) + (q ? 1 : 0), "blocks and owners do not match");
        }
    }
    end_checks();
    end_path();
}
/// Deleters that return blocks of several objects through an allocator.
VX_HARNESS(deleter_poly)
{
    using A = Alloc<u32, false>;
    using D = cetl::pmr::PolymorphicDeleter<A>;
    using P = std::unique_ptr<u32, D>;
    {
        const std::size_t n1 = pick("n1", 1, 3), n2 = pick("n2", 1, 3);
        A                 a1{1}, a2{2};
        P                 p{a1.allocate(n1), D{a1, n1}}, q{a2.allocate(n2), D{a2, n2}};
        *p                 = 11;
        *q                 = 22;
        for (int k = 0; k < VX_K; ++k)
        {
            const u64 op = choice("op", 9);
            __vx_shard(op);
            switch (op)
            {
            case 0: p = std::move(q); break;
            case 1: q = std::move(p); break;
            case 2: { P t{std::move(p)}; p = std::move(t); break; }
            case 3: p.reset(); break;
            case 4: p.swap(q); break;
            case 5: { P& self = p; p = std::move(self); break; }
            case 6: { u32* raw = p.release(); if (raw) { D d{p.get_deleter()}; d(raw); } break; }
            case 7: { u32* raw = p.release(); if (raw) { D d{a2, 4}; const D& o = p.get_deleter(); d = o; d(raw); } break; }
            case 8: { u32* raw = p.release(); P t{raw, D{p.get_deleter()}}; q = std::move(t); break; }
            }
            VX_ASSERT_M(mem_live() == (p ? 1 : 0) + (q ? 1 : 0), "blocks and owners do not match");
            if (p && q) VX_ASSERT(*p != *q, "two owners of one block");
        }
    }
    end_checks();
    end_path();
}
