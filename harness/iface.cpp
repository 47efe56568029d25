// Interface pointers (C16).
#include "vxlib.hpp"
#include <cetl/pmr/interface_ptr.hpp>

#ifndef VX_K
#    define VX_K 2
#endif
using namespace vx;
namespace
{
template <typename T>
using PA = cetl::pf17::pmr::polymorphic_allocator<T>;
struct IA
{
    virtual u8 a() const = 0;

protected:
    ~IA() = default;  // not virtual: the deleter has to know the concrete type
};
struct IB
{
    virtual u8 b() const = 0;

protected:
    virtual ~IB() = default;
};
struct IC : IB
{
    virtual u8 c() const = 0;

protected:
    ~IC() = default;
};
struct Token
{
    u8 v;
};
template <int Kind, int Align>
struct alignas(Align) Obj final : IA, IC
{
    Elem<Kind> e1;
    Elem<Kind> e2;
    bool       exact = true;  // arguments arrived as they were passed
    Obj(u8 x, u8 y) : e1(x), e2(y) { ++alive; }
    Obj(Token&& x, u8& y) : e1(x.v), e2(y) { ++alive; }
    Obj(const Token& x, u8& y) : e1(x.v), e2(y), exact(false) { ++alive; }
    Obj(Token&& x, const u8& y) : e1(x.v), e2(y), exact(false) { ++alive; }
    Obj(const Token& x, const u8& y) : e1(x.v), e2(y), exact(false) { ++alive; }
    ~Obj() { --alive; }
    u8         a() const override { return e1.get(); }
    u8         b() const override { return e2.get(); }
    u8         c() const override { return static_cast<u8>(e1.get() ^ e2.get()); }
    static int alive;
};
template <int Kind, int Align>
int Obj<Kind, Align>::alive = 0;
u8 value(IA& i) { return i.a(); }
u8 value(IB& i) { return i.b(); }
u8 value(IC& i) { return i.c(); }

template <typename I, typename O>
struct Machine
{
    using Ptr = cetl::pmr::InterfacePtr<I>;
    Res r1{1}, r2{2};
    u8  want(u8 x, u8 y) const { return std::is_same<I, IA>::value ? x : std::is_same<I, IB>::value ? y : static_cast<u8>(x ^ y); }
    Ptr make(u8 x, u8 y, bool second)
    {
        PA<O> a{second ? &r2 : &r1};
        Ptr   p;
        bool  failed = false;
        VX_TRY
        {
            if (second) p = cetl::pmr::InterfaceFactory::make_unique<I>(a, Token{x}, y);
            else p = cetl::pmr::InterfaceFactory::make_unique<I>(a, x, y);
        }
        VX_CATCH(const std::bad_alloc&) { failed = true; VX_ASSERT(mem().failures > 0, "allocation failure reported without reason"); }
        VX_CATCH(const Boom&) { failed = true; }
        if (!p && !failed) VX_ASSERT(mem().failures > 0, "an empty pointer was returned although memory was available");
        if (!p) VX_REACH("failed");
        if (p)
        {
            VX_REACH("made");
            VX_ASSERT(value(*p) == want(x, y), "interface refers to a wrongly constructed object");
            VX_ASSERT(static_cast<O*>(p.get())->exact, "constructor arguments were not passed on as they were given");
            const Block* b = mem_find(static_cast<O*>(p.get()));
            VX_ASSERT_M(b != nullptr && b->size == sizeof(O) && b->align == alignof(O) && b->owner == (second ? 2 : 1), "object does not live in a block of the given resource");
        }
        return p;
    }
    void run()
    {
        oom_budget(1);
        throw_budget(1);
        {
            const u8 x = sym8("x"), y = sym8("y");
            Ptr      p = make(x, y, false), q = make(y, x, true);
            u8       pv = want(x, y), qv = want(y, x);
            for (int k = 0; k < VX_K; ++k)
            {
                const u64 op = choice("op", 9);
                __vx_shard(op);
                switch (op)
                {
                case 0: p = std::move(q); pv = qv; VX_ASSERT(!q, "moved-from pointer still owns"); break;
                case 1: q = std::move(p); qv = pv; VX_ASSERT(!p, "moved-from pointer still owns"); break;
                case 2: p.swap(q); std::swap(pv, qv); break;
                case 3: p.reset(); VX_ASSERT(!p, "reset pointer still owns"); break;
                case 4:
                {
                    Ptr t{std::move(p)};
                    if (t) VX_ASSERT(value(*t) == pv, "moved pointer refers to a different object");
                    p = std::move(t);
                    break;
                }
                case 5: { Ptr& self = p; p = std::move(self); break; }
                case 6:
                    if (p)
                    {
                        I* raw = p.release();
                        p.get_deleter()(raw);
                    }
                    break;
                case 7: p = Ptr{}; break;
                case 8:
                    if (p)
                    {
                        Ptr t{p.release(), std::move(p.get_deleter())};
                        p = std::move(t);
                    }
                    break;
                }
                if (p) VX_ASSERT(value(*p) == pv, "pointer refers to a different object");
                if (q) VX_ASSERT(value(*q) == qv, "pointer refers to a different object");
                const int n = (p ? 1 : 0) + (q ? 1 : 0);
                VX_ASSERT_L(O::alive == n && life().n == 2 * n, "objects and owners do not match");
                VX_ASSERT_M(mem_live() == n, "blocks and owners do not match");
            }
        }
        VX_ASSERT_L(O::alive == 0, "concrete destructor did not run exactly once");
        end_checks();
        end_path();
    }
};
}  // namespace
VX_HARNESS(iface_first) { Machine<IA, Obj<1, 8>> m; m.run(); }
VX_HARNESS(iface_second) { Machine<IB, Obj<1, 32>> m; m.run(); }
VX_HARNESS(iface_derived) { Machine<IC, Obj<0, 8>> m; m.run(); }
