// Type-erased function (C19).
#include "vxlib.hpp"
#include <cetl/pmr/function.hpp>

#ifndef VX_K
#    define VX_K 2
#endif
#ifndef VX_BUDGET
#    define VX_BUDGET 0
#endif
using namespace vx;
using Mr = cetl::pf17::pmr::memory_resource;
namespace
{
using Sig = u64(u8, u8&, const u8&);

// Targets; each has a state of its own that a call changes.
template <int Kind, int Pad>
struct Target
{
    Elem<Kind, Pad> e;
    u8              calls = 0;
    Target(u8 x) : e(x) {}
    u64 operator()(u8 a, u8& b, const u8& c)
    {
        maybe_throw();
        ++calls;
        b = static_cast<u8>(b + 1);
        return (static_cast<u64>(Pad) << 40) | (static_cast<u64>(e.get()) << 32) | (static_cast<u64>(calls) << 24) | (static_cast<u64>(a) << 16) | (static_cast<u64>(b) << 8) | c;
    }
};
u64 plain(u8 a, u8& b, const u8& c)
{
    b = static_cast<u8>(b + 1);
    return (u64{0x77} << 40) | (static_cast<u64>(a) << 16) | (static_cast<u64>(b) << 8) | c;
}
enum : int { Empty, IsSmall, IsWide, IsPlain };
struct Model
{
    int kind  = Empty;
    u8  v     = 0;
    u8  calls = 0;
    int owner = 0;
};
template <bool C>
using Bool = std::integral_constant<bool, C>;

template <std::size_t Footprint, bool Pmr, int Kind>
struct Machine
{
    using F = cetl::pmr::function<Sig, Footprint, std::conditional_t<Pmr, Mr, void>>;
    using S = Target<Kind, 1>;
    using W = Target<Kind, 30>;
    Res r1{1}, r2{2};

    static int owner(const F& f, std::true_type) { return static_cast<Res*>(f.get_memory_resource())->id(); }
    static int owner(const F&, std::false_type) { return 0; }
    int        injected() const { return mem().failures + life().thrown; }

    void check(const F& f, const Model& m)
    {
        VX_ASSERT(static_cast<bool>(f) == (m.kind != Empty), "emptiness is wrong");
        if (m.kind != Empty) VX_ASSERT(!f.valueless_by_exception(), "function with a target claims to be valueless");
        if (Pmr) VX_ASSERT_M(owner(f, Bool<Pmr>{}) == m.owner, "function uses a different memory resource");
    }
    // Every call must reach the target, with these arguments, and bring back its result.
    void call(const F& f, Model& m)
    {
        const u8  a = sym8("a"), b = sym8("b"), c = sym8("c");
        u8        x = b;
        u64       r = 0;
        const int before = injected();
        int       how = 0;
#if VX_EXC
        try
        {
            r   = f(a, x, c);
            how = 1;
        }
        catch (const std::bad_function_call&) { how = 2; }
        catch (const Boom&) { how = 3; }
#else
        if (m.kind == Empty)
        {
            VX_ASSERT(ends_program([&] { (void) f(a, x, c); }), "call of an empty function was not rejected");
            return;
        }
        r   = f(a, x, c);
        how = 1;
#endif
        if (injected() > before)
        {
            VX_ASSERT(how == 3 && m.kind != Empty, "exception of the target did not reach the caller");
            VX_REACH("failed");
            return;
        }
        if (m.kind == Empty)
        {
            VX_ASSERT(how == 2 && x == b, "call of an empty function was not rejected");
            return;
        }
        VX_ASSERT(how == 1, "call failed without a reason");
        ++m.calls;
        const u8  y = static_cast<u8>(b + 1);
        const u64 t = (static_cast<u64>(a) << 16) | (static_cast<u64>(y) << 8) | c;
        const u64 s = (static_cast<u64>(m.v) << 32) | (static_cast<u64>(m.calls) << 24);
        const u64 want = m.kind == IsPlain ? (u64{0x77} << 40) | t : (static_cast<u64>(m.kind == IsSmall ? 1 : 30) << 40) | s | t;
        VX_ASSERT(r == want, "call did not reach the target it holds, or its result changed");
        VX_ASSERT(x == y, "reference argument was not passed through");
    }
    void settle(F& f, Model& m, const Model& want, bool ok, int before)
    {
        if (injected() == before)
        {
            VX_ASSERT(ok, "failure reported without a reason");
            m = want;
            return;
        }
#if VX_EXC
        VX_ASSERT(!ok, "failure was not reported");
#endif
        VX_REACH("failed");
        const bool has = static_cast<bool>(f);
#if !VX_EXC
        VX_ASSERT(!has, "target present although memory was unavailable");
        VX_ASSERT(f.valueless_by_exception(), "failure was not reported");
#endif
        if (!has) m.kind = Empty;  // otherwise it must be what it was
        m.owner = owner(f, Bool<Pmr>{});
    }
    template <typename T>
    void set(F& f, Model& m, int kind, bool lvalue)
    {
        const u8  v  = sym8("v");
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            if (lvalue)
            {
                const T t{v};
                F&      r = (f = t);
                VX_ASSERT(&r == &f, "assignment does not return the target");
            }
            else
                f = T{v};
            ok = true;
        }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        settle(f, m, Model{kind, v, 0, m.owner}, ok, b);
    }
    void set_plain(F& f, Model& m)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            f  = &plain;
            ok = true;
        }
        VX_CATCH(const std::bad_alloc&) {}
        settle(f, m, Model{IsPlain, 0, 0, m.owner}, ok, b);
    }
    void copy_assign(F& f, Model& m, const F& g, const Model& n)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            F& r = (f = g);
            VX_ASSERT(&r == &f, "assignment does not return the target");
            ok   = true;
        }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        settle(f, m, n, ok, b);
    }
    void copy_construct(F& g, Model& n)
    {
        const int b  = injected();
        bool      ok = false;
        VX_TRY
        {
            F     t{g};
            Model k = n;
            if (injected() > b)
            {
                VX_ASSERT(!t, "target present although memory was unavailable");
                k.kind = Empty;
            }
            check(t, k);
            call(t, k);
            call(t, k);
            check(g, n);
            ok = true;
        }
        VX_CATCH(const std::bad_alloc&) {}
        VX_CATCH(const Boom&) {}
        if (!ok) VX_ASSERT(injected() > b, "failure reported without a reason");
        call(g, n);  // independent
    }
    void move_construct(F& g, Model& n)
    {
        F t{std::move(g)};
        VX_ASSERT(!g, "moved-from function still has a target");
        check(t, n);
        call(t, n);
        g = std::move(t);
        VX_ASSERT(!t, "moved-from function still has a target");
    }
    void re_resource(F& f, Model& m, std::true_type)
    {
        const bool second = flag("second");
        f.reset(second ? &r2 : &r1);
        m = Model{Empty, 0, 0, second ? 2 : 1};
    }
    void re_resource(F& f, Model& m, std::false_type)
    {
        F& r = (f = nullptr);
        VX_ASSERT(&r == &f, "assignment does not return the target");
        m.kind = Empty;
    }
    void step(F& f, Model& m, F& g, Model& n)
    {
        const u64 op = choice("op", 14);
        __vx_shard(op);
        switch (op)
        {
        case 0: set<S>(f, m, IsSmall, false); break;
        case 1: set<S>(f, m, IsSmall, true); break;
        case 2: set<W>(f, m, IsWide, false); break;
        case 3: set<W>(f, m, IsWide, true); break;
        case 4: set_plain(f, m); break;
        case 5: copy_assign(f, m, g, n); break;
        case 6: f = std::move(g); m = n; n.kind = Empty; break;
        case 7: if (flag("free")) std::swap(f, g); else f.swap(g); std::swap(m, n); break;
        case 8: f.reset(); m.kind = Empty; break;
        case 9: re_resource(f, m, Bool<Pmr>{}); break;
        case 10: copy_construct(f, m); break;
        case 11: move_construct(f, m); break;
        case 12: call(f, m); break;
        case 13:
        {
            F& s = f;
            f    = static_cast<const F&>(s);
            f    = std::move(s);
            f.swap(s);
            break;
        }
        }
    }
    void body(F& f, F& g)
    {
        Model m{Empty, 0, 0, Pmr ? 1 : 0}, n{Empty, 0, 0, Pmr ? 2 : 0};
        check(f, m);
        check(g, n);
        const u64 init = choice("init", 4);
        __vx_shard(init);
        switch (init)
        {
        case 1: set<S>(g, n, IsSmall, false); break;
        case 2: set<W>(g, n, IsWide, false); break;
        case 3: set_plain(g, n); break;
        default: break;
        }
        for (int k = 0; k < VX_K; ++k)
        {
            if (flag("other"))
                step(g, n, f, m);
            else
                step(f, m, g, n);
            check(f, m);
            check(g, n);
        }
        call(f, m);
        call(g, n);
        check(f, m);
        check(g, n);
    }
    void start(std::true_type)
    {
        F f{&r1}, g{&r2};
        body(f, g);
    }
    void start(std::false_type)
    {
        F f, g;
        body(f, g);
    }
    void run()
    {
        oom_budget(VX_BUDGET);
        throw_budget(VX_BUDGET);
        start(Bool<Pmr>{});
        end_checks();
        end_path();
    }
};
template <typename F, typename T, typename... R>
void construct(u8 v, int kind, R*... r)
{
    using M     = Machine<0, true, 2>;
    u8       x  = sym8("b");
    const u8 a  = sym8("a"), c = 9;
    const u8 y  = static_cast<u8>(x + 1);
    bool     ok = false;
    VX_TRY
    {
        if (flag("lvalue"))
        {
            const T t{v};
            F       f{r..., t};
            ok = true;
            if (f)
            {
                VX_ASSERT(f(a, x, c) == ((static_cast<u64>(kind) << 40) | (static_cast<u64>(v) << 32) | (u64{1} << 24) | (static_cast<u64>(a) << 16) | (static_cast<u64>(y) << 8) | c), "call did not reach the target");
                VX_ASSERT(x == y, "reference argument was not passed through");
            }
            else
                VX_ASSERT(mem().failures > 0 && f.valueless_by_exception(), "target missing although nothing failed");
        }
        else
        {
            F f{r..., T{v}};
            ok = true;
            if (f)
                VX_ASSERT(f(a, x, c) == ((static_cast<u64>(kind) << 40) | (static_cast<u64>(v) << 32) | (u64{1} << 24) | (static_cast<u64>(a) << 16) | (static_cast<u64>(y) << 8) | c), "call did not reach the target");
            else
                VX_ASSERT(mem().failures > 0 && f.valueless_by_exception(), "target missing although nothing failed");
        }
    }
    VX_CATCH(const std::bad_alloc&) { ok = false; }
    VX_CATCH(const Boom&) { ok = false; }
    if (!ok)
    {
        VX_REACH("failed");
        VX_ASSERT(mem().failures + life().thrown > 0, "failure reported without a reason");
    }
}
}  // namespace
VX_HARNESS(fun_inline) { Machine<64, false, 2> m; m.run(); }
VX_HARNESS(fun_mixed) { Machine<24, true, 2> m; m.run(); }
VX_HARNESS(fun_pmr) { Machine<0, true, 2> m; m.run(); }
VX_HARNESS(fun_construct)
{
    Res      r{1};
    const u8 v = sym8("v");
    oom_budget(VX_BUDGET);
    throw_budget(VX_BUDGET);
    const u64 c = choice("config", 6);
    __vx_shard(c);
    __vx_shard(0);
    switch (c)
    {
    case 0: construct<cetl::pmr::function<Sig, 64>, Target<2, 1>>(v, 1); break;
    case 1: construct<cetl::pmr::function<Sig, 64>, Target<2, 30>>(v, 30); break;
    case 2: construct<cetl::pmr::function<Sig, 24, Mr>, Target<2, 1>, Mr>(v, 1, &r); break;
    case 3: construct<cetl::pmr::function<Sig, 24, Mr>, Target<2, 30>, Mr>(v, 30, &r); break;
    case 4: construct<cetl::pmr::function<Sig, 0, Mr>, Target<2, 1>, Mr>(v, 1, &r); break;
    case 5: construct<cetl::pmr::function<Sig, 0, Mr>, Target<2, 30>, Mr>(v, 30, &r); break;
    }
    end_checks();
    end_path();
}
