// Names of the polyfill headers (C31): what a program written against them may rely on whichever standard selects the
// implementation.
#include "vx.hpp"
#include <cetl/pf20/cetlpf.hpp>
#include "vxlib.hpp"
#include <cetl/pf20/span.hpp>
#include <cetl/pmr/function.hpp>
#include <cetl/pmr/memory.hpp>
#include <cetl/unbounded_variant.hpp>
#include <cetl/variable_length_array.hpp>

#if (__cplusplus >= CETL_CPP_STANDARD_17) && !defined(VX_NATIVE)
// The process-wide resources live in the compiled part of the standard library.
namespace
{
struct StdRes final : std::pmr::memory_resource
{
    explicit StdRes(bool null) : null_(null) {}
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        if (null_)
        {
#    if VX_EXC
            throw std::bad_alloc();
#    else
            std::abort();
#    endif
        }
        return vx::raw_alloc(n, a);
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override { std::free(p); }
    bool do_is_equal(const std::pmr::memory_resource& r) const noexcept override { return &r == this; }
    bool null_;
};
StdRes& std_null() { static StdRes r{true}; return r; }
StdRes& std_new() { static StdRes r{false}; return r; }
std::pmr::memory_resource*& std_default() { static std::pmr::memory_resource* r = &std_new(); return r; }
}  // namespace
extern "C"
{
    std::pmr::memory_resource* vxext__ZNSt3pmr20null_memory_resourceEv() noexcept { return &std_null(); }
    std::pmr::memory_resource* vxext__ZNSt3pmr19new_delete_resourceEv() noexcept { return &std_new(); }
    std::pmr::memory_resource* vxext__ZNSt3pmr20get_default_resourceEv() noexcept { return std_default(); }
    std::pmr::memory_resource* vxext__ZNSt3pmr20set_default_resourceEPNS_15memory_resourceE(std::pmr::memory_resource* r) noexcept
    {
        auto* const old = std_default();
        std_default()   = r ? r : &std_new();
        return old;
    }
    void vxext__ZNSt3pmr15memory_resourceD2Ev(void*) noexcept {}
}
#endif

namespace vx
{
/// The ledger's resource under the name the polyfill header gives to memory resources.
class PfRes final : public cetl::pmr::memory_resource
{
public:
    explicit PfRes(int id) : id_(id) {}
    std::size_t allocs = 0;

private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        ++allocs;
        if (n > 100000 || oom_now())
        {
#if VX_EXC
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        return mem_alloc(id_, n, a);
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override { mem_free(id_, p, n, a); }
    bool do_is_equal(const cetl::pmr::memory_resource& r) const noexcept override { return &r == this; }
    int  id_;
};

struct Val
{
    static constexpr cetl::type_id _get_type_id_() noexcept { return {0x11}; }
    u8 k[3];
};
// ------------------------------------------------------------------------------------------------ default resource
VX_HARNESS(alias_resources)
{
    {
        namespace pmr = cetl::pmr;
        PfRes                  a(1), b(2);
        pmr::memory_resource*  r[4] = {&a, &b, pmr::new_delete_resource(), pmr::null_memory_resource()};
        VX_ASSERT(r[2] != nullptr && r[3] != nullptr && r[2] != r[3], "the new-delete and the null resource are not two resources");
        VX_ASSERT(pmr::new_delete_resource() == r[2] && pmr::null_memory_resource() == r[3], "the process-wide resources are not the same ones every time");
        VX_ASSERT(pmr::get_default_resource() == r[2], "the default resource is not the new-delete resource at first");
        pmr::memory_resource* cur = r[2];
        for (int i = 0; i < VX_K; ++i)
        {
            const u64 c = choice("set", 5);
            pmr::memory_resource* const next = c == 4 ? nullptr : r[c];
            pmr::memory_resource* const old  = pmr::set_default_resource(next);
            VX_ASSERT(old == cur, "set_default_resource did not return the resource in force until then");
            cur = next ? next : r[2];
            VX_ASSERT(pmr::get_default_resource() == cur, "get_default_resource is not the resource last set");
        }
        (void) pmr::set_default_resource(nullptr);
        const u64 n = pick("n", 1, 40);
        u8* const p = static_cast<u8*>(r[2]->allocate(n, 8));
        VX_ASSERT(p != nullptr, "the new-delete resource gave no memory");
        for (u64 i = 0; i < n; ++i) p[i] = u8(i);
        r[2]->deallocate(p, n, 8);
        VX_ASSERT(*r[2] == *r[2] && !(*r[2] == *r[3]), "resources compare wrongly");
#if VX_EXC
        bool thrown = false;
        try
        {
            void* const q = r[3]->allocate(n, 8);
            VX_ASSERT(q == nullptr, "the null resource gave memory");
        } catch (const std::bad_alloc&)
        {
            thrown = true;
        }
        VX_ASSERT(thrown, "the null resource did not reject the request");
#endif
        end_checks();
    }
    end_path();
}

// ------------------------------------------------------------------------------------- users of a polyfill resource
VX_HARNESS(alias_users)
{
    {
        // A resource of the standard library may not return null; without exceptions it then has no way to fail.
        oom_budget((VX_EXC || __cplusplus < CETL_CPP_STANDARD_17) ? 1 : 0);
        PfRes m(1);
        const u8 x = sym8("x"), y = sym8("y");
        switch (choice("user", 4))
        {
        case 0:
        {
            using A = cetl::pmr::polymorphic_allocator<u8>;
            const u64 n = pick("n", 0, 5);
            VX_TRY
            {
                cetl::VariableLengthArray<u8, A> v{A{&m}};
                v.resize(n, x);
                const u64 held = v.size();
                VX_ASSERT(held == n || mem().failures > 0, "array over a polymorphic allocator has the wrong length");
                v.push_back(y);
                VX_ASSERT(v.get_allocator().resource() == &m, "array over a polymorphic allocator uses another resource");
                VX_ASSERT(v.size() == held + 1 || (v.size() == held && mem().failures > 0), "array over a polymorphic allocator has the wrong length");
                for (u64 i = 0; i < v.size(); ++i) VX_ASSERT(v[i] == (i < held ? x : y), "array over a polymorphic allocator lost an element");
                v.shrink_to_fit();
                const u64  before = v.size();
                auto       w      = std::move(v);
                VX_ASSERT(w.size() == before, "array over a polymorphic allocator lost an element in a move");
                for (u64 i = 0; i < w.size(); ++i) VX_ASSERT(w[i] == (i < held ? x : y), "array over a polymorphic allocator lost an element in a move");
            }
            VX_CATCH(const std::bad_alloc&) { VX_ASSERT(mem().failures > 0, "allocation failure reported without one"); }
            VX_REACH("vla");
            break;
        }
        case 1:
        {
            using UV = cetl::unbounded_variant<0, true, true, 1, cetl::pmr::memory_resource>;
            VX_TRY
            {
                UV v{&m};
                VX_ASSERT(v.get_memory_resource() == &m, "variant uses another memory resource than it was given");
                v = Val{{1, 2, x}};
                if (mem().failures == 0 || v.has_value())
                {
                    VX_ASSERT(v.has_value() && cetl::get<const Val&>(v).k[2] == x, "unbounded variant over a polyfill resource lost its value");
                    UV w(std::move(v));
                    VX_ASSERT(cetl::get<const Val&>(w).k[2] == x, "unbounded variant over a polyfill resource lost its value in a move");
                }
            }
            VX_CATCH(const std::bad_alloc&) { VX_ASSERT(mem().failures > 0, "allocation failure reported without one"); }
            VX_REACH("ubv");
            break;
        }
        case 2:
        {
            using A = cetl::pmr::polymorphic_allocator<Elem<0, 3>>;
            A al{&m};
            VX_TRY
            {
                auto p = cetl::pmr::Factory::make_unique(al, x);
                VX_ASSERT((p == nullptr) ? mem().failures > 0 : p->get() == x, "unique object over a polyfill resource has the wrong value");
            }
            VX_CATCH(const std::bad_alloc&) { VX_ASSERT(mem().failures > 0, "allocation failure reported without one"); }
            VX_REACH("unique");
            break;
        }
        default:
        {
            using F = cetl::pmr::function<u8(u8), 0, cetl::pmr::memory_resource>;
            VX_TRY
            {
                struct Add
                {
                    u8 k[3];
                    u8 operator()(u8 a) const { return u8(a + k[2]); }
                };
                F f{&m, Add{{0, 0, x}}};
                if (mem().failures == 0) VX_ASSERT(f && f(y) == u8(x + y), "function over a polyfill resource gives the wrong result");
            }
            VX_CATCH(const std::bad_alloc&) { VX_ASSERT(mem().failures > 0, "allocation failure reported without one"); }
            VX_REACH("function");
            break;
        }
        }
        end_checks();
    }
    end_path();
}

// ------------------------------------------------------------------------------------------------- vocabulary types
VX_HARNESS(alias_optional)
{
    {
        using O = cetl::optional<Elem<0>>;
        O    o[2];
        bool has[2] = {false, false};
        u8   val[2] = {0, 0};
        for (int i = 0; i < VX_K; ++i)
        {
            const u64 w = choice("which", 2);
            const u8  x = sym8("x");
            switch (choice("op", 8))
            {
            case 0: o[w] = Elem<0>(x), has[w] = true, val[w] = x; break;
            case 1: o[w] = cetl::nullopt, has[w] = false; break;
            case 2: VX_ASSERT(o[w].emplace(x).get() == x, "emplace did not return the new value"), has[w] = true, val[w] = x; break;
            case 3: o[w].reset(), has[w] = false; break;
            case 4:
                o[w] = o[1 - w], has[w] = has[1 - w], val[w] = val[1 - w];
                break;
            case 5:
            {
                using std::swap;
                swap(o[0], o[1]), swap(has[0], has[1]), swap(val[0], val[1]);
                break;
            }
            case 6: o[w] = O(cetl::in_place, x), has[w] = true, val[w] = x; break;
            default: o[w] = cetl::make_optional<Elem<0>>(x), has[w] = true, val[w] = x; break;
            }
            for (int j = 0; j < 2; ++j)
            {
                VX_ASSERT(o[j].has_value() == has[j] && static_cast<bool>(o[j]) == has[j], "optional is engaged when it should not be, or the other way round");
                if (has[j]) VX_ASSERT((*o[j]).get() == val[j] && o[j]->get() == val[j] && o[j].value().get() == val[j], "optional holds the wrong value");
                VX_ASSERT(o[j].value_or(Elem<0>(77)).get() == (has[j] ? val[j] : 77), "value_or gave the wrong value");
                VX_ASSERT((o[j] == cetl::nullopt) == !has[j], "comparison with nullopt is wrong");
#if VX_EXC
                if (!has[j])
                {
                    bool thrown = false;
                    try { (void) o[j].value(); } catch (const cetl::bad_optional_access&) { thrown = true; }
                    VX_ASSERT(thrown, "value of an empty optional did not throw");
                }
#endif
            }
            VX_ASSERT((o[0] == o[1]) == (has[0] == has[1] && (!has[0] || val[0] == val[1])), "optionals compare wrongly");
        }
        VX_REACH("end");
    }
    life_end_check();
    end_path();
}

struct Sum
{
    u32 operator()(const Elem<0>& a) const { return a.get(); }
    u32 operator()(const Elem<1, 2>& a) const { return 0x100u + a.get(); }
    u32 operator()(u8 a) const { return 0x200u + a; }
};
VX_HARNESS(alias_variant)
{
    {
        throw_budget(1);
        using V = cetl::variant<u8, Elem<0>, Elem<1, 2>>;
        V           v;
        std::size_t ix  = 0;
        u8          val = 0;
        for (int i = 0; i < VX_K; ++i)
        {
            const u8 x      = sym8("x");
            bool     thrown = false;
            VX_TRY
            {
                switch (choice("op", 6))
                {
                case 0: (void) v.emplace<0>(x), ix = 0, val = x; break;
                case 1: (void) v.emplace<Elem<0>>(x), ix = 1, val = x; break;
                case 2: (void) v.emplace<Elem<1, 2>>(x), ix = 2, val = x; break;
                case 3: v = V(cetl::in_place_index_t<1>{}, x), ix = 1, val = x; break;
                case 4: v = V(cetl::in_place_type_t<u8>{}, x), ix = 0, val = x; break;
                default:
                {
                    V w(v);
                    VX_ASSERT(w.index() == v.index(), "copy of a variant holds another alternative");
                    V u(std::move(w));
                    VX_ASSERT(u.index() == v.index(), "moved variant holds another alternative");
                }
                }
            }
            VX_CATCH(const Boom&) { thrown = true; }
            if (thrown)
            {
                VX_ASSERT(v.valueless_by_exception() == (v.index() == cetl::variant_npos), "valueless_by_exception and index disagree");
                if (v.valueless_by_exception())
                {
#if VX_EXC
                    bool bad = false;
                    try { (void) cetl::get<0>(v); } catch (const cetl::bad_variant_access&) { bad = true; }
                    VX_ASSERT(bad, "access to a valueless variant did not throw");
                    bad = false;
                    try { (void) cetl::visit(Sum{}, v); } catch (const cetl::bad_variant_access&) { bad = true; }
                    VX_ASSERT(bad, "visit of a valueless variant did not throw");
#endif
                    ix = 0, val = x;
                    (void) v.emplace<0>(x);
                }
            }
            VX_ASSERT(v.index() == ix && !v.valueless_by_exception(), "variant holds another alternative");
            VX_ASSERT(cetl::holds_alternative<Elem<0>>(v) == (ix == 1), "holds_alternative is wrong");
            VX_ASSERT((cetl::get_if<2>(&v) != nullptr) == (ix == 2), "get_if is wrong");
            VX_ASSERT(cetl::visit(Sum{}, v) == (ix == 0 ? 0x200u : ix == 1 ? 0u : 0x100u) + val, "visit went to another alternative or value");
            if (ix == 0) VX_ASSERT(cetl::get<u8>(v) == val && cetl::get<0>(v) == val, "get gave the wrong value");
        }
        VX_ASSERT(cetl::variant_size<V>::value == 3, "variant_size is wrong");
        VX_REACH("end");
    }
    life_end_check();
    end_path();
}

VX_HARNESS(alias_views)
{
    {
        constexpr u64 N = VX_N;
        char          text[N];
        u8            bytes[N];
        for (u64 i = 0; i < N; ++i) bytes[i] = sym8("b"), text[i] = static_cast<char>(bytes[i]);
        const u64           n = pick("n", 0, N), at = pick("at", 0, n), len = range("len", 0, ~u64(0));
        const u64           left = n - at, got = len < left ? len : left;
        cetl::string_view   s(text, n);
        VX_ASSERT(s.size() == n && s.length() == n && s.empty() == (n == 0) && s.data() == text, "string view does not cover its characters");
        for (u64 i = 0; i < n; ++i) VX_ASSERT(s[i] == text[i] && s.begin()[static_cast<std::ptrdiff_t>(i)] == text[i], "string view gives the wrong character");
        const cetl::string_view t = s.substr(at, len);
        VX_ASSERT(t.data() == text + at && t.size() == got, "substr is wrong");
        const char c   = static_cast<char>(sym8("c"));
        u64        fst = cetl::string_view::npos;
        for (u64 i = 0; i < n; ++i)
            if (text[i] == c && fst == cetl::string_view::npos) fst = i;
        VX_ASSERT(s.find(c) == fst, "find is wrong");
        // ordering by unsigned characters, then by length
        const cetl::string_view u = s.substr(0, at);
        int                     want = 0;
        for (u64 i = 0; want == 0 && i < u.size() && i < t.size(); ++i)
            if (u[i] != t[i]) want = static_cast<u8>(u[i]) < static_cast<u8>(t[i]) ? -1 : 1;
        if (want == 0) want = u.size() < t.size() ? -1 : u.size() > t.size() ? 1 : 0;
        VX_ASSERT((u < t) == (want < 0) && (u == t) == (want == 0) && (u > t) == (want > 0) && (u != t) == (want != 0), "string views compare wrongly");
        cetl::span<u8> d(bytes, n);
        VX_ASSERT(d.size() == n && d.data() == bytes && d.size_bytes() == n && d.empty() == (n == 0), "span does not cover its elements");
        VX_ASSERT(decltype(d)::extent == cetl::dynamic_extent && cetl::dynamic_extent == ~std::size_t(0), "dynamic extent differs between standards");
        const auto e = d.subspan(at);
        VX_ASSERT(e.size() == left && e.data() == bytes + at, "subspan is wrong");
        const auto f = d.first(at);
        const auto l = d.last(left);
        VX_ASSERT(f.size() == at && f.data() == bytes && l.size() == left && l.data() == bytes + at, "first or last is wrong");
        u64 k = 0;
        for (const u8 b : d) { VX_ASSERT(b == bytes[k], "iteration over a span gives the wrong element"); ++k; }
        VX_ASSERT(k == n, "iteration over a span has the wrong length");
        cetl::span<u8, N> g(bytes);
        VX_ASSERT(g.size() == N && g.front() == bytes[0] && g.back() == bytes[N - 1] && decltype(g)::extent == N, "fixed span is wrong");
        end_checks();
    }
    end_path();
}
}  // namespace vx
