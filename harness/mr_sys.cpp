// System and null resources (C12), reallocation through the system resource (C10), process-wide resources (C13).
#include "vx.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdlib>
#include <limits>
#include <memory>
#include <new>
#include <tuple>
// The C library's allocation functions, as seen by the code under test: may fail, blocks are exact.
namespace vx
{
struct Sys
{
    int  fail = 0, failed = 0;
    bool on = false;
};
inline Sys& sys()
{
    static Sys s;
    return s;
}
inline bool sys_fails(std::size_t n)
{
    if (n > 1000) return true;  // exhaustion
    if (sys().fail <= 0 || !flag("oom")) return false;
    --sys().fail;
    ++sys().failed;
    return true;
}
}  // namespace vx
#ifdef VX_NATIVE
extern "C" long vx_malloc_outstanding;
#    define VX_COUNT(x) (vx_malloc_outstanding += (x))
#else
#    define VX_COUNT(x) static_cast<void>(0)
#endif
namespace vx
{
// Blocks are aligned for every fundamental type but for nothing beyond; a header in front keeps the size.
inline void* sys_get(std::size_t n)
{
    VX_COUNT(1);
#ifdef VX_NATIVE
    unsigned char* p = static_cast<unsigned char*>(::aligned_alloc(64, (16 + n + 63) / 64 * 64));
#else
    unsigned char* p = static_cast<unsigned char*>(::aligned_alloc(64, 16 + n));
#endif
    ::memcpy(p, &n, sizeof(n));
    return p + 16;
}
inline std::size_t sys_size(void* p)
{
    std::size_t n = 0;
    ::memcpy(&n, static_cast<unsigned char*>(p) - 16, sizeof(n));
    return n;
}
inline void sys_put(void* p)
{
    VX_COUNT(-1);
    ::free(static_cast<unsigned char*>(p) - 16);
}
}  // namespace vx
namespace std
{
inline void* vx_malloc(std::size_t n) { return vx::sys_fails(n) ? nullptr : vx::sys_get(n); }
inline void* vx_calloc(std::size_t a, std::size_t b)
{
    if (b != 0 && a > ~std::size_t(0) / b) return nullptr;
    if (vx::sys_fails(a * b)) return nullptr;
    void* p = vx::sys_get(a * b);
    ::memset(p, 0, a * b);
    return p;
}
inline void vx_free(void* p)
{
    if (p) vx::sys_put(p);
}
inline void* vx_realloc(void* p, std::size_t n)
{
    if (p && n == 0)
    {
        vx_free(p);
        return nullptr;
    }
    if (vx::sys_fails(n)) return nullptr;
    void* q = vx::sys_get(n);
    if (p)
    {
        const std::size_t o = vx::sys_size(p);
        ::memcpy(q, p, o < n ? o : n);
        vx_free(p);
    }
    return q;
}
}  // namespace std
using std::vx_malloc;
using std::vx_calloc;
using std::vx_free;
using std::vx_realloc;
#define malloc vx_malloc
#define calloc vx_calloc
#define free vx_free
#define realloc vx_realloc
#include <cetl/cetl.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#undef malloc
#undef calloc
#undef free
#undef realloc

#ifndef VX_K
#    define VX_K 3
#endif
#ifndef VX_N
#    define VX_N 8
#endif
#ifndef VX_REALLOC
#    define VX_REALLOC 1
#endif
using namespace vx;
namespace vx
{
bool faulted() { return sys().failed > 0; }
}  // namespace vx
using cetl::pf17::pmr::memory_resource;

namespace
{
struct Slot
{
    unsigned char* p = nullptr;
    std::size_t    size = 0, align = 1;
    u8             v[VX_N + 2];
};
struct Machine
{
    memory_resource& m;
    Slot             s[VX_K + 1];
    int              n = 0;
    bool             first = true;
    void             fill(Slot& t)
    {
        for (std::size_t i = 0; i < t.size; ++i) t.p[i] = t.v[i] = sym8("byte");
    }
    void intact(const Slot& t)
    {
        for (std::size_t i = 0; i < t.size; ++i) VX_ASSERT(t.p[i] == t.v[i], "contents of an outstanding block changed");
    }
    void allocate()
    {
        const u64         la   = choice("align", 7);
        if (n == 0 && first) __vx_shard(la);
        first                  = false;
        const std::size_t a    = std::size_t(1) << la;
        const bool        big  = flag("big");
        const std::size_t size = big ? range("bytes", 1001, ~u64(0)) : pick("size", 1, VX_N);
        const int         f0   = sys().failed;
        void*             r    = nullptr;
        bool              failed = false;
        VX_TRY { r = m.allocate(size, a); }
        VX_CATCH(const std::bad_alloc&) { failed = true; }
#if VX_EXC
        VX_ASSERT(failed || r != nullptr, "allocation failure reported as a null result although exceptions are enabled");
#endif
        if (r == nullptr) failed = true;
        const bool must_fail = big || sys().failed > f0;
        VX_ASSERT(!must_fail || failed, "allocation succeeded although the system had no memory");
        if (failed)
        {
            VX_REACH("failed");
            VX_ASSERT(must_fail || a > alignof(std::max_align_t), "a request the system can satisfy failed");
            return;
        }
        VX_REACH("allocated");
        VX_ASSERT((reinterpret_cast<std::uintptr_t>(r) & (a - 1)) == 0, "block is misaligned");
        for (int i = 0; i < n; ++i)
            if (s[i].p) VX_ASSERT(static_cast<unsigned char*>(r) + size <= s[i].p || s[i].p + s[i].size <= static_cast<unsigned char*>(r), "blocks overlap");
        s[n].p     = static_cast<unsigned char*>(r);
        s[n].size  = size;
        s[n].align = a;
        fill(s[n]);
        ++n;
    }
    void release(int i)
    {
        intact(s[i]);
        m.deallocate(s[i].p, s[i].size, s[i].align);
        s[i].p = nullptr;
    }
    void reallocate(int i)
    {
        Slot&             t    = s[i];
        const bool        big  = flag("big");
        const std::size_t size = big ? range("bytes", 1001, ~u64(0)) : pick("newsize", 1, VX_N + 1);
        const std::size_t a    = flag("over") ? 64 : t.align;
        const int         f0   = sys().failed;
        void*             r    = nullptr;
        VX_TRY { r = m.reallocate(t.p, t.size, size, a); }
        VX_CATCH(const std::bad_alloc&) {}
        if (r == nullptr)
        {
            VX_REACH("realloc-failed");
            VX_ASSERT(big || a == 64 || sys().failed > f0, "a reallocation the system can satisfy failed");
            intact(t);
            return;
        }
        VX_REACH("realloc-ok");
        VX_ASSERT(!big && sys().failed == f0, "reallocation succeeded although the system had no memory");
        VX_ASSERT((reinterpret_cast<std::uintptr_t>(r) & (a - 1)) == 0, "reallocated block is misaligned");
        unsigned char* q = static_cast<unsigned char*>(r);
        for (std::size_t k = 0; k < size && k < t.size; ++k) VX_ASSERT(q[k] == t.v[k], "reallocation lost contents");
        t.p    = q;
        t.size = size;
        fill(t);
    }
    void run()
    {
        allocate();
        for (int k = 1; k < VX_K; ++k)
        {
            const u64 op = choice("op", VX_REALLOC ? 3 : 2);
            if (k == 1) __vx_shard(op);
            if (op == 0)
            {
                allocate();
                continue;
            }
            if (n == 0) continue;
            const int i = static_cast<int>(choice("slot", static_cast<u64>(n)));
            if (!s[i].p) continue;
            if (op == 1) release(i);
            if (op == 2) reallocate(i);
        }
        for (int i = 0; i < n; ++i)
            if (s[i].p) release(i);
    }
};
}  // namespace

VX_HARNESS(sys_max_align)
{
    cetl::pf17::pmr::deviant::MaxAlignNewDeleteResource m;
    sys().fail = 1;
    VX_ASSERT(m.is_equal(m), "a resource is not equal to itself");
    Machine k{m};
    k.run();
    VX_REACH("end");
    __vx_leak_check();
}
VX_HARNESS(sys_new_delete)
{
    sys().fail = 1;
    Machine k{*cetl::pf17::pmr::new_delete_resource()};
    k.run();
    VX_REACH("end");
    __vx_leak_check();
}
VX_HARNESS(null_resource)
{
    memory_resource* m = cetl::pf17::pmr::null_memory_resource();
    VX_ASSERT(m == cetl::pf17::pmr::null_memory_resource(), "null_memory_resource is not a single object");
    VX_ASSERT(m->max_size() == 0, "null resource claims a capacity");
    const u64 size = sym64("size");
    const u64 a    = u64(1) << choice("align", 8);
    for (int k = 0; k < 2; ++k)
    {
        void* r      = nullptr;
        bool  failed = false;
        VX_TRY { r = m->allocate(size, a); }
        VX_CATCH(const std::bad_alloc&) { failed = true; }
        VX_ASSERT(r == nullptr, "the null resource provided memory");
        VX_ASSERT(failed == (VX_EXC != 0), "failure of the null resource was not reported");
        r = nullptr;
        VX_TRY { r = m->reallocate(nullptr, 0, size, a); }
        VX_CATCH(const std::bad_alloc&) {}
        VX_ASSERT(r == nullptr, "the null resource provided memory");
        m->deallocate(nullptr, size, a);
    }
    cetl::pf17::pmr::deviant::MaxAlignNewDeleteResource other;
    VX_ASSERT(m->is_equal(*m) && !m->is_equal(other) && !other.is_equal(*m), "equality of resources is wrong");
    VX_ASSERT(*m == *m && *m != other, "equality of resources is wrong");
    VX_REACH("end");
}
// ------------------------------------------------------------------------------------------- process-wide resources
namespace
{
struct Dummy final : memory_resource
{
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void  do_deallocate(void*, std::size_t, std::size_t) override {}
    bool  do_is_equal(const memory_resource& r) const noexcept override { return this == &r; }
};
Dummy            d[4];
memory_resource* builtin = nullptr;
memory_resource* arg(u64 c) { return c == 0 ? nullptr : static_cast<memory_resource*>(&d[c - 1]); }
}  // namespace
VX_HARNESS(default_seq)
{
    using namespace cetl::pf17::pmr;
    // model: the resource installed last; null while it is the built-in one, which becomes known when first seen
    memory_resource *nd = nullptr, *df = nullptr;
    bool             df_fixed = false;  // the default resource takes its initial value from new_delete_resource on first use
    auto             seen = [](memory_resource* m, memory_resource* r) {
        if (m != nullptr) return r == m;
        if (builtin == nullptr)
        {
            builtin = r;
            for (auto& x : d)
                if (r == &x) return false;
        }
        return r == builtin && r != nullptr;
    };
    for (int k = 0; k < VX_K; ++k)
    {
        const u64 op = choice("op", 5);
        if (k == 0) __vx_shard(op);
        if (k == 1) __vx_shard(op);
        if ((op == 1 || op >= 3) && !df_fixed)
        {
            df       = nd;
            df_fixed = true;
        }
        switch (op)
        {
        case 0: VX_ASSERT(seen(nd, new_delete_resource()), "new_delete_resource is not the installed one"); break;
        case 1: VX_ASSERT(seen(df, get_default_resource()), "get_default_resource is not the installed one"); break;
        case 2:
        {
            const u64 c = choice("nd", 3);
            VX_ASSERT(seen(nd, deviant::set_new_delete_resource(arg(c))), "set_new_delete_resource did not return the one it replaced");
            nd = arg(c);
            break;
        }
        case 3:
        {
            const u64 c = choice("df", 3);
            VX_ASSERT(seen(df, set_default_resource(arg(c))), "set_default_resource did not return the one it replaced");
            df = c == 0 ? nd : arg(c);
            break;
        }
        default:
        {
            monotonic_buffer_resource a{}, b{std::size_t(16)};
            unsigned char             x[4];
            monotonic_buffer_resource c{x, sizeof(x)};
            VX_ASSERT(seen(df, a.upstream_resource()) && seen(df, b.upstream_resource()) && seen(df, c.upstream_resource()), "default upstream is not the default resource");
        }
        }
    }
    VX_ASSERT(seen(nd, new_delete_resource()), "new_delete_resource is not the installed one");
    if (df_fixed) VX_ASSERT(seen(df, get_default_resource()), "get_default_resource is not the installed one");
    VX_ASSERT(builtin == nullptr || builtin != null_memory_resource(), "the built-in resource provides no memory");
    VX_REACH("end");
}
