// Monotonic buffer resource: disjoint aligned blocks, complete release (C11).
#include "vxlib.hpp"
#include <cetl/pf17/sys/memory_resource.hpp>

#ifndef VX_N
#    define VX_N 12  // initial buffer size
#endif
#ifndef VX_A
#    define VX_A 3  // alignments
#endif
#ifndef VX_C
#    define VX_C 3  // initial buffer sizes
#endif
#ifndef VX_K
#    define VX_K 3  // operations
#endif

using namespace vx;
namespace
{
/// Upstream that hands out memory at addresses with exactly the requested alignment (and no more).
class Exact final : public cetl::pf17::pmr::memory_resource
{
public:
    struct B
    {
        unsigned char* raw;
        unsigned char* p;
        std::size_t    size, align;
        bool           live;
    };
    static constexpr std::size_t Limit = 200;
    B                            b[8];
    int                          n     = 0;
    int                          calls = 0;
    std::size_t                  max   = ~std::size_t(0);

private:
    void* do_allocate(std::size_t size, std::size_t align) override
    {
        ++calls;
        VX_ASSERT_M(align != 0 && (align & (align - 1)) == 0, "upstream asked for an alignment that is not a power of two");
        VX_ASSERT(calls <= 8 * VX_K, "the resource keeps asking upstream");
        if (n >= 8 || size > Limit || size > max || oom_now())
        {
#if VX_EXC
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        const std::size_t pad = align < 64 ? align : 0;
        b[n].raw   = static_cast<unsigned char*>(aligned_alloc(64, 64 * ((Limit + 64 + 63) / 64)));
        b[n].p     = b[n].raw + pad;
        b[n].size  = size;
        b[n].align = align;
        b[n].live  = true;
        return b[n++].p;
    }
    void do_deallocate(void* p, std::size_t size, std::size_t align) override
    {
        for (int i = 0; i < n; ++i)
            if (b[i].live && b[i].p == p)
            {
                VX_ASSERT_M(b[i].size == size && b[i].align == align, "upstream block returned with a different size or alignment");
                b[i].live = false;
                std::free(b[i].raw);
                return;
            }
        VX_ASSERT_M(false, "upstream was given back a block that is not outstanding");
    }
    bool        do_is_equal(const cetl::pf17::pmr::memory_resource& rhs) const noexcept override { return &rhs == this; }
    std::size_t do_max_size() const noexcept override { return max; }
};

std::size_t pick_align()
{
    // alignments below, at and above that of the resource's own bookkeeping
    static const std::size_t a[] = {1, 4, 32, 2, 8, 16, 64};
    return a[choice("align", VX_A)];
}
std::size_t pick_cap()
{
    static const std::size_t c[] = {VX_N, 0, 3, 1, 2, 4, 5, 6};
    return c[choice("cap", VX_C)];
}
std::size_t pick_size()
{
#ifdef VX_SIZES
    static const std::size_t c[] = {1, 3, VX_N, VX_N + 4, 2, 5, 40};
    return c[choice("size", VX_SIZES)];
#else
    return range("size", 1, VX_N + 4);
#endif
}
struct Slot
{
    unsigned char* p = nullptr;
    std::size_t    size = 0;
    u8             first = 0, last = 0;
};
alignas(64) unsigned char storage[8 + VX_N];

template <typename M>
struct Machine
{
    M&             m;
    Exact*         up;
    unsigned char* buf;
    std::size_t    cap;
    Slot           s[VX_K];
    int            n = 0;

    bool placed(const unsigned char* p, std::size_t size) const
    {
        if (buf && p >= buf && p + size <= buf + cap) return true;
        if (up)
            for (int i = 0; i < up->n; ++i)
                if (up->b[i].live && p >= up->b[i].p && p + size <= up->b[i].p + up->b[i].size) return true;
        return false;
    }
    void intact()
    {
        for (int i = 0; i < n; ++i)
        {
            VX_ASSERT(s[i].p[0] == s[i].first && s[i].p[s[i].size - 1] == s[i].last, "contents of an earlier block changed");
        }
    }
    void allocate()
    {
        const std::size_t a    = pick_align();
        const bool        big  = flag("big");
        const std::size_t size = big ? range("bytes", Exact::Limit + 1, ~u64(0)) : pick_size();
        const int         f0 = mem().failures;
        void*             r      = nullptr;
        bool              failed = false;
        VX_TRY { r = m.allocate(size, a); }
        VX_CATCH(const std::bad_alloc&) { failed = true; }
#if VX_EXC
        VX_ASSERT(failed || r != nullptr, "allocation returned null although exceptions are enabled");
#endif
        if (r == nullptr) failed = true;
        if (failed)
        {
            VX_REACH("failed");
            VX_ASSERT(big || mem().failures > f0 || up == nullptr || up->max < 1000, "a request that upstream can satisfy failed");
            intact();
            return;
        }
        unsigned char* p = static_cast<unsigned char*>(r);
        VX_ASSERT(!big, "a request larger than all available memory succeeded");
        VX_ASSERT((reinterpret_cast<std::uintptr_t>(p) & (a - 1)) == 0, "block is misaligned");
        VX_ASSERT(placed(p, size), "block lies outside the initial buffer and the memory obtained from upstream");
        for (int i = 0; i < n; ++i) VX_ASSERT(p + size <= s[i].p || s[i].p + s[i].size <= p, "blocks overlap");
        s[n].p     = p;
        s[n].size  = size;
        s[n].first = sym8("first");
        s[n].last  = size > 1 ? sym8("last") : s[n].first;
        p[0]        = s[n].first;
        p[size - 1] = s[n].last;
        ++n;
        intact();
    }
    void release()
    {
        m.release();
        n = 0;
        if (up)
            for (int i = 0; i < up->n; ++i) VX_ASSERT_M(!up->b[i].live, "release kept an upstream block");
        if (buf && cap > 0)
        {
            VX_REACH("released");
        }
    }
    void deallocate()
    {
        if (n == 0) return;
        const u64 i = choice("slot", static_cast<u64>(n));
        m.deallocate(s[i].p, s[i].size, 1);  // no effect until release
        intact();
    }
    void run()
    {
        for (int k = 0; k < VX_K; ++k)
        {
            const u64 op = k == 0 ? 0 : choice("op", 3);
            if (k == 1) __vx_shard(op);
            if (op == 0) allocate();
            if (op == 1) release();
            if (op == 2) deallocate();
        }
    }
};
void end(Exact& up)
{
    for (int i = 0; i < up.n; ++i) VX_ASSERT_M(!up.b[i].live, "destruction kept an upstream block");
    VX_REACH("end");
    end_path();
}
}  // namespace

VX_HARNESS(mono_buffer)
{
    Exact             up;
    const std::size_t off = choice("offset", 2);
    const std::size_t cap = pick_cap();
    __vx_shard(cap);
    oom_budget(1);
    {
        cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource m{storage + off, cap, &up};
        VX_ASSERT(m.upstream_resource() == &up, "upstream_resource differs from the one given");
        Machine<cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource> k{m, &up, storage + off, cap};
        k.run();
        if (cap > 0)
        {
            k.release();
            const int calls = up.calls;
            void*     r     = nullptr;
            VX_TRY { r = m.allocate(cap, 1); }
            VX_CATCH(const std::bad_alloc&) {}
            VX_ASSERT(r == storage + off && up.calls == calls, "the initial buffer is not available again after release");
        }
    }
    end(up);
}
VX_HARNESS(mono_no_buffer)
{
    // the initial size is only a hint; any 64-bit value may be given
    Exact             up;
    const bool        huge = flag("huge_hint");
    const std::size_t hint = huge ? range("hint", ~u64(0) - 64, ~u64(0)) : range("hint", 0, 40);
    __vx_shard(huge);
    oom_budget(1);
    {
        cetl::pf17::pmr::monotonic_buffer_resource m{hint, &up};
        Machine<cetl::pf17::pmr::monotonic_buffer_resource> k{m, &up, nullptr, 0};
        if (huge)
        {
            // such a first block cannot be obtained: failure, not corruption
            void* r = nullptr;
            VX_TRY { r = m.allocate(8, 8); }
            VX_CATCH(const std::bad_alloc&) {}
            VX_ASSERT(r == nullptr || k.placed(static_cast<unsigned char*>(r), 8), "block lies outside the memory obtained from upstream");
        }
        else
            k.run();
    }
    end(up);
}
VX_HARNESS(mono_default_hint)
{
    Exact up;
    oom_budget(1);
    up.max = pick("upmax", 0, 2) * 60;
    __vx_shard(up.max);
    {
        cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource m{&up};
        Machine<cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource> k{m, &up, nullptr, 0};
        k.run();
    }
    end(up);
}
VX_HARNESS(mono_null_upstream)
{
    const std::size_t off = choice("offset", 2);
    const std::size_t cap = pick_cap();
    __vx_shard(cap);
    cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource m{storage + off, cap};
    Machine<cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource> k{m, nullptr, storage + off, cap};
    k.run();
    // releasing makes the whole buffer available again
    k.release();
    if (cap > 0)
    {
        void* r = nullptr;
        VX_TRY { r = m.allocate(cap, 1); }
        VX_CATCH(const std::bad_alloc&) {}
        VX_ASSERT(r == storage + off, "the initial buffer is not available again after release");
    }
    VX_REACH("end");
    end_path();
}
VX_HARNESS(mono_overflow)
{
    // sizes near the top of the address range, every alignment
    Exact             up;
    const std::size_t size = range("size", ~u64(0) - 256, ~u64(0));
    const std::size_t a    = std::size_t(1) << choice("align", 12);
    {
        cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource m{storage, std::size_t(flag("cap") ? VX_N : 0), &up};
        void*                                                     r = nullptr;
        VX_TRY { r = m.allocate(size, a); }
        VX_CATCH(const std::bad_alloc&) {}
        VX_ASSERT(r == nullptr, "a request larger than all available memory succeeded");
    }
    end(up);
}
VX_HARNESS(mono_max_size)
{
    Exact             up;
    const std::size_t cap = sym64("cap");
    up.max                = sym64("upmax");
    __vx_shard(0);
    __vx_shard(0);
    {
        cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource m{storage, cap, &up}, n{storage, cap, &up};
        const std::size_t                                         sum = cap + up.max;
        const std::size_t                                         got = m.max_size();
        VX_ASSERT(sum < cap || sum == ~u64(0) || got == sum, "maximum size does not account for both the buffer and upstream");
        VX_ASSERT(got >= up.max, "maximum size is less than what upstream provides");
        VX_ASSERT(m.is_equal(m) && !m.is_equal(n) && !n.is_equal(up), "a resource is equal to another one");
    }
    end(up);
}
