// Fixed-buffer memory resources: single ownership of the buffer (C09), reallocation (C10).
#include "vxlib.hpp"
#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pmr/buffer_memory_resource_delegate.hpp>

#ifndef VX_N
#    define VX_N 9  // buffer size
#endif
#ifndef VX_K
#    define VX_K 3  // operations
#endif
#ifndef VX_REALLOC
#    define VX_REALLOC 1
#endif

using namespace vx;
namespace
{
constexpr std::size_t Window = 2 * VX_N;  // size of the objects from which upstream serves requests
struct Slot
{
    unsigned char* p = nullptr;
    std::size_t    size = 0, align = 1;
    bool           inner = false;
    std::size_t    at = 0;  // some byte of the block (symbolic: every byte) and the value stored there
    u8             v  = 0;
};
bool aligned(const void* p, std::size_t a) { return (reinterpret_cast<std::uintptr_t>(p) & (a - 1)) == 0; }

template <typename M>
struct Machine
{
    M&             m;
    Res&           up;
    unsigned char* buf;
    std::size_t    cap, upmax;
    bool           enumerate;  // index enumerated instead of symbolic
    Slot           s[VX_K + 2];
    int            n = 0;
    std::size_t    max_align = 8, limit = Window;

    std::size_t pick_align(const char* n) const { return max_align == 1 ? 1 : std::size_t(1) << choice(n, 4); }
    bool inside(const unsigned char* p, std::size_t size) const { return p >= buf && p + size <= buf + cap; }
    int  inner() const
    {
        for (int i = 0; i < n; ++i)
            if (s[i].p && s[i].inner) return i;
        return -1;
    }
    // offset of the first address of the buffer aligned as requested
    std::size_t gap(std::size_t a) const { return (a - (reinterpret_cast<std::uintptr_t>(buf) & (a - 1))) & (a - 1); }
    bool        fits(std::size_t size, std::size_t a) const { return gap(a) <= cap && size <= cap - gap(a); }
    void        fill(Slot& t)
    {
        t.at = sym8("at");
        __vx_assume(t.at < t.size && t.at < Window);
        if (enumerate) t.at = __vx_concretize(t.at);
        t.v       = sym8("v");
        t.p[t.at] = t.v;
    }
    void intact(const Slot& t) { VX_ASSERT(t.p[t.at] == t.v, "contents of an outstanding block changed"); }
    void intact_all()
    {
        for (int i = 0; i < n; ++i)
            if (s[i].p) intact(s[i]);
    }
    void allocate(bool forced = false)
    {
        const std::size_t size = forced ? range("size0", 1, VX_N + 1) : range("size", 1, ~u64(0));
        const std::size_t a    = pick_align("align");
        const bool        want_inner = inner() < 0 && size <= cap && fits(size, a);
        const bool        want_up    = !want_inner && size <= upmax;
        const std::size_t ua = up.allocs;
        void*             r      = nullptr;
        bool              failed = false;
        VX_TRY { r = m.allocate(size, a); }
        VX_CATCH(const std::bad_alloc&) { failed = true; }
#if VX_EXC
        VX_ASSERT(failed || r != nullptr, "allocation returned null although exceptions are enabled");
#endif
        if (r == nullptr) failed = true;
        if (want_inner)
        {
            VX_ASSERT(!failed, "request that fits the free buffer was refused");
            VX_ASSERT(inside(static_cast<unsigned char*>(r), size), "request that fits the free buffer was not served from it, or the block leaves the buffer");
            VX_ASSERT(aligned(r, a), "block from the buffer is misaligned");
            VX_ASSERT(up.allocs == ua, "upstream was asked although the buffer could serve the request");
        }
        else
        {
            VX_ASSERT(up.allocs == ua + (want_up ? 1 : 0), "request was not passed to upstream exactly once");
            if (want_up) VX_ASSERT(up.last_size == size && up.last_align == a, "request was changed on its way to upstream");
            if (!failed)
            {
                Block* b = mem_find(r);
                VX_ASSERT(b != nullptr && b->size == size && b->align == a, "block is neither inside the free buffer nor the block obtained from upstream");
                VX_ASSERT(aligned(r, a), "block is misaligned");
            }
            else
                VX_ASSERT(!want_up || size > limit || faulted(), "request that upstream satisfied was reported as failed");
        }
        if (!failed)
        {
            s[n].p     = static_cast<unsigned char*>(r);
            s[n].size  = size;
            s[n].align = a;
            s[n].inner = want_inner;
            fill(s[n]);
            ++n;
        }
        else
            VX_REACH("failed");
        intact_all();
    }
    int pick_slot()
    {
        if (n == 0) return -1;
        const int i = static_cast<int>(choice("slot", static_cast<u64>(n)));
        return s[i].p ? i : -1;
    }
    void release(int i)
    {
        intact(s[i]);
        const std::size_t d = up.deallocs;
        m.deallocate(s[i].p, s[i].size, s[i].align);
        VX_ASSERT(up.deallocs == d + (s[i].inner ? 0 : 1), "block was not returned to where it came from");
        s[i].p = nullptr;
        intact_all();
    }
    void reallocate(int i)
    {
        Slot&             t    = s[i];
        const std::size_t size = range("newsize", 1, ~u64(0));
        const std::size_t a    = t.inner ? pick_align("realign") : t.align;
        void*             r    = nullptr;
        VX_TRY { r = m.reallocate(t.p, t.size, size, a); }
        VX_CATCH(const std::bad_alloc&) {}
        if (r == nullptr)
        {
            VX_REACH("realloc-failed");
            intact(t);  // the old block is still ours
        }
        else
        {
            VX_REACH("realloc-ok");
            VX_ASSERT(aligned(r, a), "reallocated block is misaligned");
            unsigned char* q = static_cast<unsigned char*>(r);
            const bool     in = inside(q, size);
            VX_ASSERT(in || (mem_find(r) != nullptr && mem_find(r)->size == size && mem_find(r)->align == a), "reallocated block is neither inside the buffer nor a block obtained from upstream");
            if (in) VX_ASSERT(inner() < 0 || inner() == i, "buffer handed out a second time by a reallocation");
            if (t.at < size) VX_ASSERT(q[t.at] == t.v, "reallocation lost contents");
            t.p     = q;
            t.size  = size;
            t.align = a;
            t.inner = in;
            fill(t);
        }
        intact_all();
    }
    void run()
    {
#if VX_REALLOC
        allocate(true);
#endif
        for (int k = 0; k < VX_K; ++k)
        {
            const u64 op = choice("op", VX_REALLOC ? 3 : 2);
            if (k == 0) __vx_shard(op);
            if (op == 0)
                allocate();
            else
            {
                const int i = pick_slot();
                if (i < 0) continue;
                if (op == 1)
                    release(i);
                else
                    reallocate(i);
            }
        }
        for (int i = 0; i < n; ++i)
            if (s[i].p) release(i);
        // the buffer is free again
        if (cap > 0)
        {
            void* r = nullptr;
            VX_TRY { r = m.allocate(cap, 1); }
            VX_CATCH(const std::bad_alloc&) {}
            VX_ASSERT(r == buf, "the whole buffer is not available after every block was returned");
            m.deallocate(r, cap, 1);
        }
    }
};
std::size_t pick_upmax()
{
    const u64 c = choice("upmax", 3);
    return c == 0 ? 0 : c == 1 ? 6 : ~std::size_t(0);
}
alignas(64) unsigned char storage[8 + 4 + VX_N];
alignas(64) unsigned char arena[3 * VX_N];

template <typename M>
void go(M& m, Res& up, unsigned char* buf, std::size_t cap, std::size_t upmax, bool enumerate)
{
    oom_budget(1);
    mem().refuse = 1;
    Machine<M> k{m, up, buf, cap, upmax, enumerate};
    k.run();
    mem_end();
    VX_REACH("end");
}
}  // namespace

VX_HARNESS(buffer_resource)
{
    Res               up{1, Re::Move};
    up.fixed = Window;
    const std::size_t upmax = pick_upmax();
    const std::size_t off   = choice("offset", 4);
    __vx_shard(off);
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource m{storage + 8 + off, VX_N, &up, upmax};
    VX_ASSERT(m.data() == storage + 8 + off && m.size() == VX_N, "data or size differ from the given buffer");
    go(m, up, storage + 8 + off, VX_N, upmax, false);
    end_path();
}
/// Upstream blocks directly before and behind the buffer.
VX_HARNESS(buffer_adjacent)
{
    Res               up{1, Re::Move};
    const std::size_t upmax  = ~std::size_t(0);
    const bool        before = flag("before");
    __vx_shard(before);
    up.fixed = VX_N;
    up.place = before ? arena : arena + 2 * VX_N;
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource m{arena + VX_N, VX_N, &up, upmax};
    oom_budget(1);
    Machine<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource> k{m, up, arena + VX_N, VX_N, upmax, true};
    k.max_align = 1;
    k.limit     = VX_N;
    k.run();
    mem_end();
    VX_REACH("end");
    end_path();
}
VX_HARNESS(buffer_resource_moved)
{
    Res               up{1, Re::Move};
    up.fixed = Window;
    const std::size_t upmax = ~std::size_t(0);
    __vx_shard(0);
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource m0{storage + 8, VX_N, &up, upmax};
    void*                                               r = nullptr;
    VX_TRY { r = m0.allocate(2, 1); }
    VX_CATCH(const std::bad_alloc&) {}
    VX_ASSERT(r == storage + 8, "free buffer did not serve the request");
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource m{std::move(m0)};
    Machine<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource> k{m, up, storage + 8, VX_N, upmax, false};
    k.s[0].p     = static_cast<unsigned char*>(r);
    k.s[0].size  = 2;
    k.s[0].inner = true;
    k.n          = 1;
    k.fill(k.s[0]);
    oom_budget(1);
    k.run();
    mem_end();
    VX_REACH("end");
    end_path();
}
VX_HARNESS(array_resource)
{
    Res               up{1, Re::Move};
    up.fixed = Window;
    const std::size_t upmax = pick_upmax();
    __vx_shard(upmax);
    cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<VX_N> m{&up, upmax};
    VX_ASSERT(m.size() == VX_N, "size differs from the array size");
    unsigned char* buf = static_cast<unsigned char*>(m.data());
    VX_ASSERT(buf >= reinterpret_cast<unsigned char*>(&m) && buf + VX_N <= reinterpret_cast<unsigned char*>(&m) + sizeof(m), "buffer outside the resource");
    go(m, up, buf, VX_N, upmax, true);
    end_path();
}
VX_HARNESS(null_upstream)
{
    // without an upstream only the buffer can serve requests
    const std::size_t off = choice("offset", 2);
    __vx_shard(off);
    unsigned char*                                           buf = storage + 8 + off;
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource      m{buf, VX_N};
    cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<VX_N> am{};
    VX_ASSERT(m.max_size() == VX_N && am.max_size() == VX_N, "max_size differs from the size of the buffer");
    Res                                                      none{1};
    Machine<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource> k{m, none, buf, VX_N, 0, false};
    k.run();
    VX_REACH("end");
}
/// Upstream without a reallocate function: its blocks cannot be reallocated, and nothing may be lost by trying.
struct Plain
{
    Res         r{1};
    std::size_t allocs = 0, deallocs = 0, last_size = 0, last_align = 0;
    void*       allocate(std::size_t s, std::size_t a) { return r.allocate(s, a); }
    void        deallocate(void* p, std::size_t s, std::size_t a) { r.deallocate(p, s, a); }
};
VX_HARNESS(delegate_plain)
{
    Plain             up;
    up.r.fixed = Window;
    const std::size_t upmax = pick_upmax();
    const std::size_t off   = choice("offset", 2);
    __vx_shard(off);
    unsigned char* buf = storage + 8 + off;
    using D            = cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<Plain>;
    D m{buf, VX_N, &up, upmax};
    VX_ASSERT(m.upstream_resource() == &up, "upstream_resource differs from the one given");
    Machine<D> k{m, up.r, buf, VX_N, upmax, false};
    oom_budget(1);
    k.run();
    mem_end();
    VX_REACH("end");
    end_path();
}
VX_HARNESS(buffer_max_size)
{
    const u64                                           a = sym64("buffer_size"), b = sym64("upstream_max");
    Res                                                 up{1};
    cetl::pf17::pmr::UnsynchronizedBufferMemoryResource m{storage, a, &up, b};
    const u64                                           d = ~u64(0) / 2;
    const u64 x = a < d ? a : d, y = b < d ? b : d;
    VX_ASSERT(m.max_size() == (x + y < d ? x + y : d), "max_size is not the saturated sum of buffer and upstream sizes");
    VX_ASSERT(m.size() == a, "size differs from the given buffer size");
    VX_REACH("end");
}
