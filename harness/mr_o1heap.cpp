// Memory resource on top of o1heap: every request reaches the heap unchanged (C30). The heap itself is a model: any
// request may fail, any other is served with a block of its own.
#include "vxlib.hpp"
#include <cetl/pmr/o1heap_memory_resource_delegate.hpp>

#ifndef VX_K
#    define VX_K 4  // operations
#endif

using namespace vx;
struct O1HeapInstance { int dummy; };
namespace
{
struct Heap
{
    O1HeapInstance self{};
    void*          base = nullptr;
    std::size_t    size = 0;
    int            inits = 0, allocs = 0, frees = 0;
    std::size_t    amount = 0;
    void*          block = nullptr;  // returned by the last request
    void*          freed = nullptr;  // given to the last release
    bool           fails = false;
};
Heap* g_heap[2];
Heap* g_next;
Heap* heap_of(O1HeapInstance* h)
{
    for (Heap* p : g_heap)
        if (p != nullptr && h == &p->self) return p;
    VX_ASSERT_M(false, "the heap was called with a handle it did not issue");
    return g_heap[0];
}
struct alignas(O1HEAP_ALIGNMENT) Block { unsigned char b[8]; };
Block g_pool[2 * VX_K + 2];
int   g_used;
}  // namespace
extern "C" O1HeapInstance* o1heapInit(void* const base, const size_t size)
{
    ++g_next->inits;
    g_next->base = base;
    g_next->size = size;
    return &g_next->self;
}
extern "C" void* o1heapAllocate(O1HeapInstance* const handle, const size_t amount)
{
    Heap* const h = heap_of(handle);
    ++h->allocs;
    h->amount = amount;
    h->fails  = symbool("fails");
    h->block  = h->fails ? nullptr : static_cast<void*>(&g_pool[g_used++]);
    return h->block;
}
extern "C" void o1heapFree(O1HeapInstance* const handle, void* const pointer)
{
    Heap* const h = heap_of(handle);
    ++h->frees;
    h->freed = pointer;
}
namespace
{
using Res1 = cetl::pmr::UnsynchronizedO1HeapMemoryResourceDelegate;
struct Side
{
    Heap  h;
    void* live[VX_K + 1];
    int   n = 0;
};
void step(Res1& r, Side& s, const Side& other)
{
    Heap&     h = s.h;
    const int a0 = h.allocs, f0 = h.frees, oa = other.h.allocs, of = other.h.frees;
    if (s.n > 0 && flag("release"))
    {
        const u64 i = choice("which", static_cast<u64>(s.n));
        void*     p = s.live[i];
        s.live[i]   = s.live[--s.n];
        if (flag("null")) { p = nullptr; }
        if (flag("plain"))
            r.deallocate(p, sym64("size"));
        else
            r.deallocate(p, sym64("size"), std::size_t(1) << choice("align", 5));
        VX_ASSERT_M(p == nullptr || h.frees == f0 + 1, "the block did not go back to the heap exactly once");
        VX_ASSERT_M(h.frees == f0 || (h.frees == f0 + 1 && h.freed == p), "another block went back to the heap");
        VX_ASSERT_M(h.allocs == a0, "releasing a block requested another one");
    }
    else
    {
        const std::size_t size = sym64("size");
        void*             p    = nullptr;
        bool              threw = false;
        const bool        plain = flag("plain");
        VX_TRY { p = plain ? r.allocate(size) : r.allocate(size, std::size_t(1) << choice("align", 5)); }
        VX_CATCH(const std::bad_alloc&) { threw = true; }
        VX_ASSERT_M(h.allocs == a0 + 1 && h.amount == size, "the request did not reach the heap exactly once and unchanged");
        VX_ASSERT_M(h.frees == f0, "a request released a block");
        VX_ASSERT(p == h.block, "the block of the heap was not handed over");
        VX_ASSERT(threw == (h.fails && VX_EXC), "failure of the heap was not reported, or success was reported as failure");
        if (p != nullptr) s.live[s.n++] = p;
    }
    VX_ASSERT_M(other.h.allocs == oa && other.h.frees == of, "a request went to another heap");
}
/// Two resources over buffers of any size.
void run(bool storage)
{
    {
        static Side a, b;
        a = Side();
        b = Side();
        g_heap[0] = &a.h;
        g_heap[1] = &b.h;
        g_used    = 0;
        static unsigned char   x[1], y[1];
        static cetl::pmr::O1HeapAlignedStorage<40> st;
        static_assert(decltype(st)::size_bytes == 40, "");
        const u64 n = storage ? 40 : sym64("n"), m = sym64("m");
        void* const at = storage ? static_cast<void*>(&st.storage) : x;
        auto go = [&](Res1& r) {
            VX_ASSERT(a.h.inits == 1 && a.h.base == at && a.h.size == n, "the heap was not made of the given buffer");
            g_next = &b.h;
            Res1 q(y, m);
            VX_ASSERT(b.h.inits == 1 && b.h.base == y && b.h.size == m && a.h.inits == 1, "the heap was not made of the given buffer");
            const u64 first = choice("first", 2);
            __vx_shard(first);
            for (int k = 0; k < VX_K; ++k)
            {
                const bool t = k == 0 ? first != 0 : flag("turn");
                if (k == 1) __vx_shard(t);
                if (t) step(q, b, a);
                else step(r, a, b);
                VX_ASSERT(r.max_size() == n && q.max_size() == m, "maximum size is wrong");
            }
        };
        g_next = &a.h;
        if (storage)
        {
            VX_ASSERT((reinterpret_cast<std::uintptr_t>(&st.storage) & (O1HEAP_ALIGNMENT - 1)) == 0 && sizeof(st.storage) >= 40, "storage is too small or misaligned");
            Res1 r(st);
            go(r);
        }
        else
        {
            Res1 r(x, n);
            go(r);
        }
    }
    end_checks();
    end_path();
}
}  // namespace
VX_HARNESS(o1heap_buffer) { run(false); }
VX_HARNESS(o1heap_storage) { run(true); }
