// Process-wide resources under concurrent use (C13).  The file is compiled with the compiler's thread instrumentation:
// every access to shared memory, atomic or not, calls one of the functions below, which lets the scheduler switch threads there.
#include "vx.hpp"
#include <atomic>
#include <cetl/cetl.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>

#define VX_RT extern "C" __attribute__((disable_sanitizer_instrumentation, used, noinline))
namespace vx
{
bool faulted() { return false; }
}  // namespace vx
static int  guard_depth = 0;
static bool mt          = false;
VX_RT void vx_switch(const volatile void* p)
{
    if (mt && guard_depth == 0 && __vx_shared(const_cast<const void*>(p))) __vx_yield();
}
// Initialisation of function-local statics is exclusive: other threads wait for its end.
VX_RT int __cxa_guard_acquire(std::uint64_t* g)
{
    if (*reinterpret_cast<unsigned char*>(g)) return 0;
    ++guard_depth;
    return 1;
}
VX_RT void __cxa_guard_release(std::uint64_t* g)
{
    *reinterpret_cast<unsigned char*>(g) = 1;
    --guard_depth;
}
VX_RT void __cxa_guard_abort(std::uint64_t*) { --guard_depth; }
VX_RT void __tsan_init() {}
VX_RT void __tsan_func_entry(void*) {}
VX_RT void __tsan_func_exit() {}
VX_RT void __tsan_read1(void*) {}
VX_RT void __tsan_write1(void*) {}
VX_RT void __tsan_read2(void*) {}
VX_RT void __tsan_write2(void*) {}
VX_RT void __tsan_read4(void*) {}
VX_RT void __tsan_write4(void*) {}
VX_RT void __tsan_read8(void* p) { vx_switch(p); }
VX_RT void __tsan_write8(void* p) { vx_switch(p); }
VX_RT void __tsan_read16(void* p) { vx_switch(p); }
VX_RT void __tsan_write16(void* p) { vx_switch(p); }
VX_RT void __tsan_unaligned_read8(void* p) { vx_switch(p); }
VX_RT void __tsan_unaligned_write8(void* p) { vx_switch(p); }
VX_RT void __tsan_vptr_read(void**) {}
VX_RT void __tsan_vptr_update(void**, void*) {}
VX_RT void __tsan_read_range(void* p, unsigned long) { vx_switch(p); }
VX_RT void __tsan_write_range(void* p, unsigned long) { vx_switch(p); }
VX_RT void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return std::memcpy(d, s, n); }
VX_RT void* __tsan_memmove(void* d, const void* s, unsigned long n) { return std::memmove(d, s, n); }
VX_RT void* __tsan_memset(void* d, int c, unsigned long n) { return std::memset(d, c, n); }
using W = std::uint64_t;
VX_RT W __tsan_atomic64_load(const volatile W* p, int) { vx_switch(p); return *p; }
VX_RT void __tsan_atomic64_store(volatile W* p, W v, int) { vx_switch(p); *p = v; }
VX_RT W __tsan_atomic64_exchange(volatile W* p, W v, int) { vx_switch(p); const W o = *p; *p = v; return o; }
VX_RT W __tsan_atomic64_fetch_add(volatile W* p, W v, int) { vx_switch(p); const W o = *p; *p = o + v; return o; }
VX_RT W __tsan_atomic64_fetch_sub(volatile W* p, W v, int) { vx_switch(p); const W o = *p; *p = o - v; return o; }
VX_RT int __tsan_atomic64_compare_exchange_strong(volatile W* p, W* e, W v, int, int)
{
    vx_switch(p);
    const W o = *p;
    if (o == *e) { *p = v; return 1; }
    *e = o;
    return 0;
}
VX_RT int __tsan_atomic64_compare_exchange_weak(volatile W* p, W* e, W v, int a, int b) { return __tsan_atomic64_compare_exchange_strong(p, e, v, a, b); }
VX_RT W   __tsan_atomic64_compare_exchange_val(volatile W* p, W e, W v, int, int)
{
    vx_switch(p);
    const W o = *p;
    if (o == e) *p = v;
    return o;
}
VX_RT unsigned char __tsan_atomic8_load(const volatile unsigned char* p, int) { return *p; }
VX_RT void __tsan_atomic8_store(volatile unsigned char* p, unsigned char v, int) { *p = v; }
VX_RT unsigned char __tsan_atomic8_exchange(volatile unsigned char* p, unsigned char v, int) { vx_switch(p); const unsigned char o = *p; *p = v; return o; }
VX_RT unsigned __tsan_atomic32_load(const volatile unsigned* p, int) { return *p; }
VX_RT void __tsan_atomic32_store(volatile unsigned* p, unsigned v, int) { *p = v; }
VX_RT void __tsan_atomic_thread_fence(int) {}
VX_RT void __tsan_atomic_signal_fence(int) {}

#ifndef VX_OPS
#    define VX_OPS 2  // operations per thread
#endif
#ifndef VX_THREADS
#    define VX_THREADS 2
#endif
using namespace vx;
using namespace cetl::pf17::pmr;
#define NOSAN __attribute__((disable_sanitizer_instrumentation))
namespace
{
struct Dummy final : memory_resource
{
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void  do_deallocate(void*, std::size_t, std::size_t) override {}
    bool  do_is_equal(const memory_resource& r) const noexcept override { return this == &r; }
};
struct Rec
{
    int              op[VX_OPS];
    memory_resource* in[VX_OPS];
    memory_resource* out[VX_OPS];
};
Dummy d[VX_THREADS * VX_OPS];
Rec   rec[VX_THREADS];
bool  use_default = false;

NOSAN void worker(void* a)
{
    Rec& r = *static_cast<Rec*>(a);
    for (int k = 0; k < VX_OPS; ++k)
    {
        memory_resource* out = nullptr;
        if (r.op[k] == 0)
            out = use_default ? get_default_resource() : new_delete_resource();
        else
            out = use_default ? set_default_resource(r.in[k]) : deviant::set_new_delete_resource(r.in[k]);
        r.out[k] = out;
    }
}
NOSAN void go(bool dflt, bool touch)
{
    use_default             = dflt;
    memory_resource* before = nullptr;
    if (touch) before = dflt ? get_default_resource() : new_delete_resource();
    for (int t = 0; t < VX_THREADS; ++t)
        for (int k = 0; k < VX_OPS; ++k)
        {
            rec[t].op[k]  = static_cast<int>(choice("op", 2));
            rec[t].in[k]  = &d[t * VX_OPS + k];
            rec[t].out[k] = nullptr;
        }
    mt = true;
    for (int t = 0; t < VX_THREADS; ++t) __vx_spawn(&worker, &rec[t]);
    __vx_join();
    mt = false;
    memory_resource* last = dflt ? get_default_resource() : new_delete_resource();
    if (!touch) before = dflt ? new_delete_resource() : nullptr;
    // every resource that was ever installed is either the current one or was handed back exactly once
    int installs = 0, initial_back = 0;
    for (int t = 0; t < VX_THREADS; ++t)
        for (int k = 0; k < VX_OPS; ++k)
        {
            memory_resource* o     = rec[t].out[k];
            bool             known = false;
            for (int u = 0; u < VX_THREADS; ++u)
                for (int j = 0; j < VX_OPS; ++j)
                    if (rec[u].op[j] == 1 && o == rec[u].in[j]) known = true;
            if (!known && before == nullptr) before = o;
            VX_ASSERT(o != nullptr && (known || o == before), "an operation returned a resource that was never installed");
            if (rec[t].op[k] == 1)
            {
                ++installs;
                if (o == before) ++initial_back;
                int back = 0;
                for (int u = 0; u < VX_THREADS; ++u)
                    for (int j = 0; j < VX_OPS; ++j)
                        if (rec[u].op[j] == 1 && rec[u].out[j] == rec[t].in[k]) ++back;
                VX_ASSERT(back + (last == rec[t].in[k] ? 1 : 0) == 1, "an installed resource was lost or handed back more than once");
                if (k + 1 < VX_OPS && rec[t].op[k + 1] == 0) VX_ASSERT(rec[t].out[k + 1] != before, "a read returned a resource that had been replaced before");
            }
        }
    if (installs > 0)
        VX_ASSERT(initial_back == 1, "the initial resource was lost or handed back more than once");
    else if (before)
        VX_ASSERT(last == before, "the resource changed although none was installed");
    // a thread never observes an older resource after a newer one of the same thread
    for (int t = 0; t < VX_THREADS; ++t)
        for (int k = 0; k + 1 < VX_OPS; ++k)
            for (int u = 0; u < VX_THREADS; ++u)
                for (int j = 0; j + 1 < VX_OPS; ++j)
                    if (rec[u].op[j] == 1 && rec[u].op[j + 1] == 1 && rec[t].op[k] == 0 && rec[t].op[k + 1] == 0)
                        VX_ASSERT(!(rec[t].out[k] == rec[u].in[j + 1] && rec[t].out[k + 1] == rec[u].in[j]), "a reader went back to an older resource");
    VX_REACH("end");
}
}  // namespace
VX_HARNESS(mt_new_delete) { go(false, true); }
VX_HARNESS(mt_default) { go(true, true); }
VX_HARNESS(mt_new_delete_first) { go(false, false); }
VX_HARNESS(mt_default_first) { go(true, false); }
