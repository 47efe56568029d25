// Native side of the harness runtime: replays a recorded list of inputs against the real code.
#define VX_NATIVE 1
#include "vx.hpp"
#include <csignal>
#include <cstdio>
#include <string>
#include <vector>
#include <ucontext.h>
#include <unistd.h>

namespace
{
struct Entry { const char* n; void (*f)(); };
std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
std::vector<unsigned long long> inputs;
std::size_t                     next_in = 0;
std::string                     logtxt;
int                             expect_term = 0;
long                            outstanding = 0;
void*                           shadow[8192];

[[noreturn]] void finish(int code, const char* what)
{
    std::printf("LOG%s\n", logtxt.c_str());
    std::printf("END %s\n", what);
    std::fflush(stdout);
    _exit(code);
}
unsigned long long input(const char* name)
{
    if (next_in >= inputs.size()) { std::printf("input %s exhausted\n", name); finish(5, "exhausted"); }
    return inputs[next_in++];
}
void on_terminate()
{
    if (expect_term) finish(0, "terminated");
    std::printf("std::terminate called\n");
    finish(6, "terminate");
}

struct Co { ucontext_t ctx; void (*fn)(void*); void* arg; bool done, joining; char* stk; };
std::vector<Co*> cos;
unsigned         cur = 0;
void schedule()
{
    bool others = false;
    for (std::size_t i = 1; i < cos.size(); ++i) others = others || !cos[i]->done;
    if (cos[0]->joining && !others) cos[0]->joining = false;
    std::vector<unsigned> run;
    for (unsigned i = 0; i < cos.size(); ++i)
        if (!cos[i]->done && !cos[i]->joining) run.push_back(i);
    unsigned nx = run.empty() ? 0 : run[0];
    if (run.size() > 1) nx = static_cast<unsigned>(input("sched"));
    if (nx == cur) return;
    const unsigned old = cur;
    cur                = nx;
    swapcontext(&cos[old]->ctx, &cos[nx]->ctx);
}
void trampoline()
{
    Co* c = cos[cur];
    c->fn(c->arg);
    c->done = true;
    schedule();
}
}  // namespace

namespace vx
{
Registrar::Registrar(const char* n, void (*f)()) { entries().push_back({n, f}); }
}  // namespace vx

// Registry of C++ heap blocks, to let __vx_leak_check work without a leak sanitizer.  The memory sanitizer has its own.
#if !__has_feature(memory_sanitizer)
void* operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) std::abort();
    ++outstanding;
    return p;
}
void operator delete(void* p) noexcept
{
    if (p) --outstanding;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
// All forms, so that the sanitizer's own ones are never pulled in beside these.
void* operator new[](std::size_t n) { return operator new(n); }
void  operator delete[](void* p) noexcept { operator delete(p); }
void  operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
#ifdef __cpp_aligned_new
void* operator new(std::size_t n, std::align_val_t a)
{
    void* p = nullptr;
    if (posix_memalign(&p, std::size_t(a) < sizeof(void*) ? sizeof(void*) : std::size_t(a), n ? n : 1) != 0) std::abort();
    ++outstanding;
    return p;
}
void* operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return operator new(n, a); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return operator new(n, a); }
void  operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void  operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
void  operator delete[](void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
void  operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { operator delete(p); }
void  operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { operator delete(p); }
#endif
#endif
static long base_outstanding = 0;

extern "C"
{
    long vx_malloc_outstanding = 0;
    std::uint64_t __vx_sym(const char* name, unsigned) { return input(name); }
    void          __vx_assume(bool c) { if (!c) finish(4, "assumption"); }
    void          __vx_assert(bool c, const char* msg)
    {
        if (c) return;
        std::printf("VX-ASSERT %s\n", msg);
        finish(3, "assert");
    }
    std::uint64_t __vx_concretize(std::uint64_t v) { return v; }
    void          __vx_reach(const char*) {}
    void          __vx_log(std::uint64_t v) { const long o = outstanding; logtxt += " " + std::to_string(v); outstanding = o; base_outstanding += 0; }
    void          __vx_expect_terminate(int on) { expect_term = on; }
    void          __vx_merge(int) {}
    void          __vx_exit_ok() { finish(0, "ok"); }
    void          __vx_shard(std::uint64_t) {}
    void          __vx_leak_check()
    {
        if (outstanding - base_outstanding != 0 || vx_malloc_outstanding != 0)
        {
            std::printf("memory leaked: new %ld malloc %ld\n", outstanding - base_outstanding, vx_malloc_outstanding);
            finish(7, "leak");
        }
    }
    void __vx_spawn(void (*fn)(void*), void* arg)
    {
        const long o = outstanding;
        if (cos.empty()) cos.push_back(new Co{});
        Co* c   = new Co{};
        c->fn   = fn;
        c->arg  = arg;
        c->stk  = static_cast<char*>(std::malloc(1 << 20));
        getcontext(&c->ctx);
        c->ctx.uc_stack.ss_sp   = c->stk;
        c->ctx.uc_stack.ss_size = 1 << 20;
        c->ctx.uc_link          = nullptr;
        makecontext(&c->ctx, trampoline, 0);
        cos.push_back(c);
        outstanding = o;
    }
    void     __vx_yield() { const long o = outstanding; if (cos.size() > 1) schedule(); outstanding += 0; (void) o; }
    void     __vx_join() { if (!cos.empty()) { cos[0]->joining = true; schedule(); } }
    unsigned __vx_thread_id() { return cur; }
    bool     __vx_shared(const void* p)
    {
        const char* c = static_cast<const char*>(p);
        for (auto* k : cos)
            if (k->stk && c >= k->stk && c < k->stk + (1 << 20)) return false;
        const char here = 0;
        return cur != 0 || c < &here || c > &here + (1 << 20);
    }
}

static void on_abort(int sig)
{
    if (expect_term) finish(0, "ok");
    std::signal(sig, SIG_DFL);
    std::raise(sig);
}

int main(int argc, char** argv)
{
    std::set_terminate(on_terminate);
    std::signal(SIGABRT, on_abort);
    if (argc < 3) return 9;
    if (FILE* f = std::fopen(argv[2], "r"))
    {
        unsigned long long v;
        while (std::fscanf(f, "%llu", &v) == 1) inputs.push_back(v);
        std::fclose(f);
    }
    for (auto& e : entries())
        if (std::string(e.n) == argv[1])
        {
            logtxt.reserve(1 << 16);
            base_outstanding = outstanding;
#if defined(__cpp_exceptions)
            e.f();
#else
            e.f();
#endif
            finish(0, "ok");
        }
    std::printf("no such harness\n");
    return 9;
}
