// Harness runtime.  The same harness source is executed symbolically (the __vx_* functions are builtins of the
// executor) and natively (replay: vx_native.cpp supplies them, inputs come from a file).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

extern "C"
{
    std::uint64_t __vx_sym(const char* name, unsigned width);
    void          __vx_assume(bool c);
    void          __vx_assert(bool c, const char* msg);
    std::uint64_t __vx_concretize(std::uint64_t v);
    void          __vx_reach(const char* what);
    void          __vx_log(std::uint64_t v);
    void          __vx_expect_terminate(int on);
    void          __vx_merge(int on);
    void          __vx_exit_ok();
    void          __vx_shard(std::uint64_t v);
    void          __vx_leak_check();
    void          __vx_spawn(void (*fn)(void*), void* arg);
    void          __vx_yield();
    void          __vx_join();
    unsigned      __vx_thread_id();
    bool          __vx_shared(const void* p);  // memory other than the stack
}

#define VX_STR2(x) #x
#define VX_STR(x) VX_STR2(x)
// Assertions belong to a class so that a check can be compiled for the property it decides:
//   1 = S: observable values;  2 = L: lifetimes of objects;  4 = M: ownership of memory blocks.
// With VX_GATE only behaviour after an injected failure is judged.
#ifndef VX_TAGS
#    define VX_TAGS 7
#endif
#ifdef VX_GATE
#    define VX_GATED ::vx::faulted()
#else
#    define VX_GATED true
#endif
#define VX_ASSERT_TAG(t, c, why) ((((VX_TAGS) & (t)) && VX_GATED) ? __vx_assert(static_cast<bool>(c), why) : static_cast<void>(0))
#define VX_ASSERT(c, why) VX_ASSERT_TAG(1, c, why)
#define VX_ASSERT_L(c, why) VX_ASSERT_TAG(2, c, why)
#define VX_ASSERT_M(c, why) VX_ASSERT_TAG(4, c, why)
#define VX_SANITY(c, why) __vx_assert(static_cast<bool>(c), "harness: " why)
#define VX_REACH(n) __vx_reach(n)

#if defined(__cpp_exceptions)
#    define VX_TRY try
#    define VX_CATCH(T) catch (T)
#    define VX_EXC 1
#else
#    define VX_TRY if (true)
#    define VX_CATCH(T) if (false)
#    define VX_EXC 0
#endif

#if defined(VX_NATIVE)
namespace vx
{
struct Registrar
{
    Registrar(const char* n, void (*f)());
};
}  // namespace vx
#    define VX_HARNESS(name)                                          \
        static void          vxh_##name();                            \
        static ::vx::Registrar vxr_##name{#name, &vxh_##name};        \
        static void          vxh_##name()
#else
#    define VX_HARNESS(name)        \
        extern "C" void vxh_##name(); \
        extern "C" void vxh_##name()
#endif

namespace vx
{
using u8  = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

inline u8   sym8(const char* n) { return static_cast<u8>(__vx_sym(n, 8)); }
inline u16  sym16(const char* n) { return static_cast<u16>(__vx_sym(n, 16)); }
inline u32  sym32(const char* n) { return static_cast<u32>(__vx_sym(n, 32)); }
inline u64  sym64(const char* n) { return __vx_sym(n, 64); }
inline bool symbool(const char* n) { return static_cast<bool>(__vx_sym(n, 1)); }
/// Symbolic value in [lo,hi], not enumerated.
inline u64 range(const char* n, u64 lo, u64 hi)
{
    const u64 v = __vx_sym(n, 64);
    __vx_assume(static_cast<bool>(static_cast<int>(v >= lo) & static_cast<int>(v <= hi)));
    return v;
}
/// One of 0..n-1; every feasible value becomes its own path.
inline u64 choice(const char* n, u64 cnt)
{
    const u64 v = __vx_sym(n, 8);
    __vx_assume(v < cnt);
    return __vx_concretize(v);
}
inline u64 pick(const char* n, u64 lo, u64 hi)
{
    return lo + choice(n, hi - lo + 1);
}
inline bool flag(const char* n) { return choice(n, 2) != 0; }
inline void log(u64 v) { __vx_log(v); }
/// Without exceptions a rejected operation ends the program. Explores that and carrying on without it; false if the
/// operation returned.
template <typename Fn>
inline bool ends_program(Fn fn)
{
    if (!flag("rejected")) return true;
    __vx_expect_terminate(1);
    fn();
    __vx_expect_terminate(0);
    return false;
}

template <typename T>
inline void use(const T& t) { (void) t; }
bool faulted();
}  // namespace vx
