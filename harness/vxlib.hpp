// Instrumented environment: memory ledger, resources, allocators, tracked element types with symbolic failures.
#pragma once
#include "vx.hpp"
#include <cetl/cetl.hpp>
#include <cetl/pf17/memory_resource.hpp>

#ifdef VX_NATIVE
extern "C" long vx_malloc_outstanding;
#endif

#ifndef VX_LIFE_MAX
#    define VX_LIFE_MAX 64
#endif

namespace vx
{
// ---------------------------------------------------------------------------------------------------- memory ledger
struct Block
{
    void*       p;
    std::size_t size, align;
    int         owner;
    bool        live;
    bool        foreign;  // not from the heap
};
struct Mem
{
    static constexpr int MaxBlocks = 64;
    Block                b[MaxBlocks];
    int                  n        = 0;
    int                  oom      = 0;   // number of allocations that may still fail (symbolically)
    int                  failures = 0;   // failures injected so far
    int                  allocs   = 0;
    int                  refuse   = 0;   // reallocations that may be refused (the caller then has to allocate afresh)
};
inline Mem& mem()
{
    static Mem m;
    return m;
}
inline void oom_budget(int n) { mem().oom = n; }
inline bool oom_now()
{
    Mem& m = mem();
    if (m.oom <= 0) return false;
    if (!flag("oom")) return false;
    --m.oom;
    ++m.failures;
    return true;
}
inline void* raw_alloc(std::size_t size, std::size_t align)
{
    // The end of the block coincides with the end of the underlying object so that overruns are caught.
    if (align <= 16) return std::malloc(size ? size : 1);
    return aligned_alloc(align, ((size ? size : 1) + align - 1) / align * align);
}
inline void* mem_alloc(int owner, std::size_t size, std::size_t align, std::size_t fixed = 0)
{
    Mem& m = mem();
    VX_ASSERT_M(align != 0 && (align & (align - 1)) == 0, "allocation requested with an alignment that is not a power of two");
    VX_SANITY(m.n < Mem::MaxBlocks, "too many blocks");
    void* p    = raw_alloc(fixed ? fixed : size, align);
    m.b[m.n].p     = p;
    m.b[m.n].size  = size;
    m.b[m.n].align = align;
    m.b[m.n].owner = owner;
    m.b[m.n].live  = true;
    m.b[m.n].foreign = false;
    ++m.n;
    ++m.allocs;
    return p;
}
inline void* mem_place(int owner, void* p, std::size_t size, std::size_t align)
{
    Mem& m = mem();
    VX_SANITY(m.n < Mem::MaxBlocks, "too many blocks");
    Block& b = m.b[m.n++];
    b.p      = p;
    b.size   = size;
    b.align  = align;
    b.owner  = owner;
    b.live   = true;
    b.foreign = true;
    ++m.allocs;
    return p;
}
inline Block* mem_find(const void* p)
{
    Mem& m = mem();
    for (int i = m.n - 1; i >= 0; --i)
        if (m.b[i].live && m.b[i].p == p) return &m.b[i];
    return nullptr;
}
inline void mem_free(int owner, void* p, std::size_t size, std::size_t align)
{
    if (p == nullptr) return;
    Block* b = mem_find(p);
    VX_ASSERT_M(b != nullptr, "deallocation of a block that is not outstanding");
    if (b == nullptr) return;
    VX_ASSERT_M(b->owner == owner, "block returned to a different allocator than it came from");
    VX_ASSERT_M(b->size == size, "block returned with a different size than it was obtained with");
    VX_ASSERT_M(b->align == align, "block returned with a different alignment than it was obtained with");
    b->live = false;
    if (!b->foreign) std::free(p);
}
inline int mem_live()
{
    int n = 0;
    for (int i = 0; i < mem().n; ++i) n += mem().b[i].live ? 1 : 0;
    return n;
}
inline void mem_end() { VX_ASSERT_M(mem_live() == 0, "memory block was never returned to its allocator"); }

// ---------------------------------------------------------------------------------------------- pmr memory resource
enum class Re { None, Move };
class Res final : public cetl::pf17::pmr::memory_resource
{
public:
    explicit Res(int id, Re re = Re::None, std::size_t max = ~std::size_t(0)) : id_(id), re_(re), max_(max) {}
    int         id() const { return id_; }
    std::size_t allocs = 0, deallocs = 0, last_size = 0, last_align = 0;
    unsigned char* place = nullptr;  // if set, the first block is put there (an object of the harness)
    std::size_t fixed = 0;  // if set, serves every (symbolic) size up to this one from an object of exactly this size

private:
    std::size_t limit() const { return fixed ? fixed : 100000; }
    void* do_allocate(std::size_t size, std::size_t align) override
    {
        ++allocs;
        last_size  = size;
        last_align = align;
        if (size > max_ || size > limit() || oom_now())
        {
#if VX_EXC
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        if (place != nullptr && size <= fixed)
        {
            unsigned char* p = place;
            place            = nullptr;
            return mem_place(id_, p, size, align);
        }
        return mem_alloc(id_, size, align, fixed);
    }
    void do_deallocate(void* p, std::size_t size, std::size_t align) override
    {
        if (p) ++deallocs;
        mem_free(id_, p, size, align);
    }
#if (__cplusplus >= CETL_CPP_STANDARD_17)
    bool do_is_equal(const cetl::pf17::pmr::memory_resource& rhs) const noexcept override { return &rhs == this; }
#else
    bool do_is_equal(const cetl::pf17::pmr::memory_resource& rhs) const noexcept override { return &rhs == this; }
#endif
    std::size_t do_max_size() const noexcept override { return max_; }
    void*       do_reallocate(void* p, std::size_t old_size, std::size_t new_size, std::size_t align) override
    {
        if (re_ == Re::None) return nullptr;
        if (p != nullptr)
        {
            Block* b = mem_find(p);
            VX_ASSERT_M(b != nullptr, "reallocation of a block that is not outstanding");
            VX_ASSERT_M(b->owner == id_ && b->size == old_size && b->align == align, "reallocation with wrong owner, size or alignment");
        }
        if (new_size == 0 || new_size > max_ || new_size > limit()) return nullptr;
        if (mem().refuse > 0 && flag("refuse")) { --mem().refuse; return nullptr; }
        void* q = mem_alloc(id_, new_size, align, fixed);
        if (p != nullptr)
        {
            std::memcpy(q, p, fixed ? fixed : old_size < new_size ? old_size : new_size);
            mem_free(id_, p, old_size, align);
        }
        return q;
    }
    int         id_;
    Re          re_;
    std::size_t max_;
};

// ------------------------------------------------------------------------------------------------ plain allocators
/// Stateful allocator; two are equal when they have the same id.
template <typename T, bool Propagate, bool Realloc = false, bool PropagateCopy = Propagate>
class Alloc
{
public:
    using value_type                             = T;
    using propagate_on_container_move_assignment = std::integral_constant<bool, Propagate>;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, PropagateCopy>;
    using propagate_on_container_swap            = std::integral_constant<bool, Propagate>;
    using is_always_equal                        = std::false_type;
    template <typename U>
    struct rebind
    {
        using other = Alloc<U, Propagate, Realloc, PropagateCopy>;
    };
    explicit Alloc(int id, std::size_t max = ~std::size_t(0) / 2) noexcept : id_(id), max_(max) {}
    template <typename U>
    Alloc(const Alloc<U, Propagate, Realloc, PropagateCopy>& o) noexcept : id_(o.id()), max_(o.max()) {}
    int         id() const noexcept { return id_; }
    std::size_t max() const noexcept { return max_; }
    std::size_t max_size() const noexcept { return max_ / sizeof(T); }
    T*          allocate(std::size_t n)
    {
        if (n > 100000 || oom_now())
        {
#if VX_EXC
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        return static_cast<T*>(mem_alloc(id_, n * sizeof(T), alignof(T)));
    }
    void deallocate(T* p, std::size_t n) { mem_free(id_, p, n * sizeof(T), alignof(T)); }
    bool operator==(const Alloc& o) const noexcept { return id_ == o.id_; }
    bool operator!=(const Alloc& o) const noexcept { return id_ != o.id_; }

private:
    int         id_;
    std::size_t max_;
};

// ------------------------------------------------------------------------------------------------ tracked elements
struct Life
{
    static constexpr int Max = VX_LIFE_MAX;
    const void*          p[Max];
    int                  n       = 0;
    int                  throws  = 0;  // throws that may still be injected
    int                  thrown  = 0;
    long                 created = 0;
};
inline Life& life()
{
    static Life l;
    return l;
}
inline int  life_find(const void* p)
{
    Life& l = life();
    for (int i = l.n - 1; i >= 0; --i)
        if (l.p[i] == p) return i;
    return -1;
}
inline void life_begin(const void* p)
{
    Life& l = life();
    VX_ASSERT_L(life_find(p) < 0, "object constructed on top of a live object");
    VX_SANITY(l.n < Life::Max, "too many live objects");
    if (l.n < Life::Max) l.p[l.n++] = p;
    ++l.created;
}
inline void life_end(const void* p)
{
    Life&     l = life();
    const int i = life_find(p);
    VX_ASSERT_L(i >= 0, "destruction of an object that is not alive");
    if (i >= 0) l.p[i] = l.p[--l.n];
}
inline void life_use(const void* p) { VX_ASSERT_L(life_find(p) >= 0, "use of an object that is not alive"); }
struct Boom {};
inline void throw_budget(int n) { life().throws = n; }
inline void maybe_throw()
{
#if VX_EXC
    Life& l = life();
    if (l.throws <= 0) return;
    if (!flag("throw")) return;
    --l.throws;
    ++l.thrown;
    throw Boom{};
#endif
}
inline void life_end_check() { VX_ASSERT_L(life().n == 0, "object was never destroyed"); }

/// Tracked value.  Kind: 0 = copy and move never throw; 1 = copy and move may throw; 2 = copy may throw, move is noexcept;
/// 3 = move-only (noexcept); Pad adjusts the size.
template <int Kind, int Pad = 1>
class Elem
{
public:
    static constexpr bool MoveNoexcept = Kind != 1;
    u8 v[Pad];
    Elem() noexcept(Kind == 0 || Kind == 3)
    {
        if (Kind == 1 || Kind == 2) maybe_throw();
        for (int i = 0; i < Pad; ++i) v[i] = 0;
        life_begin(this);
    }
    Elem(u8 x) noexcept(Kind == 0 || Kind == 3)
    {
        if (Kind == 1 || Kind == 2) maybe_throw();
        for (int i = 0; i < Pad; ++i) v[i] = x;
        life_begin(this);
    }
    Elem(const Elem& o) noexcept(Kind == 0)
    {
        static_assert(Kind != 3, "");
        life_use(&o);
        if (Kind == 1 || Kind == 2) maybe_throw();
        for (int i = 0; i < Pad; ++i) v[i] = o.v[i];
        life_begin(this);
    }
    Elem(Elem&& o) noexcept(Kind != 1)
    {
        life_use(&o);
        if (Kind == 1) maybe_throw();
        for (int i = 0; i < Pad; ++i) { v[i] = o.v[i]; o.v[i] = 0xEE; }
        life_begin(this);
    }
    Elem& operator=(const Elem& o) noexcept(Kind == 0)
    {
        life_use(this);
        life_use(&o);
        if (Kind == 1 || Kind == 2) maybe_throw();
        for (int i = 0; i < Pad; ++i) v[i] = o.v[i];
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept(Kind != 1)
    {
        life_use(this);
        life_use(&o);
        if (Kind == 1) maybe_throw();
        if (this != &o)
            for (int i = 0; i < Pad; ++i) { v[i] = o.v[i]; o.v[i] = 0xEE; }
        return *this;
    }
    ~Elem() { life_end(this); }
    u8 get() const
    {
        life_use(this);
        return v[Pad - 1];
    }
    friend bool operator==(const Elem& a, const Elem& b)
    {
        life_use(&a);
        life_use(&b);
        return a.v[0] == b.v[0];
    }
    friend bool operator!=(const Elem& a, const Elem& b) { return !(a == b); }
};

inline void end_checks()
{
    life_end_check();
    mem_end();
    VX_REACH("end");
}
inline void end_path()
{
    if ((VX_TAGS) & 4) __vx_leak_check();
}
inline bool faulted() { return mem().failures + life().thrown > 0; }
}  // namespace vx
