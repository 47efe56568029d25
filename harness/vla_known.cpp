// Histories on which the variable length array is known to fail (see known_findings.txt). Nothing else is judged here.
#include "vla.hpp"
#include <cetl/pf17/sys/memory_resource.hpp>
using namespace vx;

/// The resource moves the block on reallocation, so elements that are not trivially copyable are moved as bytes.
VX_HARNESS(vla_realloc_elem)
{
    {
        using A = cetl::pf17::pmr::polymorphic_allocator<Elem<0>>;
        Res                                    r(1, Re::Move);
        cetl::VariableLengthArray<Elem<0>, A> a(A{&r});
        const u8                               x = sym8("v");
        a.push_back(Elem<0>(x));
        a.reserve(pick("reserve", 1, 6));
        VX_ASSERT(a.size() == 1 && a[0].get() == x, "element differs from the reference sequence");
    }
    end_checks();
    end_path();
}
/// The element to append is described by an element of the array itself, which growing destroys first.
VX_HARNESS(vla_emplace_own)
{
    {
        using A = Alloc<Elem<0>, true>;
        cetl::VariableLengthArray<Elem<0>, A> a(A(1));
        const std::size_t                      n = pick("n", 1, 3);
        const u8                               x = sym8("v");
        a.reserve(n);
        for (std::size_t i = 0; i < n; ++i) a.push_back(Elem<0>(x));
        a.emplace_back(static_cast<const Elem<0>&>(a[0]));
        VX_ASSERT(a.size() == n + 1 && a[n].get() == x, "element differs from the reference sequence");
    }
    end_checks();
    end_path();
}
