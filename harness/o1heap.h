// Stand-in for the public interface of o1heap; the behaviour is modelled in mr_o1heap.cpp.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define O1HEAP_ALIGNMENT (sizeof(void*) * 4U)
typedef struct O1HeapInstance O1HeapInstance;
O1HeapInstance* o1heapInit(void* const base, const size_t size);
void*           o1heapAllocate(O1HeapInstance* const handle, const size_t amount);
void            o1heapFree(O1HeapInstance* const handle, void* const pointer);
#ifdef __cplusplus
}
#endif
