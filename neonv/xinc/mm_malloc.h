/* as the compiler's own, for a platform whose C library is not installed */
#ifndef NEONV_MM_MALLOC_H
#define NEONV_MM_MALLOC_H
#include <stdlib.h>
extern "C" int posix_memalign(void**, size_t, size_t);
static __inline__ void* __attribute__((__always_inline__, __nodebug__, __malloc__)) _mm_malloc(size_t n, size_t a)
{
    void* p;
    if (a == 1) return malloc(n);
    if (a < sizeof(void*)) a = sizeof(void*);
    return posix_memalign(&p, a, n) ? 0 : p;
}
static __inline__ void __attribute__((__always_inline__, __nodebug__)) _mm_free(void* p) { free(p); }
#endif
