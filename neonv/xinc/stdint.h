#ifndef NEONV_STDINT_H
#define NEONV_STDINT_H
#if __SIZEOF_POINTER__ == 8 && __SIZEOF_LONG__ == 4
#define uintptr_t neonv_narrow_uintptr_t
#include_next <stdint.h>
#undef uintptr_t
typedef __UINTPTR_TYPE__ uintptr_t;
#undef INTPTR_MIN
#undef INTPTR_MAX
#undef UINTPTR_MAX
#undef PTRDIFF_MIN
#undef PTRDIFF_MAX
#undef SIZE_MAX
#define INTPTR_MIN (-__INTPTR_MAX__ - 1)
#define INTPTR_MAX __INTPTR_MAX__
#define UINTPTR_MAX __UINTPTR_MAX__
#define PTRDIFF_MIN (-__PTRDIFF_MAX__ - 1)
#define PTRDIFF_MAX __PTRDIFF_MAX__
#define SIZE_MAX __SIZE_MAX__
#else
#include_next <stdint.h>
#endif
#endif
