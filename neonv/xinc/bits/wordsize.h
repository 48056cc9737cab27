/* glibc's own decides by the x86 macros; the checks compile for other targets */
#if __SIZEOF_POINTER__ == 8 && __SIZEOF_LONG__ == 8
#define __WORDSIZE 64
#else
#define __WORDSIZE 32
#define __WORDSIZE32_SIZE_ULONG (__SIZEOF_POINTER__ == 8)
#define __WORDSIZE32_PTRDIFF_LONG 0
#endif
#define __WORDSIZE_TIME64_COMPAT32 1
#define __SYSCALL_WORDSIZE 64
/* pointers wider than long: the headers' 32-bit alternative has intptr_t too narrow */
#if __SIZEOF_POINTER__ == 8 && __SIZEOF_LONG__ == 4 && !defined __intptr_t_defined
#define __intptr_t_defined 1
typedef __INTPTR_TYPE__ intptr_t;
#endif
