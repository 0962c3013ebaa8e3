/* Included before every library source: lets the harness supply the CPU's cycle counter. */
#if defined(__x86_64__) || defined(__i386__)
#include <x86intrin.h>
unsigned long long dv_rdtsc(void);
#undef __rdtsc
#define __rdtsc dv_rdtsc
#define __builtin_ia32_rdtsc dv_rdtsc
#endif
