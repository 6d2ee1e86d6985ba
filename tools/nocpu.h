/* Included before every C file of the "nocpu" build: hardware support is
   compiled in, but the processor seems to lack AES-NI and PCLMULQDQ. */
#if defined(__x86_64__) && !defined(__ASSEMBLER__) && !defined(VP_NOCPU_H)
#define VP_NOCPU_H
#include <cpuid.h>
static __inline__ __attribute__((unused)) int vp_get_cpuid(unsigned int leaf, unsigned int * a, unsigned int * b, unsigned int * c, unsigned int * d)
{
  int r = __get_cpuid(leaf, a, b, c, d);
  if (r && leaf == 1) *c &= ~((1U << 25) | (1U << 1));
  return r;
}
#undef __get_cpuid
#define __get_cpuid vp_get_cpuid
#define vp_cpuid_macro(leaf, a, b, c, d) (vp_get_cpuid((leaf), &(a), &(b), &(c), &(d)))
#undef __cpuid
#define __cpuid vp_cpuid_macro
#define __builtin_cpu_supports(x) 0
#endif
