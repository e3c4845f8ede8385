/* Force-included into every C translation unit of the *verification build* of
 * /repo (never into the shipped build).  Redirects the CPU to the simulator:
 * instruction-set detection and the hardware random number generator.
 * Library calls (open/read/close, clocks, allocators) are redirected at link
 * time with -Wl,--wrap (see build.py).  All targets live in libsimseam.so. */
#ifndef VERIF_SIM_SEAM_H
#define VERIF_SIM_SEAM_H
#if defined(__x86_64__)
#include <cpuid.h>
int sim_get_cpuid(unsigned int leaf, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d);
int sim_get_cpuid_count(unsigned int leaf, unsigned int sub, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d);
unsigned int sim_get_cpuid_max(unsigned int ext, unsigned int *sig);
int sim_rdrand64_step(unsigned long long *p);
int sim_rdrand32_step(unsigned int *p);
int sim_rdrand16_step(unsigned short *p);
int sim_cpu_supports(const char *name);
#define __get_cpuid sim_get_cpuid
#define __get_cpuid_count sim_get_cpuid_count
#define __get_cpuid_max sim_get_cpuid_max
#define __builtin_ia32_rdrand64_step(p) sim_rdrand64_step(p)
#define __builtin_ia32_rdrand32_step(p) sim_rdrand32_step(p)
#define __builtin_ia32_rdrand16_step(p) sim_rdrand16_step(p)
#define __builtin_cpu_supports(x) sim_cpu_supports(x)
#define __builtin_cpu_init() ((void)0)
#endif
#endif
