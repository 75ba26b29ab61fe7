/* Included before every source file: the answers to CPUID and XGETBV come from the explorer. */
#pragma once
#include <cpuid.h>
#include <immintrin.h>
#ifdef __cplusplus
extern "C" {
#endif
int fake_get_cpuid(unsigned leaf, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
int fake_get_cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
unsigned fake_get_cpuid_max(unsigned leaf, unsigned *sig);
unsigned long long fake_xgetbv(unsigned reg);
int fake_cpu_supports(const char *name);
#ifdef __cplusplus
}
#endif
#undef __cpuid
#undef __cpuid_count
#define __get_cpuid fake_get_cpuid
#define __get_cpuid_count fake_get_cpuid_count
#define __get_cpuid_max fake_get_cpuid_max
#define __cpuid(l, a, b, c, d) fake_get_cpuid_count((l), 0, &(a), &(b), &(c), &(d))
#define __cpuid_count(l, s, a, b, c, d) fake_get_cpuid_count((l), (s), &(a), &(b), &(c), &(d))
#define __builtin_ia32_xgetbv(x) fake_xgetbv(x)
#define _xgetbv(x) fake_xgetbv(x)
#define __builtin_cpu_supports(x) fake_cpu_supports(x)
