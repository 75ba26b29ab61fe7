/* FAKECPU is a list of words: max1 (no leaf 7), avx, xsave, avx2, avx512f, sse41, ssse3, xcr0=<hex>.
   Without FAKECPU the real processor answers. */
#include <cpuid.h>
#include <stdlib.h>
#include <string.h>

__attribute__((visibility("default"))) unsigned long fakecpu_calls = 0;
/* how often XGETBV was asked for, and how often on a processor whose operating system has not enabled it (a fault) */
__attribute__((visibility("default"))) unsigned long fakecpu_xgetbv = 0, fakecpu_fault = 0;

static int has(const char *w) {
    const char *e = getenv("FAKECPU");
    size_t n = strlen(w);
    while (e && (e = strstr(e, w))) {
        if ((e[n] == 0 || e[n] == ',') && (e == getenv("FAKECPU") || e[-1] == ',')) return 1;
        e += n;
    }
    return 0;
}
static int fake(void) { return getenv("FAKECPU") != 0; }

static void adjust(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    if (leaf == 1) {
        unsigned m = (1u << 28) | (1u << 27) | (1u << 26) | (1u << 19) | (1u << 9);
        *c &= ~m;
        if (has("avx")) *c |= 1u << 28;
        if (has("xsave")) *c |= (1u << 27) | (1u << 26);
        if (has("sse41")) *c |= 1u << 19;
        if (has("ssse3")) *c |= 1u << 9;
    } else if (leaf == 7 && sub == 0) {
        unsigned m = (1u << 5) | (1u << 16) | (1u << 17) | (1u << 30) | (1u << 31);
        *b &= ~m;
        if (has("avx2")) *b |= 1u << 5;
        if (has("avx512f")) *b |= (1u << 16) | (1u << 17) | (1u << 30) | (1u << 31);
    }
}
int fake_get_cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    fakecpu_calls++;
    if (fake() && has("max1") && leaf > 1 && leaf < 0x80000000u) return 0;
    int r = __get_cpuid_count(leaf, sub, a, b, c, d);
    if (r && fake()) {
        adjust(leaf, sub, a, b, c, d);
        if (leaf == 0 && has("max1")) *a = 1;
    }
    return r;
}
int fake_get_cpuid(unsigned leaf, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    return fake_get_cpuid_count(leaf, 0, a, b, c, d);
}
unsigned fake_get_cpuid_max(unsigned leaf, unsigned *sig) {
    fakecpu_calls++;
    if (fake() && has("max1") && leaf < 0x80000000u) { unsigned s = __get_cpuid_max(leaf, sig); return s ? 1 : 0; }
    return __get_cpuid_max(leaf, sig);
}
static unsigned long long xcr(unsigned reg) {
    const char *e = getenv("FAKECPU");
    if (e && (e = strstr(e, "xcr0="))) return strtoull(e + 5, 0, 16);
    unsigned lo, hi;
    __asm__ __volatile__("xgetbv" : "=a"(lo), "=d"(hi) : "c"(reg));
    return ((unsigned long long) hi << 32) | lo;
}
unsigned long long fake_xgetbv(unsigned reg) {
    fakecpu_calls++;
    fakecpu_xgetbv++;
    if (fake() && !has("xsave")) { fakecpu_fault++; return 0; }
    return xcr(reg);
}
int fake_cpu_supports(const char *n) {
    unsigned long long x = xcr(0);
    fakecpu_calls++;
    if (!fake()) {
        __builtin_cpu_init();
        if (!strcmp(n, "avx")) return !!__builtin_cpu_supports("avx");
        if (!strcmp(n, "avx2")) return !!__builtin_cpu_supports("avx2");
        if (!strcmp(n, "avx512f")) return !!__builtin_cpu_supports("avx512f");
        if (!strcmp(n, "sse4.1")) return !!__builtin_cpu_supports("sse4.1");
        if (!strcmp(n, "ssse3")) return !!__builtin_cpu_supports("ssse3");
        return 0;
    }
    int ymm = has("avx") && has("xsave") && (x & 6) == 6;
    int zmm = ymm && (x & 0xe6) == 0xe6;
    if (!strcmp(n, "avx")) return ymm;
    if (!strcmp(n, "avx2")) return ymm && has("avx2") && !has("max1");
    if (!strncmp(n, "avx512", 6)) return zmm && has("avx512f") && !has("max1");
    if (!strcmp(n, "sse4.1")) return has("sse41");
    if (!strcmp(n, "ssse3")) return has("ssse3");
    return 0;
}
