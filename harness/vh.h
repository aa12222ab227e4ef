/* Harness interface: symbolic under CBMC, value-driven when replayed natively. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <string.h>
#include <math.h>
#include <float.h>

#ifndef VH_MAX
#define VH_MAX 4096
#endif
#ifdef VH_CBMC
long long nondet_vh_ll(void);
static long long vh_vals[VH_MAX];
static int vh_n;
#define VH_RAW_(idx, type) ({ type vh_t_ = (type)nondet_vh_ll(); vh_vals[idx] = (long long)vh_t_; vh_t_; })
#define VH_RAW(type) ({ type vh_r_ = (type)nondet_vh_ll(); vh_vals[vh_n++] = (long long)vh_r_; vh_r_; })
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), msg)
#define VH_END() __CPROVER_assert(0, "VH_REACH")
#else
#include <stdio.h>
#include <stdlib.h>
static long long vh_vals[VH_MAX];
static int vh_n;
#define VH_RAW(type) ((type)vh_vals[vh_n++])
#define ASSUME(c) do { if (!(c)) { printf("assumption not met: %s\n", #c); exit(77); } } while (0)
#define CHECK(c, msg) do { if (!(c)) { printf("CHECK failed: %s (%s) at %s:%d\n", msg, #c, __FILE__, __LINE__); fflush(stdout); exit(1); } } while (0)
#define VH_END() do { } while (0)
void VH_ENTRY(void);
int main(int argc, char** argv) {
    if (argc > 1) {
        FILE* f = fopen(argv[1], "r");
        int i; long long v;
        while (f && fscanf(f, "%d %lld", &i, &v) == 2) { if (i >= 0 && i < VH_MAX) { vh_vals[i] = v; } }
        if (f) { fclose(f); }
    }
    VH_ENTRY();
    printf("all checks passed\n");
    return 0;
}
#endif

static inline int vh_bit(void) { return (int)(VH_RAW(unsigned char) & 1u); }
static inline int vh_int(void) { return VH_RAW(int); }
static inline unsigned vh_uint(void) { return VH_RAW(unsigned); }
static inline float vh_float(void) { unsigned u = VH_RAW(unsigned); float f; memcpy(&f, &u, 4); return f; }
static inline int vh_range(int lo, int hi) { int v = vh_int(); ASSUME(v >= lo && v <= hi); return v; }
#endif
