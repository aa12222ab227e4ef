/* Float to 16-bit conversion (C18).  Every bit pattern but NaN at every position. */
#define VH_MAX 160
#include "vh.h"
#include "mbelib-neo/mbelib.h"
#ifdef VH_CBMC
#ifdef SIMD_MODEL
/* the four SSE2 operations the code may use, per the instruction set reference */
typedef float v4sf __attribute__((vector_size(16)));
typedef int v4si __attribute__((vector_size(16)));
typedef short v8hi __attribute__((vector_size(16)));
v4sf __builtin_ia32_maxps(v4sf a, v4sf b) { v4sf r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
v4sf __builtin_ia32_minps(v4sf a, v4sf b) { v4sf r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
v4si __builtin_ia32_cvttps2dq(v4sf a) { v4si r; for (int i = 0; i < 4; i++) r[i] = a[i] >= -2147483648.0f && a[i] < 2147483648.0f ? (int)a[i] : (int)0x80000000; return r; }
v8hi __builtin_ia32_packssdw128(v4si a, v4si b) { v8hi r;
    for (int i = 0; i < 4; i++) { r[i] = (short)(a[i] > 32767 ? 32767 : a[i] < -32768 ? -32768 : a[i]); r[i + 4] = (short)(b[i] > 32767 ? 32767 : b[i] < -32768 ? -32768 : b[i]); }
    return r; }
#endif
#endif
static struct { short pre[16]; short out[160]; short post[16]; } o;
static struct { float pre[4], in[160], post[4]; } b;
void harness(void)
{
    for (int i = 0; i < 160; i++) {
        union { uint32_t u; float f; } x;
        (void)VH_RAW(uint32_t);
        x.u = (uint32_t)vh_vals[i];
        ASSUME(!((x.u & 0x7f800000u) == 0x7f800000u && (x.u & 0x7fffffu)));
        b.in[i] = x.f;
    }
    for (int i = 0; i < 16; i++) { o.pre[i] = (short)(1000 + i); o.post[i] = (short)(2000 + i); }
    static float keep[160];
    for (int i = 0; i < 160; i++) keep[i] = b.in[i];
    mbe_floattoshort(b.in, o.out);
    for (int i = K0; i < K0 + KN; i++) {
        float p = 7.0f * keep[i], m = 32767.0f * 0.95f;
        int want = p > m ? 31128 : p < -m ? -31128 : (int)p;
        CHECK(o.out[i] == want, "sample is seven times the input, clipped and truncated");
        CHECK(b.in[i] == keep[i], "input untouched");
    }
    for (int i = 0; i < 16; i++) CHECK(o.pre[i] == 1000 + i && o.post[i] == 2000 + i, "nothing written outside the output");
    VH_END();
}
