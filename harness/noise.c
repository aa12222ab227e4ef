/* Comfort noise (C20).  case 0: 0 any seed, 1 zero seed, 2 no seeding, 3 any seed
   without the 16-bit comparison (SIMD conversion of symbolic samples is C18's). */
#include "sv.h"
#include <math.h>
#include "mbelib-neo/mbelib.h"
static float a[324], b[160];
static short s16[164];
static uint64_t st;
static double next(void)
{
    st = (st * 0x5DEECE66DULL + 11) & 0xffffffffffffULL;
    return (double)(uint32_t)(st >> 24) / 16777216.0 * 2.0 - 1.0;
}
void harness(void)
{
    int k = sv_case(0), conv = k != 3;
    if (k == 3) k = 0;
    uint32_t seed = k == 0 ? sv_uint() : 0;
    const double g = 0.003 * 32767.0 / 7.0;
    for (int i = 0; i < 324; i++) a[i] = 9.0f;
    for (int i = 0; i < 164; i++) s16[i] = 77;
    if (k == 0) sv_assume(seed != 0);
    if (k != 2) mbe_setThreadRngSeed(seed);
    mbe_synthesizeComfortNoisef(a + 2);
    mbe_synthesizeComfortNoisef(a + 162);
    uint32_t s = k == 0 ? seed : k == 1 ? 0x6d25357bu : 0x12345678u;
    st = (s ^ 0x5DEECE66DULL) & 0xffffffffffffULL;
    for (int i = 0; i < 320; i++) {
        double w = g * next();
        sv_close(a[2 + i], w, 2e-5, "comfort noise sample");
        sv_check(a[2 + i] <= 0.00301f * 32767.0f / 7.0f && a[2 + i] >= -0.00301f * 32767.0f / 7.0f, "level bound");
    }
    sv_close(a[1], 9.0, 0.0, "before the buffer");
    sv_close(a[322], 9.0, 0.0, "after the buffer");
    mbe_synthesizeComfortNoise(s16 + 2);        /* continues the stream */
    mbe_setThreadRngSeed(s);
    mbe_synthesizeComfortNoisef(b);             /* seeding again restarts it */
    for (int i = 0; i < 160; i++) sv_close(b[i], a[2 + i], 0.0, "reseeding restarts the stream");
    mbe_synthesizeComfortNoisef(b);
    mbe_synthesizeComfortNoisef(b);
    for (int i = 0; i < 160 && conv; i++) sv_check(s16[2 + i] == (short)(7.0f * b[i]), "16-bit form is the converted float form");
    sv_check(s16[1] == 77 && s16[162] == 77, "16-bit buffer bounds");
    mbe_synthesizeComfortNoisef(0);
    mbe_synthesizeComfortNoise(0);
    sv_end();
}
