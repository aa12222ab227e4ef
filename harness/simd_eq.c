/* The scalar build (mbe_*) and the SIMD build (x_mbe_*) of the same sources side by side (C30).
 * case 0: 0 speech synthesis, 1 spectral enhancement; case 1, 2: harmonic counts of this and the previous frame
 * case 3, 4: their fundamentals (float bits); case 5: voicing pattern; case 6: noise start value */
#include "sv.h"
#include <math.h>
#include "parms.h"
void x_mbe_synthesizeSpeechf(float* o, mbe_parms* c, mbe_parms* p, int q);
void x_mbe_spectralAmpEnhance(mbe_parms* c);
static mbe_parms cur, prev, xcur, xprev;
static float a[160], b[160];
static float bits(int i) { union { int i; float f; } u; u.i = i; return u.f; }
void harness(void)
{
    int mode = sv_case(0), L = sv_case(1), pL = sv_case(2), pat = sv_case(5), seed = sv_case(6);
    unsigned x = 777u + 31u * (unsigned)seed;
    float m[57], pm[57];
    for (int l = 1; l <= 56; l++) { m[l] = sv_float(mode ? 1.0e-3f : 0.0f, mode ? 60000.0f : 12.0f); pm[l] = sv_float(0.0f, 12.0f); }
    for (int l = 1; l <= 56; l++) {
        cur.Ml[l] = m[l]; prev.Ml[l] = pm[l];
        cur.Vl[l] = pat == 0 ? 1 : pat == 1 ? 0 : (l * pat) % 5 < 3;
        prev.Vl[l] = pat == 0 ? 1 : pat == 1 ? 0 : (l * pat + 2) % 5 < 3;
        x = x * 1103515245u + 12345u; prev.PSIl[l] = (float)(x >> 8) / 16777216.0f * 40.0f - 20.0f;
        x = x * 1103515245u + 12345u; prev.PHIl[l] = (float)(x >> 8) / 16777216.0f * 40.0f - 20.0f;
    }
    cur.L = L; prev.L = pL; cur.w0 = bits(sv_case(3)); prev.w0 = bits(sv_case(4));
    prev.localEnergy = 75000.0f; prev.amplitudeThreshold = 20480; cur.mutingThreshold = prev.mutingThreshold = 0.0875f;
    cur.noiseSeed = (float)seed;
    for (int i = 0; i < 96; i++) cur.noiseOverlap[i] = (float)((i * 6151 + seed) % 53125);
    for (int i = 0; i < 256; i++) prev.previousUw[i] = mode ? 0.0f : sv_float(-500.0f, 500.0f);
    xcur = cur; xprev = prev;
    if (mode) {
        double r0 = 0.0, r1 = 0.0, w = cur.w0;
        for (int l = 1; l <= L; l++) { double q = (double)m[l] * m[l]; r0 += q; r1 += q * cos(l * w); }
        sv_assume(w * r0 * (r0 * r0 - r1 * r1) > 0.0);
        mbe_spectralAmpEnhance(&cur);
        x_mbe_spectralAmpEnhance(&xcur);
        for (int l = 0; l < 57; l++) sv_close(xcur.Ml[l], cur.Ml[l], 1e-3, "enhanced amplitude");
    } else {
        mbe_synthesizeSpeechf(a, &cur, &prev, 3);
        x_mbe_synthesizeSpeechf(b, &xcur, &xprev, 3);
        for (int n = 0; n < 160; n++) sv_close(b[n], a[n], 1e-2, "output sample");
        for (int n = 0; n < 256; n++) sv_close(xcur.previousUw[n], cur.previousUw[n], 1e-2, "unvoiced block");
        for (int l = 1; l < 57; l++) sv_close(xcur.PHIl[l], cur.PHIl[l], 1e-4, "phase");
    }
    sv_end();
}
