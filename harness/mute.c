/* When a frame is rendered as comfort noise (C15, C16).  case 0: repeat count, case 1: muting threshold (0 IMBE, 1 AMBE),
 * case 2: error rate above (1) or not above (0) the threshold, case 3: 0 float, 1 16-bit entry point */
#include "sv.h"
#include "parms.h"
static mbe_parms cur, prev;
static float out[160];
static short out16[160];
static int noise;
void mbe_synthesizeComfortNoisef(float* o) { noise++; for (int i = 0; i < 160; i++) o[i] = (float)(i + 1000); }
void harness(void)
{
    float thr = sv_case(1) ? 0.096f : 0.0875f, rate = sv_float(0.0f, 1.0f), e = sv_float(1.0e4f, 1.0e8f);
    int tot = sv_int(0, 40), shrt = sv_case(3);
    cur.L = 12; cur.w0 = 0.22f; cur.repeatCount = sv_case(0); cur.mutingThreshold = thr; cur.errorRate = rate; cur.errorCountTotal = tot;
    prev.L = 11; prev.w0 = 0.21f; prev.localEnergy = e; prev.amplitudeThreshold = 20480; prev.mutingThreshold = thr;
    cur.noiseSeed = -1.0f;
    for (int l = 0; l < 57; l++) cur.Vl[l] = prev.Vl[l] = 1;
    sv_assume((rate > thr) == sv_case(2));
    if (shrt) mbe_synthesizeSpeech(out16, &cur, &prev, 3); else mbe_synthesizeSpeechf(out, &cur, &prev, 3);
    int muted = sv_case(0) >= 4 || (sv_case(1) == 0 && sv_case(2));
    sv_check(noise == muted, "comfort noise exactly when muted");
    for (int i = 0; i < 160; i++) {
        if (shrt) sv_check(out16[i] == (muted ? 7 * (i + 1000) : 0), "16-bit output");
        else sv_close(out[i], muted ? i + 1000 : 0, 1e-3, "output");
    }
    sv_end();
}
