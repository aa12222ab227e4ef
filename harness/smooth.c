/* Adaptive smoothing (C23).  case 0: harmonic count, case 1: 0 direct call, 1 after spectral enhancement of the same
 * block, 2 after enhancement of another block, 3 through speech synthesis of a frame about to be muted. */
#include "sv.h"
#include <math.h>

#include "parms.h"
static mbe_parms cur, prev, oth, p0;
static float out[160];
void harness(void)
{
    int L = sv_case(0), mode = sv_case(1);
    float M[57], T[57];
    int V[57];
    float w0 = sv_float(0.05f, 0.33f);
    for (int l = 1; l <= 56; l++) { M[l] = sv_float(0.0f, 60000.0f); V[l] = sv_bit(); T[l] = sv_float(0.0f, 1000.0f); }
    M[0] = 3.0f; V[0] = 0;
    if (mode == 1) w0 = 2.9f / ((float)L + 0.5f);
    float rate = sv_float(0.0f, 1.0f), pe = sv_float(-1.0e6f, 1.0e12f);
    int tot = sv_int(0, 200), e4 = sv_int(0, 20), pt = (int)sv_uint();
    for (int l = 0; l < 57; l++) { cur.Ml[l] = M[l]; cur.Vl[l] = V[l]; prev.Ml[l] = l ? T[l] : 0; prev.Vl[l] = l & 1; cur.log2Ml[l] = (float)l; }
    cur.L = L; cur.w0 = w0; cur.errorRate = rate; cur.errorCountTotal = tot; cur.errorCount4 = e4; cur.localEnergy = 1.0f; cur.amplitudeThreshold = 7;
    cur.mutingThreshold = 2.0f;
    prev.L = 20; prev.w0 = 0.1f; prev.localEnergy = pe; prev.amplitudeThreshold = pt; prev.errorRate = 0.5f; prev.errorCountTotal = 50; prev.mutingThreshold = 2.0f;
    p0 = prev;
    double rm0 = 0.0;
    for (int l = 1; l <= L; l++) rm0 += (double)M[l] * M[l];
    if (mode == 1) {
        mbe_spectralAmpEnhance(&cur);
        for (int l = 1; l <= L; l++) cur.Ml[l] = T[l];
        mbe_applyAdaptiveSmoothing(&cur, &prev);
        double e = 0.95f * (double)(pe < 10000.0f ? 75000.0f : pe) + 0.05f * rm0;
        if (e < 10000.0) e = 10000.0;
        sv_close(cur.localEnergy, e, 1e-3, "energy uses the frame before enhancement");
        double s = 0, s1 = 0;
        for (int l = 1; l <= L; l++) s1 += T[l];
        if (s1 > cur.amplitudeThreshold && s1 > 0)
            for (int l = 1; l <= L; l++) sv_close(cur.Ml[l], T[l] * (cur.amplitudeThreshold / s1), 1e-3, "scaling uses the present amplitudes");
        for (int l = 1; l <= L; l++) cur.Ml[l] = T[l], s += (double)T[l] * T[l];
        mbe_applyAdaptiveSmoothing(&cur, &prev);
        e = 0.95f * (double)(pe < 10000.0f ? 75000.0f : pe) + 0.05f * s;
        if (e < 10000.0) e = 10000.0;
        sv_close(cur.localEnergy, e, 1e-3, "the enhancement handoff is used once");
        sv_end();
        return;
    }
    if (mode == 2) {
        oth.L = 12; oth.w0 = 0.2f;
        for (int l = 1; l <= 12; l++) oth.Ml[l] = (float)(100 * l);
        mbe_spectralAmpEnhance(&oth);
    }
    if (mode == 3) {
        cur.repeatCount = 4;
        mbe_synthesizeSpeechf(out, &cur, &prev, 3);
    } else mbe_applyAdaptiveSmoothing(&cur, &prev);

    double e = 0.95f * (double)(pe < 10000.0f ? 75000.0f : pe) + 0.05f * rm0;
    if (e < 10000.0) e = 10000.0;
    sv_close(cur.localEnergy, e, 1e-3, "local energy");
    double x8 = sqrt(sqrt(sqrt((double)cur.localEnergy))), en = x8 * x8 * x8, vm;
    if (rate <= 0.005f && tot <= 4) {
        for (int l = 0; l <= 56; l++) sv_check(cur.Vl[l] == V[l], "voicing untouched at low error rates");
    } else {
        if (rate <= 0.0125f && e4 == 0) vm = 45.255f * en / exp((double)277.26f * rate);
        else vm = 1.414f * en;
        for (int l = 1; l <= L; l++) {
            sv_check(!(M[l] > vm * 1.0001) || cur.Vl[l] == 1, "voicing forced above the threshold");
            sv_check(!(M[l] < vm * 0.9999) || cur.Vl[l] == V[l], "voicing kept below the threshold");
        }
        sv_check(cur.Vl[0] == V[0], "voicing entry zero");
        for (int l = L + 1; l <= 56; l++) sv_check(cur.Vl[l] == V[l] || (mode == 3 && cur.Vl[l] == 1), "voicing beyond the harmonics");
    }
    if (pt > 2147483647 - 6000) pt = 2147483647 - 6000;      /* saturates */
    int tm = rate <= 0.005f && tot <= 6 ? 20480 : 6000 - 300 * tot + (pt <= 0 ? 20480 : pt);
    sv_check(cur.amplitudeThreshold == tm, "amplitude limit");
    tm = cur.amplitudeThreshold;
    double am = 0.0;
    for (int l = 1; l <= L; l++) am += M[l];
    if (am > tm && am > 0.0) {
        double sc = (double)tm / am;
        for (int l = 1; l <= L; l++) sv_close(cur.Ml[l], M[l] * sc, 1e-3, "scaled amplitude");
    } else
        for (int l = 1; l <= L; l++) sv_close(cur.Ml[l], M[l], 1e-3, "amplitude kept");
    for (int l = L + 1; l <= 56; l++) sv_close(cur.Ml[l], M[l], 0.0, "amplitudes beyond the harmonics");
    for (int l = 0; l <= 56; l++) sv_close(cur.log2Ml[l], (double)l, 0.0, "log amplitudes");
    sv_check(cur.L == L && cur.errorCountTotal == tot && cur.errorCount4 == e4, "counts kept");
    sv_close(cur.w0, w0, 0.0, "fundamental kept");
    sv_close(cur.errorRate, rate, 0.0, "error rate kept");
    PARMS_SAME(&prev, &p0, "previous frame untouched");
    sv_end();
}
