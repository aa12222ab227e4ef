/* IMBE frame processing around the decoder proper (C15, C17).  The synthesiser is replaced by a recorder.
 * case 0: entry point (0 4400Dataf 1 4400Data 2 7200Framef 3 7200Frame 4 7100Framef 5 7100Frame)
 * case 1: pitch index, case 2: errors - entry 0/1: the total, else one decimal digit per code word, C0 first
 * case 3: previous repeat count, case 4: bit 0 error rate above the muting threshold, bit 1 total reaches the rate-dependent limit */
#include "sv.h"
#include <string.h>
#include "parms.h"
#include "encode.h"
static mbe_parms cur, prev, enh, p0, xc, xp, xe, rc, re;
static float out[160];
static short out16[162];
static char str[64], d[88], dx[88], f72[8][23], f71[7][24];
static int calls;
void mbe_synthesizeSpeechf(float* o, mbe_parms* c, mbe_parms* p, int q)
{
    (void)q;
    calls++;
    rc = *c;
    re = *p;
    for (int i = 0; i < 160; i++) o[i] = (float)(i * 5 - 400);
    c->PHIl[3] = 1234.0f;
    c->noiseSeed = 4321.0f;
    p->PSIl[5] = 77.0f;
}
static int entry, errs, errs2;
static void process(void)
{
    static int u1, u2;
    u1 = u2 = 0;
    if (entry == 0) mbe_processImbe4400Dataf(out, &u1, &errs2, str, d, &cur, &prev, &enh, 3);
    else if (entry == 1) mbe_processImbe4400Data(out16 + 1, &u1, &errs2, str, d, &cur, &prev, &enh, 3);
    else if (entry == 2) mbe_processImbe7200x4400Framef(out, &errs, &errs2, str, f72, dx, &cur, &prev, &enh, 3);
    else if (entry == 3) mbe_processImbe7200x4400Frame(out16 + 1, &errs, &errs2, str, f72, dx, &cur, &prev, &enh, 3);
    else if (entry == 4) mbe_processImbe7100x4400Framef(out, &errs, &errs2, str, f71, dx, &cur, &prev, &enh, 3);
    else mbe_processImbe7100x4400Frame(out16 + 1, &errs, &errs2, str, f71, dx, &cur, &prev, &enh, 3);
}
static void frame(int b0, int pat)
{
    unsigned x = 12345u + 977u * (unsigned)b0;
    for (int i = 0; i < 88; i++) { x = x * 1103515245u + 12345u; d[i] = (char)(x >> 20 & 1); }
    static const int pos[8] = {0, 1, 2, 3, 4, 5, 85, 86};
    for (int i = 0; i < 8; i++) d[pos[i]] = (char)(b0 >> (7 - i) & 1);
    if (entry < 2) return;
    int seven1 = entry >= 4, words = seven1 ? 6 : 7;
    char e[88];
    for (int i = 0; i < 88; i++) e[i] = d[i];
    if (seven1) {           /* undo the reordering: see convert.c */
        int L = (int)(0.9254 * (int)((b0 + 39.5) / 4.0 + 0.25)), K = L < 37 ? (L + 2) / 3 : 12, r = 0;
        for (int i = 0; i < 87; i++) {
            if (i >= 48 && i < 48 + K) e[44 + i - 48] = d[i];
            else if (i == 48 + K) e[42] = d[i];
            else if (i == 49 + K) e[43] = d[i];
            else { int t = 1 + r++; if (t >= 42) t += 2 + K; e[t] = d[i]; }
        }
        e[0] = d[87];
        enc_imbe71(e, f71);
    } else enc_imbe72(e, f72);
    errs2 = 0;
    int div = 1;
    for (int w = 1; w < words; w++) div *= 10;
    for (int w = 0; w < words; w++, div /= 10) {
        int n = pat / div % 10, golay = w < 4;
        if (w == 0) errs = n;
        errs2 += n;
        for (int k = 0; k < n; k++) {
            int p = golay ? 12 + (2 * k + w) % 7 : (3 * w + 2) % 15;     /* message bits: corrections in the parity are not counted */
            if (seven1) f71[w][p] ^= 1; else f72[w][p] ^= 1;
        }
        if (w == 4) cur.errorCount4 = n;
    }
}
static void blocks(void)
{
    for (int l = 0; l < 57; l++) {
        prev.Ml[l] = 2.0f + (float)l; prev.log2Ml[l] = 0.5f + 0.01f * (float)l; prev.PHIl[l] = 0.1f * (float)l; prev.PSIl[l] = 0.2f * (float)l; prev.Vl[l] = l % 3 == 1;
        cur.Ml[l] = 900.0f; cur.log2Ml[l] = 9.0f; cur.PHIl[l] = 3.0f; cur.PSIl[l] = 4.0f; cur.Vl[l] = 1;
        enh.Ml[l] = 500.0f; enh.log2Ml[l] = 5.0f; enh.PHIl[l] = 1.0f; enh.PSIl[l] = 2.0f; enh.Vl[l] = 0;
    }
    for (int i = 0; i < 256; i++) { prev.previousUw[i] = (float)i; cur.previousUw[i] = (float)(i + 1000); enh.previousUw[i] = (float)(i + 2000); }
    for (int i = 0; i < 96; i++) { prev.noiseOverlap[i] = (float)i; cur.noiseOverlap[i] = (float)(i + 100); enh.noiseOverlap[i] = (float)(i + 200); }
    prev.w0 = 0.25f; prev.L = 11; prev.K = 4; cur.w0 = 0.06f; cur.L = 50; cur.K = 12; enh.w0 = 0.2f; enh.L = 14; enh.K = 5;
    prev.gamma = 1; cur.gamma = 2; enh.gamma = 3; prev.swn = 4; cur.swn = 5; enh.swn = 6; prev.repeat = 2; cur.repeat = 9; enh.repeat = 8;
    prev.errorRate = 0.0f; cur.errorRate = 0.7f; enh.errorRate = 0.6f; prev.errorCountTotal = 3; cur.errorCountTotal = 33; enh.errorCountTotal = 44;
    prev.errorCount4 = 1; cur.errorCount4 = 17; enh.errorCount4 = 18; prev.repeatCount = 0; cur.repeatCount = 66; enh.repeatCount = 67;
    prev.mutingThreshold = 0.0875f; cur.mutingThreshold = 0.096f; enh.mutingThreshold = 0.0875f;
    prev.localEnergy = 80000.0f; cur.localEnergy = 81000.0f; enh.localEnergy = 82000.0f;
    prev.amplitudeThreshold = 111; cur.amplitudeThreshold = 222; enh.amplitudeThreshold = 333;
    prev.noiseSeed = 100.0f; cur.noiseSeed = 200.0f; enh.noiseSeed = 300.0f;
}
void harness(void)
{
    entry = sv_case(0);
    int b0 = sv_case(1), pat = sv_case(2), rcount = sv_case(3), cls = sv_case(4);
    float rate = sv_float(0.0f, 1.0f), g = sv_float(-5.0f, 5.0f), ph = sv_float(0.0f, 6.0f), le = sv_float(1.0e4f, 1.0e9f), pv[57], pl[57];
    for (int l = 1; l < 57; l++) { pv[l] = sv_float(0.01f, 5000.0f); pl[l] = sv_float(-5.0f, 12.0f); }
    int pt = sv_int(0, 100000);
    /* the recorder really stands in for the synthesiser (else nothing below means anything) */
    blocks();
    frame(100, 0);
    if (entry < 2) errs2 = 0;
    process();
    sv_assume(calls == 1);
    calls = 0;
    blocks();
    for (int l = 1; l < 57; l++) { prev.Ml[l] = pv[l]; prev.log2Ml[l] = pl[l]; }
    prev.errorRate = rate; prev.gamma = g; prev.PHIl[7] = ph; prev.localEnergy = le; prev.amplitudeThreshold = pt; prev.repeatCount = rcount;
    frame(b0, pat);
    if (entry < 2) { errs2 = pat; errs = 0; }
    int c4 = cur.errorCount4, c0 = errs, total = errs2;
    if (entry < 2) c4 = 0;
    cur.errorCount4 = 17;
    float e = 0.95f * rate + 0.000365f * (float)total;
    int bad = b0 > 207, limit, rep;
    if (entry < 2) { limit = total > 5; rep = bad || limit; }
    else { limit = (float)total >= 10.0f + 40.0f * e; sv_assume(limit == (cls >> 1)); rep = bad || (c0 >= 2 && cls >> 1); }
    /* expected parameters */
    p0 = prev;
    xc = cur; xp = prev;
    xc.mutingThreshold = 0.0875f; xc.errorCountTotal = total; xc.errorRate = e; xc.errorCount4 = c4;
    int reset = rep && rcount >= 4, muted;
    if (rep && !reset) { muted = rcount + 1 >= 4; if (!muted) { sv_assume((rate > 0.0875f) == (cls & 1)); muted = cls & 1; } }
    else { sv_assume((e > 0.0875f) == (cls & 1)); muted = cls & 1; }
    for (int i = 0; i < 64; i++) str[i] = 'x';
    if (entry >= 2) { errs = 99; errs2 = 98; }
    for (int i = 0; i < 88; i++) dx[i] = 9;
    for (int i = 0; i < 162; i++) out16[i] = 7777;
    process();
    sv_check(calls == 1, "the frame is rendered once");
    sv_check(errs2 == total && (entry < 2 || errs == c0), "reported error counts");
    int n = 0;
    for (; n < total; n++) sv_check(str[n] == '=', "one mark per error");
    if (rep) sv_check(str[n++] == 'R', "repeat is reported");
    if (muted) sv_check(str[n++] == 'M', "muting is reported");
    sv_check(str[n] == 0, "status string ends there");
    for (int i = n + 1; i < 64; i++) sv_check(str[i] == 'x', "nothing written past the status string");
    for (int i = 0; i < 88 && entry >= 2; i++) sv_check(dx[i] == d[i], "extracted parameter bits");
    for (int i = 0; i < 160; i++) {
        if (entry & 1) sv_check(out16[i + 1] == (i * 5 - 400) * 7, "16-bit output is the rendered frame");
        else sv_close(out[i], i * 5 - 400, 0.0, "output is the rendered frame");
    }
    sv_check(out16[0] == 7777 && out16[161] == 7777, "16-bit output bounds");
    int r = mbe_decodeImbe4400Parms(d, &xc, &xp);
    sv_check(!r == !bad, "invalid pitch is rejected");
    if (!rep) { xc.repeat = 0; xc.repeatCount = 0; }
    else if (!reset) {
        xc = xp;
        xc.repeat++;
        xc.repeatCount++;
        for (int l = 1; l <= p0.L; l++) { sv_same(prev.Ml[l], p0.Ml[l], "repeat keeps amplitudes"); sv_same(prev.log2Ml[l], p0.log2Ml[l], "repeat keeps log amplitudes"); sv_check(prev.Vl[l] == p0.Vl[l], "repeat keeps voicing"); }
        sv_check(prev.L == p0.L && prev.K == p0.K, "repeat keeps counts");
        sv_same(prev.w0, p0.w0, "repeat keeps the fundamental");
        sv_check(prev.repeatCount == rcount + 1, "repeat count grows by one");
    } else {
        sv_close(prev.w0, 4.0 * 3.14159265358979 / 173.5, 1e-6, "reset fundamental");
        sv_check(prev.L == 39 && prev.K == 12 && prev.repeatCount == 0 && prev.repeat == 0, "reset counts");
        for (int l = 0; l < 57; l++) { sv_check(prev.Vl[l] == 0, "reset voicing"); sv_close(prev.Ml[l], 1.0, 0.0, "reset amplitudes"); sv_close(prev.log2Ml[l], 0.0, 0.0, "reset log amplitudes"); }
        sv_close(prev.localEnergy, 75000.0, 0.0, "reset energy");
        sv_check(prev.amplitudeThreshold == 20480, "reset limit");
        sv_close(prev.errorRate, e, 1e-6, "reset keeps the smoothed rate");
        sv_close(prev.mutingThreshold, 0.0875, 1e-6, "muting threshold");
        xc = prev;
    }
    PARMS_SAME(&prev, &xc, "new previous parameters");
    xe = xc;
    mbe_spectralAmpEnhance(&xe);
    PARMS_SAME(&rc, &xe, "rendered parameters are the enhanced current ones");
    xe.PHIl[3] = 1234.0f; xe.noiseSeed = 4321.0f;
    PARMS_SAME(&cur, &xe, "current block after rendering");
    PARMS_SAME(&enh, &xe, "enhanced block is the current one after rendering");
    blocks();                    /* the render used the enhanced block as previous frame */
    enh.PSIl[5] = re.PSIl[5];
    PARMS_SAME(&re, &enh, "rendered against the previous enhanced block");
    sv_end();
}
