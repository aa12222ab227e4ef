/* AMBE frame processing around the decoders proper (C16, C17, C31).  Only the speech synthesiser is replaced (by a
 * recorder); comfort noise and tones are the real ones and compared with what the public generators give.
 * case 0: entry point (0 2450Dataf 1 2450Data 2 2450Framef 3 2450Frame; 4..7 the same for 2400)
 * case 1: frame kind (2450: 0 voice 1 silence 2 erasure 3 unverified tone pitch 4 valid tone 5 invalid tone 6 tone bits with mismatching nibbles
 *                     2400: 0 voice 4 single tone 5 no tone 6 dual tone)
 * case 2: pitch index / tone index, case 3: errors (parameter input: 100*C0 + total; frames: 100*parity flip + 10*C0 + C1)
 * case 4: previous repeat count, case 5: previous state 0 voice 1 foreign (other codec's threshold) 2 erasure */
#include "sv.h"
#include <string.h>
#include "parms.h"
#include "encode.h"
static mbe_parms cur, prev, enh, p0, e0, xc, xp, xe, xs, rc, re, def;
static float out[160], want[160], nx1[160], nx2[160];
static short out16[162];
static char str[64], d[49], dx[49], fr[4][24];
static int calls;
void mbe_synthesizeSpeechf(float* o, mbe_parms* c, mbe_parms* p, int q)
{
    (void)q;
    calls++;
    rc = *c;
    re = *p;
    for (int i = 0; i < 160; i++) o[i] = (float)(i * 5 - 400);
    c->PHIl[3] = 1234.0f;
    c->noiseSeed = 4321.0f;
    p->PSIl[5] = 77.0f;
}
static int entry, errs, errs2;
static void process(void)
{
    switch (entry) {
    case 0: mbe_processAmbe2450Dataf(out, &errs, &errs2, str, d, &cur, &prev, &enh, 3); break;
    case 1: mbe_processAmbe2450Data(out16 + 1, &errs, &errs2, str, d, &cur, &prev, &enh, 3); break;
    case 2: mbe_processAmbe3600x2450Framef(out, &errs, &errs2, str, fr, dx, &cur, &prev, &enh, 3); break;
    case 3: mbe_processAmbe3600x2450Frame(out16 + 1, &errs, &errs2, str, fr, dx, &cur, &prev, &enh, 3); break;
    case 4: mbe_processAmbe2400Dataf(out, &errs, &errs2, str, d, &cur, &prev, &enh, 3); break;
    case 5: mbe_processAmbe2400Data(out16 + 1, &errs, &errs2, str, d, &cur, &prev, &enh, 3); break;
    case 6: mbe_processAmbe3600x2400Framef(out, &errs, &errs2, str, fr, dx, &cur, &prev, &enh, 3); break;
    default: mbe_processAmbe3600x2400Frame(out16 + 1, &errs, &errs2, str, fr, dx, &cur, &prev, &enh, 3); break;
    }
}
static void put(int v, int n, const int* pos) { for (int i = 0; i < n; i++) d[pos[i]] = (char)(v >> (n - 1 - i) & 1); }
static void frame(int kind, int v, int pat)
{
    static const int p25[7] = {0, 1, 2, 3, 37, 38, 39}, p24[7] = {0, 1, 2, 3, 4, 5, 48}, id1[8] = {12, 13, 14, 15, 16, 17, 18, 19};
    unsigned x = 54321u + 977u * (unsigned)v;
    for (int i = 0; i < 49; i++) { x = x * 1103515245u + 12345u; d[i] = (char)(x >> 20 & 1); }
    if (entry < 4) {
        if (kind < 4) put(v, 7, p25);
        else {
            for (int i = 0; i < 6; i++) d[i] = 1;
            put(v, 8, id1);
            if (kind < 6) for (int i = 45; i < 49; i++) d[i] = 0;
            else { d[48] = 1; d[12] = 0; d[20] = 1; d[37] = 0; }
            if (v & 1) d[37] = 0; else { d[37] = 1; d[38] = 1; }        /* pitch index of the tone frame: never 124/125 */
        }
        if (kind == 0 || kind == 3) d[5] = 0;
        if (kind == 1 || kind == 2) d[4] = 0;
    } else if (kind == 0) put(v, 7, p24);
    else {
        static const int t7[8] = {1, 0, 0, 0, 0, 1, 1, 1}, t6[8] = {0, 0, 0, 1, 1, 1, 1, 0}, t5[8] = {0, 0, 1, 0, 1, 1, 0, 1};
        put(126 + (v & 1), 7, p24);
        for (int k = 0; k < 8; k++)
            if (t7[k] == (v >> 7 & 1) && t6[k] == (v >> 6 & 1) && t5[k] == (v >> 5 & 1)) { d[6] = (char)(k >> 2); d[7] = (char)(k >> 1 & 1); d[8] = (char)(k & 1); }
        d[9] = (char)(v >> 4 & 1); d[42] = (char)(v >> 3 & 1); d[43] = (char)(v >> 2 & 1); d[10] = (char)(v >> 1 & 1); d[11] = (char)(v & 1);
    }
    if (!(entry & 2)) { errs = pat / 100; errs2 = pat % 100; return; }
    enc_ambe(d, fr);
    int c0 = pat / 10 % 10, c1 = pat % 10;
    for (int k = 0; k < c0; k++) fr[0][1 + 12 + 2 * k] ^= 1;
    for (int k = 0; k < c1; k++) fr[1][11 + 3 * k] ^= 1;
    if (pat >= 100) { fr[0][0] ^= 1; if (c0 == 0) c0 = 1; }
    errs = c0;
    errs2 = c0 + c1;
}
static void defaults(mbe_parms* p)
{
    memset(p, 0, sizeof *p);
    p->w0 = (float)((3.14159265358979323846 / 32.0) * (2.0 * 3.14159265358979323846));
    p->L = 15;
    for (int l = 0; l < 57; l++) p->Ml[l] = 1.0f;
    p->localEnergy = 75000.0f;
    p->amplitudeThreshold = 20480;
    p->mutingThreshold = 0.096f;
    p->noiseSeed = -1.0f;
}
static void blocks(int pk)
{
    for (int l = 0; l < 57; l++) {
        prev.Ml[l] = 2.0f + (float)l; prev.log2Ml[l] = 0.5f + 0.01f * (float)l; prev.PHIl[l] = 0.1f * (float)l; prev.PSIl[l] = 0.2f * (float)l; prev.Vl[l] = l % 3 == 1;
        cur.Ml[l] = 900.0f; cur.log2Ml[l] = 9.0f; cur.PHIl[l] = 3.0f; cur.PSIl[l] = 4.0f; cur.Vl[l] = 1;
        enh.Ml[l] = 500.0f; enh.log2Ml[l] = 5.0f; enh.PHIl[l] = 1.0f; enh.PSIl[l] = 2.0f; enh.Vl[l] = 0;
    }
    for (int i = 0; i < 256; i++) { prev.previousUw[i] = (float)i; cur.previousUw[i] = (float)(i + 1000); enh.previousUw[i] = (float)(i + 2000); }
    for (int i = 0; i < 96; i++) { prev.noiseOverlap[i] = (float)i; cur.noiseOverlap[i] = (float)(i + 100); enh.noiseOverlap[i] = (float)(i + 200); }
    prev.w0 = 0.25f; prev.L = 11; prev.K = 4; cur.w0 = 0.06f; cur.L = 50; cur.K = 12; enh.w0 = 0.2f; enh.L = 14; enh.K = 5;
    prev.un = 1; cur.un = 2; enh.un = 3;
    prev.gamma = 1; cur.gamma = 2; enh.gamma = 3; prev.swn = 4; cur.swn = 5; enh.swn = 6; prev.repeat = 0; cur.repeat = 9; enh.repeat = 8;
    prev.errorRate = 0.0f; cur.errorRate = 0.7f; enh.errorRate = 0.6f; prev.errorCountTotal = 3; cur.errorCountTotal = 33; enh.errorCountTotal = 44;
    prev.errorCount4 = 1; cur.errorCount4 = 17; enh.errorCount4 = 18; prev.repeatCount = 0; cur.repeatCount = 0; enh.repeatCount = 67;
    prev.mutingThreshold = cur.mutingThreshold = enh.mutingThreshold = 0.096f;
    prev.localEnergy = 80000.0f; cur.localEnergy = 81000.0f; enh.localEnergy = 82000.0f;
    prev.amplitudeThreshold = 111; cur.amplitudeThreshold = 222; enh.amplitudeThreshold = 333;
    prev.noiseSeed = 100.0f; cur.noiseSeed = 200.0f; enh.noiseSeed = 300.0f;
    if (pk == 1) prev.mutingThreshold = 0.0875f;
    if (pk == 2) { prev.w0 = 0.0f; prev.L = 9; prev.K = 0; prev.gamma = 0.0f; for (int l = 0; l < 57; l++) { prev.Ml[l] = 1.0f; prev.log2Ml[l] = 0.0f; prev.Vl[l] = 0; } }
}
static void erased(mbe_parms* p, const mbe_parms* from)
{
    p->swn = 0; p->un = 0; p->w0 = 0.0f; p->L = 9; p->K = 0; p->gamma = 0.0f;
    for (int l = 0; l < 57; l++) { p->Ml[l] = 1.0f; p->Vl[l] = 0; p->log2Ml[l] = 0.0f; p->PHIl[l] = from->PHIl[l]; p->PSIl[l] = from->PSIl[l]; }
    p->localEnergy = 75000.0f; p->amplitudeThreshold = 20480;
    p->noiseSeed = from->noiseSeed;
    for (int i = 0; i < 96; i++) p->noiseOverlap[i] = from->noiseOverlap[i];
    for (int i = 0; i < 256; i++) p->previousUw[i] = from->previousUw[i];
}
void harness(void)
{
    entry = sv_case(0);
    int kind = sv_case(1), v = sv_case(2), pat = sv_case(3), rcount = sv_case(4), pk = sv_case(5), is2450 = entry < 4;
    float rate = sv_float(0.0f, 0.05f), g = sv_float(-5.0f, 5.0f), ph = sv_float(0.0f, 6.0f), le = sv_float(1.0e4f, 1.0e9f), pv[57], pl[57];
    for (int l = 1; l < 57; l++) { pv[l] = sv_float(0.01f, 5000.0f); pl[l] = sv_float(-5.0f, 12.0f); }
    int pt = sv_int(0, 100000);
    /* the recorder really stands in for the synthesiser (else nothing below means anything) */
    blocks(0);
    frame(0, 50, 0);
    process();
    sv_assume(calls == 1);
    calls = 0;
    defaults(&def);
    blocks(pk);
    if (pk != 2) { for (int l = 1; l < 57; l++) { prev.Ml[l] = pv[l]; prev.log2Ml[l] = pl[l]; } prev.gamma = g; }
    prev.errorRate = rate; prev.PHIl[7] = ph; prev.localEnergy = le; prev.amplitudeThreshold = pt; prev.repeatCount = prev.repeat = rcount;
    enh.Ml[3] = pv[4]; enh.PSIl[9] = ph;
    cur.repeatCount = rcount;
    frame(kind, v, pat);
    int c0 = errs, total = errs2, isframe = entry >> 1 & 1;
    p0 = prev; e0 = enh; xc = cur; xp = prev;
    if (pk == 1) { xc = def; xp = def; p0 = def; e0 = def; }
    xc.mutingThreshold = 0.096f; xc.errorCountTotal = total; xc.errorCount4 = 0;
    xc.errorRate = 0.95f * xp.errorRate + 0.001064f * (float)total;
    /* what the frame is and what must happen */
    int erasure = 0, tone = 0, noise = 0, reset = 0, rep = 0, voice = 0, again = 0, single = 0;
    if (is2450) {
        if (kind >= 4 && kind < 6 && total < 6) tone = kind == 4 ? 1 : 2;
        else if (kind >= 2) erasure = 1;
        else voice = 1;
    } else {
        if (kind == 0) voice = 1;
        else if (kind == 4) single = 1;
        else tone = 2;
    }
    if (voice) {
        rep = !is2450 || !isframe ? total > 3 : c0 >= 4 || (c0 >= 2 && total >= 6);
        if (rep && xp.repeat + 1 > 3) reset = 1;
    } else if (single) {
        if (v >= 7 && c0 < 2 && total < 3) tone = 1;
        else { reset = 1; rep = total > 3; }
    } else if (tone == 2) { if (is2450 && xp.repeatCount < 4) again = 1; else reset = 1; }
    noise = erasure || reset;
    /* run it */
    for (int i = 0; i < 64; i++) str[i] = 'x';
    if (isframe) { errs = 99; errs2 = 98; }
    for (int i = 0; i < 49; i++) dx[i] = 9;
    for (int i = 0; i < 162; i++) out16[i] = 7777;
    mbe_setThreadRngSeed(777u);
    process();
    for (int i = 0; i < 160; i++) nx1[i] = 0.0f;
    mbe_synthesizeComfortNoisef(nx1);
    /* audio */
    mbe_setThreadRngSeed(777u);
    if (noise) mbe_synthesizeComfortNoisef(want);
    mbe_synthesizeComfortNoisef(nx2);
    sv_check(calls == (voice && !reset) + again, "speech is rendered exactly when the frame or a repeat calls for it");
    for (int i = 0; i < 160; i += 13) sv_same(nx1[i], nx2[i], "the comfort noise generator advances only in noise frames");
    if (tone == 1) {
        xs = xc;
        if (!is2450) { mbe_decodeAmbe2400Parms(d, &xs, &xp); mbe_synthesizeTonefdstar(want, d, &xs, v); }
        else { mbe_decodeAmbe2450Parms(d, &xs, &xp); mbe_synthesizeTonef(want, d, &xs); }
    } else if (!noise) for (int i = 0; i < 160; i++) want[i] = (float)(i * 5 - 400);
    static short want16[160];
    mbe_floattoshort(want, want16);
    for (int i = 0; i < 160; i++) {
        if (entry & 1) sv_check(out16[i + 1] == want16[i], "16-bit output is the converted frame");
        else sv_close(out[i], want[i], 1e-6, "output is the frame called for");
    }
    sv_check(out16[0] == 7777 && out16[161] == 7777, "16-bit output bounds");
    /* status */
    sv_check(errs2 == total && errs == c0, "reported error counts");
    int n = 0;
    for (; n < total; n++) sv_check(str[n] == '=', "one mark per error");
    if (erasure) sv_check(str[n++] == 'E', "erasure is reported");
    if (!single && tone) sv_check(str[n++] == 'T', "tone is reported");
    if (rep) sv_check(str[n++] == 'R', "repeat is reported");
    if (voice && reset) sv_check(str[n++] == 'M', "muting is reported");
    sv_check(str[n] == 0, "status string ends there");
    for (int i = n + 1; i < 64; i++) sv_check(str[i] == 'x', "nothing written past the status string");
    for (int i = 0; i < 49 && isframe; i++) sv_check(dx[i] == d[i], "extracted parameter bits");
    /* state */
    if (reset) {
        PARMS_SAME(&prev, &def, "previous block restarts from defaults");
        PARMS_SAME(&cur, &def, "current block restarts from defaults");
        PARMS_SAME(&enh, &def, "enhanced block restarts from defaults");
    } else if (erasure) {
        sv_check(cur.repeat == 0 && cur.repeatCount == 0, "an erasure ends a run of repeats");
        xc.repeat = xc.repeatCount = 0;
        erased(&xc, &xp);
        PARMS_SAME(&prev, &xc, "an erasure leaves the neutral frame as previous frame");
        PARMS_SAME(&enh, &xc, "an erasure leaves the neutral frame as enhanced frame");
        PARMS_SAME(&cur, &xc, "an erasure leaves the neutral frame as current frame");
    } else if (tone == 1 && is2450) {
        xs.repeat = xs.repeatCount = 0;
        PARMS_SAME(&prev, &p0, "a tone leaves the previous frame alone");
        PARMS_SAME(&enh, &e0, "a tone leaves the enhanced frame alone");
        PARMS_SAME(&cur, &xs, "a tone advances only its phase");
    } else if (tone == 1) {
        PARMS_SAME(&prev, &xs, "a tone frame becomes the previous frame");
        PARMS_SAME(&cur, &xs, "a tone advances only its phase");
        PARMS_SAME(&enh, &e0, "a tone leaves the enhanced frame alone");
    } else if (again) {
        xs = e0;
        PARMS_SAME(&rc, &xs, "an invalid tone renders the previous voice frame");
        PARMS_SAME(&re, &e0, "an invalid tone continues the previous voice frame");
        xs.PHIl[3] = 1234.0f; xs.noiseSeed = 4321.0f;
        PARMS_SAME(&enh, &xs, "rendering state moves on");
        PARMS_SAME(&prev, &p0, "an invalid tone leaves the previous frame alone");
    } else {
        if (is2450) mbe_decodeAmbe2450Parms(d, &xc, &xp); else mbe_decodeAmbe2400Parms(d, &xc, &xp);
        if (rep) {
            xc = xp;
            xc.repeat++;
            xc.repeatCount++;
            for (int l = 1; l <= p0.L; l++) { sv_same(prev.Ml[l], p0.Ml[l], "repeat keeps amplitudes"); sv_same(prev.log2Ml[l], p0.log2Ml[l], "repeat keeps log amplitudes"); sv_check(prev.Vl[l] == p0.Vl[l], "repeat keeps voicing"); }
            sv_check(prev.L == p0.L, "repeat keeps counts");
            sv_same(prev.w0, p0.w0, "repeat keeps the fundamental");
            sv_same(prev.gamma, p0.gamma, "repeat keeps the gain");
        } else xc.repeat = xc.repeatCount = 0;
        PARMS_SAME(&prev, &xc, "new previous parameters");
        xe = xc;
        mbe_spectralAmpEnhance(&xe);
        PARMS_SAME(&rc, &xe, "rendered parameters are the enhanced current ones");
        xe.PHIl[3] = 1234.0f; xe.noiseSeed = 4321.0f;
        PARMS_SAME(&cur, &xe, "current block after rendering");
        PARMS_SAME(&enh, &xe, "enhanced block is the current one after rendering");
        PARMS_SAME(&re, &e0, "rendered against the previous enhanced block");
    }
    sv_end();
}
