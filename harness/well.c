/* Well-formedness of the decoder state is preserved by every frame (C14).  Synthesis and enhancement are replaced: they
 * change no field looked at here (enhancement: C24, smoothing: C23, rendering: C27).
 * case 0: codec (0 IMBE, 1 AMBE 2450, 2 AMBE 2400), case 1: pitch index, case 2: 0 all other bits and the previous harmonic counts symbolic, 1, 2: fixed (2: counts symbolic)
 * case 3: error total, case 4: previous repeat count, case 5: previous frame 0 voice, 1 erasure (AMBE), 2 foreign codec's block (AMBE) */
#include "sv.h"
#include <string.h>
#include "parms.h"
static mbe_parms s[3];
static float out[160];
static char str[64], d[88];
static int calls, ecalls;
void mbe_synthesizeSpeechf(float* o, mbe_parms* c, mbe_parms* p, int q) { (void)c; (void)p; (void)q; calls++; for (int i = 0; i < 160; i++) o[i] = 0.0f; }
void mbe_spectralAmpEnhance(mbe_parms* p) { (void)p; ecalls++; }
static int codec, errs, errs2;
static void process(void)
{
    if (codec == 0) mbe_processImbe4400Dataf(out, &errs, &errs2, str, d, s, s + 1, s + 2, 3);
    else if (codec == 1) mbe_processAmbe2450Dataf(out, &errs, &errs2, str, d, s, s + 1, s + 2, 3);
    else mbe_processAmbe2400Dataf(out, &errs, &errs2, str, d, s, s + 1, s + 2, 3);
}
static void pitch(int b0)
{
    static const int pi[8] = {0, 1, 2, 3, 4, 5, 85, 86}, p25[7] = {0, 1, 2, 3, 37, 38, 39}, p24[7] = {0, 1, 2, 3, 4, 5, 48};
    if (codec == 0) for (int i = 0; i < 8; i++) d[pi[i]] = (char)(b0 >> (7 - i) & 1);
    else for (int i = 0; i < 7; i++) d[codec == 1 ? p25[i] : p24[i]] = (char)(b0 >> (6 - i) & 1);
}
void harness(void)
{
    codec = sv_case(0);
    int b0 = sv_case(1), seed = sv_case(2), total = sv_case(3), rcount = sv_case(4), pk = sv_case(5);
    unsigned x = 99u + 7919u * (unsigned)seed + 31u * (unsigned)b0;
    float lo = codec == 0 ? 0.0509f : 0.0494f, hi = codec == 0 ? 0.3182f : 0.6169f;
    int Ls[3], v[57];
    float ws[3], rate = sv_float(0.0f, 1.0f), pl[57];
    char bit[88];
    for (int b = 0; b < 3; b++) { int q = sv_int(9, 56); Ls[b] = seed == 1 ? 9 + (b0 * 7 + b * 13) % 48 : q; ws[b] = sv_float(lo, hi); }
    for (int l = 0; l < 57; l++) { v[l] = sv_bit(); pl[l] = sv_float(-40.0f, 40.0f); }
    float g = sv_float(-40.0f, 40.0f);
    for (int i = 0; i < 88; i++) { x = x * 1103515245u + 12345u; bit[i] = seed ? (char)(x >> 20 & 1) : (char)sv_bit(); }
    mbe_initMbeParms(s, s + 1, s + 2);
    pitch(50);
    process();
    sv_assume(calls == 1 && ecalls == 1);       /* the replacements really are what the library calls */
    for (int b = 0; b < 3; b++) {
        memset(s + b, 0, sizeof s[b]);
        for (int l = 0; l < 57; l++) { s[b].Ml[l] = 1.0f; s[b].Vl[l] = v[(l + 7 * b) % 57]; s[b].log2Ml[l] = pl[l]; }
        s[b].L = Ls[b]; s[b].w0 = ws[b]; s[b].gamma = g; s[b].K = 5; s[b].errorRate = rate; s[b].mutingThreshold = codec == 0 ? 0.0875f : 0.096f;
        s[b].repeatCount = s[b].repeat = rcount; s[b].localEnergy = 75000.0f; s[b].amplitudeThreshold = 20480; s[b].noiseSeed = 5.0f;
        if (pk == 1 && b) { s[b].w0 = 0.0f; s[b].L = 9; }
        if (pk == 2) { s[b].mutingThreshold = 0.0875f; s[b].repeatCount = 9; s[b].repeat = 9; s[b].L = 5; }
    }
    for (int i = 0; i < 88; i++) d[i] = bit[i];
    pitch(b0);
    errs = 0; errs2 = total;
    process();
    int limit = codec == 0 ? 4 : 3, was = pk == 2 ? 0 : rcount;
    for (int b = 0; b < 3; b++) {
        const mbe_parms* p = s + b;
        int kept = p->w0 == 0.0f && codec != 0;
        sv_check(p->L >= 9 && p->L <= 56, "harmonic count stays within 9..56");
        sv_check(kept || (p->w0 >= lo && p->w0 <= hi), "fundamental stays within the codec's range");
        for (int l = 1; l < 57; l++) sv_check(p->Vl[l] == 0 || p->Vl[l] == 1, "voicing flags stay 0 or 1");
        sv_close(p->mutingThreshold, codec == 0 ? 0.0875 : 0.096, 1e-6, "muting threshold is the codec's own");
        sv_check(p->repeatCount >= 0 && p->repeatCount <= was + 1 && p->repeatCount <= limit, "repeat count grows by at most one and not past its limit");
        sv_check(p->repeat >= 0 && p->repeat <= was + 1, "repeat flag grows by at most one");
        sv_check(p->errorRate >= 0.0f && p->errorRate <= 1.0f, "error rate stays within 0..1");
    }
    sv_end();
}
