/* Decoding depends only on the frame and the stream's own state (C25).  Stream a is decoded frame by frame, each frame in
 * a new thread; stream b gets the same frames in the main thread, with other streams' work in between.
 * case 0: entry (0 IMBE 4400Dataf 1 IMBE 7200Framef 2 IMBE 7100Framef 3 2450Dataf 4 2450Framef 5 2400Dataf 6 2400Framef)
 * case 1, 2: the two frames: 1000 * errors + pitch index (AMBE: 128.. tone frames with that index - 128)
 * case 3: what the thread does in between
 * case 4: repeat count so far */
#include "sv.h"
#include <string.h>
#include "parms.h"
#include "encode.h"
struct stream { mbe_parms *cur; mbe_parms prev, enh; float out[160]; char str[64]; int errs, errs2; };
static mbe_parms acur, bcur, kcur, qc1, qc2, qc3;
static struct stream a, b, keep, q1, q2, q3;
static char d[88], dx[88], e7[8][23], e71[7][24], ea[4][24];
static int entry;
static int sym[12];
static float amp[8];
static void fill(unsigned x) { for (int i = 0; i < 88; i++) { x = x * 1103515245u + 12345u; d[i] = (char)(x >> 20 & 1); } }
static void put(int v, int n, const int* pos) { for (int i = 0; i < n; i++) d[pos[i]] = (char)(v >> (n - 1 - i) & 1); }
static void frame(int en, int b0)
{
    static const int pi[8] = {0, 1, 2, 3, 4, 5, 85, 86}, p25[7] = {0, 1, 2, 3, 37, 38, 39}, p24[7] = {0, 1, 2, 3, 4, 5, 48};
    fill(991u * (unsigned)b0 + 17u);
    if (en < 3) put(b0, 8, pi);
    else if (en < 5) {
        if (b0 < 128) put(b0, 7, p25);
        else {
            static const int id1[8] = {12, 13, 14, 15, 16, 17, 18, 19};
            for (int i = 0; i < 6; i++) d[i] = 1;
            put(b0 - 128, 8, id1);
            for (int i = 45; i < 49; i++) d[i] = 0;
            d[37] = 0;
        }
    } else {
        put(b0 < 128 ? b0 : 126, 7, p24);
        if (b0 >= 128) {
            static const int t7[8] = {1, 0, 0, 0, 0, 1, 1, 1}, t6[8] = {0, 0, 0, 1, 1, 1, 1, 0}, t5[8] = {0, 0, 1, 0, 1, 1, 0, 1};
            int v = b0 - 128;
            for (int k = 0; k < 8; k++)
                if (t7[k] == (v >> 7 & 1) && t6[k] == (v >> 6 & 1) && t5[k] == (v >> 5 & 1)) { d[6] = (char)(k >> 2); d[7] = (char)(k >> 1 & 1); d[8] = (char)(k & 1); }
            d[9] = (char)(v >> 4 & 1); d[42] = (char)(v >> 3 & 1); d[43] = (char)(v >> 2 & 1); d[10] = (char)(v >> 1 & 1); d[11] = (char)(v & 1);
        }
    }
}
static void encode(int en)
{
    if (en == 1) enc_imbe72(d, e7);
    if (en == 2) { enc_imbe71(d, e71); }
    if (en == 4 || en == 6) enc_ambe(d, ea);
}
static void run(struct stream* s, int en)
{
    switch (en) {
    case 0: mbe_processImbe4400Dataf(s->out, &s->errs, &s->errs2, s->str, d, s->cur, &s->prev, &s->enh, 3); break;
    case 1: mbe_processImbe7200x4400Framef(s->out, &s->errs, &s->errs2, s->str, e7, dx, s->cur, &s->prev, &s->enh, 3); break;
    case 2: mbe_processImbe7100x4400Framef(s->out, &s->errs, &s->errs2, s->str, e71, dx, s->cur, &s->prev, &s->enh, 3); break;
    case 3: mbe_processAmbe2450Dataf(s->out, &s->errs, &s->errs2, s->str, d, s->cur, &s->prev, &s->enh, 3); break;
    case 4: mbe_processAmbe3600x2450Framef(s->out, &s->errs, &s->errs2, s->str, ea, dx, s->cur, &s->prev, &s->enh, 3); break;
    case 5: mbe_processAmbe2400Dataf(s->out, &s->errs, &s->errs2, s->str, d, s->cur, &s->prev, &s->enh, 3); break;
    default: mbe_processAmbe3600x2400Framef(s->out, &s->errs, &s->errs2, s->str, ea, dx, s->cur, &s->prev, &s->enh, 3); break;
    }
}
static void other(struct stream* s, int en, int b0, int errs)
{
    frame(en, b0);
    encode(en);
    s->errs = errs; s->errs2 = errs;
    run(s, en);
}
static void between(int kind)
{
    static float n[160];
    if (kind == 1 || kind == 4) {           /* voice frames of every codec: other harmonic counts in every cache */
        other(&q1, 0, 20, 0);
        other(&q2, 3, 100, 0);
        other(&q3, 5, 12, 0);
        other(&q1, 0, 180, 0);
    }
    if (kind == 2) {                        /* erasures, tones, mutes, noise, bare enhancement */
        q1.prev.repeatCount = 4; q1.cur->repeatCount = 4;
        other(&q1, 0, 250, 9);
        other(&q2, 3, 128 + 40, 0);
        other(&q3, 5, 126, 0);
        q2.prev.repeatCount = 3; q2.cur->repeatCount = 3;
        other(&q2, 3, 120, 8);
        mbe_synthesizeComfortNoisef(n);
        q1.cur->L = 30;
        for (int l = 1; l <= 30; l++) q1.cur->Ml[l] = (float)(50 * l);
        mbe_spectralAmpEnhance(q1.cur);
    }
    if (kind == 3) {                        /* the same memory held another stream meanwhile */
        keep = b;
        kcur = bcur;
        mbe_initMbeParms(b.cur, &b.prev, &b.enh);
        other(&b, 3, 50, 0);
        other(&b, 0, 77, 0);
        other(&b, 5, 33, 0);
        b.cur->L = 30;
        for (int l = 1; l <= 30; l++) b.cur->Ml[l] = (float)(40 * l);
        mbe_spectralAmpEnhance(b.cur);
        b = keep;
        bcur = kcur;
    }
    if (kind == 4) {                        /* the stack below is dirty, too */
        volatile float big[2500];
        for (int i = 0; i < 2500; i++) big[i] = 3.25f;
        (void)big[7];
    }
}
static float na[160], nb[160];
static void run_a(void) { run(&a, entry); mbe_synthesizeComfortNoisef(na); }
static void only_noise(void) { mbe_synthesizeComfortNoisef(nb); }
static void mine(int fr, int idx)
{
    frame(entry, fr % 1000);
    if (entry == 0 || entry == 3 || entry == 5) {
        static const int ps[3][4] = {{60, 50, 30, 24}, {36, 24, 25, 28}, {44, 20, 22, 27}};
        if (fr % 1000 < (entry == 0 ? 256 : 128)) for (int i = 0; i < 4; i++) d[ps[entry / 2][i]] = (char)sym[idx * 4 + i];
    }
    encode(entry);
    if (entry == 1) for (int k = 0; k < fr / 1000; k++) { e7[k % 4][k] ^= 1; }
    if (entry == 2) for (int k = 0; k < fr / 1000; k++) { e71[k % 4][k + 2] ^= 1; }
    if (entry == 4 || entry == 6) for (int k = 0; k < fr / 1000; k++) ea[k & 1][k + 3] ^= 1;
}
void harness(void)
{
    entry = sv_case(0);
    int kind = sv_case(3), rc = sv_case(4);
    for (int i = 0; i < 12; i++) sym[i] = sv_bit();
    for (int i = 0; i < 8; i++) amp[i] = sv_float(1.0f, 300.0f);
    a.cur = &acur; b.cur = &bcur; q1.cur = &qc1; q2.cur = &qc2; q3.cur = &qc3;
    mbe_initMbeParms(q1.cur, &q1.prev, &q1.enh);
    mbe_initMbeParms(q2.cur, &q2.prev, &q2.enh);
    mbe_initMbeParms(q3.cur, &q3.prev, &q3.enh);
    mbe_initMbeParms(a.cur, &a.prev, &a.enh);
    for (int i = 0; i < 8; i++) {
        int l = 1 + 5 * i;
        a.enh.Ml[l] = amp[i];
        a.enh.Vl[l] = i & 1;
        a.prev.log2Ml[l] = (float)(i & 3);
    }
    for (int i = 0; i < 256; i++) a.enh.previousUw[i] = (float)((i * 37) % 101 - 50);
    a.enh.noiseSeed = a.prev.noiseSeed = a.cur->noiseSeed = 4242.0f;
    for (int i = 0; i < 96; i++) a.enh.noiseOverlap[i] = a.prev.noiseOverlap[i] = a.cur->noiseOverlap[i] = (float)(i * 13);
    a.prev.errorRate = a.enh.errorRate = a.cur->errorRate = 0.004f;
    a.prev.repeatCount = a.enh.repeatCount = a.cur->repeatCount = rc;
    b = a;
    b.cur = &bcur;
    bcur = acur;
    for (int k = 0; k < 2; k++) {
        int fr = sv_case(1 + k);
        between(kind);
        mine(fr, k);
        a.errs = a.errs2 = fr / 1000;
        sv_thread(run_a);
        int muted = 0;
        if (entry >= 5 && fr % 1000 >= 126 && fr % 1000 < 128) muted = 1;      /* dual tones and tone codes without a tone: comfort noise */
        for (int i = 0; a.str[i]; i++) muted |= a.str[i] == 'M' || a.str[i] == 'E';
        mine(fr, k);
        b.errs = b.errs2 = fr / 1000;
        run(&b, entry);
        sv_check(a.errs == b.errs && a.errs2 == b.errs2, "error counts");
        for (int i = 0; i < 64; i++) { sv_check(a.str[i] == b.str[i], "status text"); if (a.str[i] == 0) break; }
        PARMS_SAME(a.cur, b.cur, "current block");
        PARMS_SAME(&a.prev, &b.prev, "previous block");
        PARMS_SAME(&a.enh, &b.enh, "enhanced block");
        if (!muted) {
            for (int i = 0; i < 160; i++) sv_same(a.out[i], b.out[i], "audio");
            sv_thread(only_noise);
            for (int i = 0; i < 160; i++) sv_same(na[i], nb[i], "frames that are not muted leave the comfort noise alone");
        }
    }
    sv_end();
}
