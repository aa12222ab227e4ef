/* Convenience entry points against the composition they stand for (C31).  The synthesiser is replaced by a function of
 * its arguments, so that what is compared includes everything that reaches it.
 * case 0: format (0 IMBE 7200, 1 IMBE 7100, 2 AMBE 2450, 3 AMBE 2400), case 1: frame seed (0: encoded frame, else arbitrary bits)
 * case 2: pitch index for encoded frames, case 3: number of flipped bits, case 4: previous repeat count,
 * case 5: previous error rate class, chosen so that no threshold lies inside it: 0 near zero, 1 muted, 2 between (few errors only) */
#include "sv.h"
#include <string.h>
#include "parms.h"
#include "encode.h"
static mbe_parms s0[3], sa[3], sb[3], sc[3], sd[3];
static float fa[160], fc[160];
static short ia[160], ib[162], ic[160], id[162], ie[160];
static char str0[64], str1[64], str2[64], str3[64], da[96], db[96], dc[96], f72[8][23], g72[8][23], f71[7][24], g71[7][24], fr[4][24], gr[4][24];
static int calls;
void mbe_synthesizeSpeechf(float* o, mbe_parms* c, mbe_parms* p, int q)
{
    calls++;
    for (int i = 0; i < 160; i++) o[i] = c->Ml[i % 57] + (float)(i * q);
    o[7] = c->w0 * 1000.0f; o[8] = p->PHIl[7]; o[9] = p->log2Ml[3]; o[10] = (float)c->L; o[11] = c->errorRate * 1000.0f; o[12] = c->localEnergy;
    c->PHIl[3] += 1.5f;
    c->noiseSeed = p->noiseSeed + 1.0f;
    p->PSIl[5] = 77.0f;
}
static int fmt;
static void whole(int as16, int* e1, int* e2, char* st, char* d, mbe_parms* s, float* f, short* o)
{
    memcpy(g72, f72, sizeof g72); memcpy(g71, f71, sizeof g71); memcpy(gr, fr, sizeof gr);
    if (fmt == 0) { if (as16) mbe_processImbe7200x4400Frame(o, e1, e2, st, g72, d, s, s + 1, s + 2, 3); else mbe_processImbe7200x4400Framef(f, e1, e2, st, g72, d, s, s + 1, s + 2, 3); }
    else if (fmt == 1) { if (as16) mbe_processImbe7100x4400Frame(o, e1, e2, st, g71, d, s, s + 1, s + 2, 3); else mbe_processImbe7100x4400Framef(f, e1, e2, st, g71, d, s, s + 1, s + 2, 3); }
    else if (fmt == 2) { if (as16) mbe_processAmbe3600x2450Frame(o, e1, e2, st, gr, d, s, s + 1, s + 2, 3); else mbe_processAmbe3600x2450Framef(f, e1, e2, st, gr, d, s, s + 1, s + 2, 3); }
    else { if (as16) mbe_processAmbe3600x2400Frame(o, e1, e2, st, gr, d, s, s + 1, s + 2, 3); else mbe_processAmbe3600x2400Framef(f, e1, e2, st, gr, d, s, s + 1, s + 2, 3); }
}
static void stages(int* e1, int* e2, char* d)
{
    memcpy(g72, f72, sizeof g72); memcpy(g71, f71, sizeof g71); memcpy(gr, fr, sizeof gr);
    if (fmt == 0) { *e1 = mbe_eccImbe7200x4400C0(g72); mbe_demodulateImbe7200x4400Data(g72); *e2 = *e1 + mbe_eccImbe7200x4400Data(g72, d); }
    else if (fmt == 1) { *e1 = mbe_eccImbe7100x4400C0(g71); mbe_demodulateImbe7100x4400Data(g71); *e2 = *e1 + mbe_eccImbe7100x4400Data(g71, d); mbe_convertImbe7100to7200(d); }
    else if (fmt == 2) { *e1 = mbe_eccAmbe3600x2450C0(gr); mbe_demodulateAmbe3600x2450Data(gr); *e2 = *e1 + mbe_eccAmbe3600x2450Data(gr, d); }
    else { *e1 = mbe_eccAmbe3600x2400C0(gr); mbe_demodulateAmbe3600x2400Data(gr); *e2 = *e1 + mbe_eccAmbe3600x2400Data(gr, d); }
}
static void data(int as16, int* e1, int* e2, char* st, char* d, mbe_parms* s, float* f, short* o)
{
    if (fmt < 2) { if (as16) mbe_processImbe4400Data(o, e1, e2, st, d, s, s + 1, s + 2, 3); else mbe_processImbe4400Dataf(f, e1, e2, st, d, s, s + 1, s + 2, 3); }
    else if (fmt == 2) { if (as16) mbe_processAmbe2450Data(o, e1, e2, st, d, s, s + 1, s + 2, 3); else mbe_processAmbe2450Dataf(f, e1, e2, st, d, s, s + 1, s + 2, 3); }
    else { if (as16) mbe_processAmbe2400Data(o, e1, e2, st, d, s, s + 1, s + 2, 3); else mbe_processAmbe2400Dataf(f, e1, e2, st, d, s, s + 1, s + 2, 3); }
}
static unsigned x;
static int rnd(void) { x = x * 1103515245u + 12345u; return (int)(x >> 20 & 1); }
static void frame(int seed, int b0, int flips)
{
    static const int p72[8] = {0, 1, 2, 3, 4, 5, 85, 86}, p71[8] = {1, 2, 3, 4, 5, 6, 84, 85}, p25[7] = {0, 1, 2, 3, 37, 38, 39}, p24[7] = {0, 1, 2, 3, 4, 5, 48};
    char d[88];
    x = 777u + 13u * (unsigned)seed + 977u * (unsigned)b0;
    for (int i = 0; i < 88; i++) d[i] = (char)rnd();
    for (int i = 0; i < 8; i++) {
        if (fmt == 0) d[p72[i]] = (char)(b0 >> (7 - i) & 1);
        else if (fmt == 1) d[p71[i]] = (char)(b0 >> (7 - i) & 1);
        else if (i < 7) d[fmt == 2 ? p25[i] : p24[i]] = (char)(b0 >> (6 - i) & 1);
    }
    if (fmt == 2) d[4] = d[5] = (char)(b0 >= 126);
    if (fmt == 2 && b0 >= 126) for (int i = 45; i < 49; i++) d[i] = 0;
    if (fmt == 0) enc_imbe72(d, f72); else if (fmt == 1) enc_imbe71(d, f71); else enc_ambe(d, fr);
    if (seed) {
        for (int i = 0; i < 184; i++) (&f72[0][0])[i] = (char)rnd();
        for (int i = 0; i < 168; i++) (&f71[0][0])[i] = (char)rnd();
        for (int i = 0; i < 96; i++) (&fr[0][0])[i] = (char)rnd();
    }
    for (int k = 0; k < flips; k++) {
        if (fmt == 0) f72[k % 7][(k * 5 + 14) % 15] ^= 1;
        else if (fmt == 1) f71[k % 6][7 + (k * 5 + 6) % 15 % (k % 6 < 4 ? 15 : 8)] ^= 1;
        else fr[k % 2][13 + k] ^= 1;
    }
}
static void state(mbe_parms* s, int rcount, float rate, const float* pv, const float* pl, float g, float ph, float le, int pt)
{
    for (int b = 0; b < 3; b++) {
        for (int l = 0; l < 57; l++) {
            s[b].Ml[l] = (float)(b * 100 + l) + 1.0f; s[b].log2Ml[l] = 0.5f + 0.01f * (float)(l + b); s[b].PHIl[l] = 0.1f * (float)(l + b); s[b].PSIl[l] = 0.2f * (float)(l + b); s[b].Vl[l] = l % 3 == b;
        }
        for (int i = 0; i < 256; i++) s[b].previousUw[i] = (float)(i + 1000 * b);
        for (int i = 0; i < 96; i++) s[b].noiseOverlap[i] = (float)(i + 1000 * b);
        s[b].w0 = 0.25f - 0.05f * (float)b; s[b].L = 11 + 3 * b; s[b].K = 4 + b; s[b].gamma = (float)b; s[b].swn = 4 + b; s[b].un = b; s[b].repeat = s[b].repeatCount = rcount;
        s[b].errorRate = 0.0f; s[b].errorCountTotal = 3 + b; s[b].errorCount4 = b; s[b].mutingThreshold = fmt < 2 ? 0.0875f : 0.096f;
        s[b].localEnergy = 80000.0f + (float)b; s[b].amplitudeThreshold = 111 + b; s[b].noiseSeed = 100.0f + (float)b;
    }
    for (int l = 1; l < 57; l++) { s[1].Ml[l] = pv[l]; s[1].log2Ml[l] = pl[l]; }
    s[1].errorRate = rate; s[1].gamma = g; s[2].PHIl[7] = ph; s[1].localEnergy = le; s[1].amplitudeThreshold = pt;
}
static void fill(char* s) { for (int i = 0; i < 64; i++) s[i] = 'x'; }
void harness(void)
{
    fmt = sv_case(0);
    int seed = sv_case(1), b0 = sv_case(2), flips = sv_case(3), rcount = sv_case(4), cls = sv_case(5), e1, e2, e3, e4, e5, e6;
    float rate = sv_float(cls == 0 ? 0.0f : cls == 1 ? 0.15f : 0.01f, cls == 0 ? 0.0001f : cls == 1 ? 1.0f : 0.08f), g = sv_float(-5.0f, 5.0f), ph = sv_float(0.0f, 6.0f), le = sv_float(1.0e4f, 30000.0f), pv[57], pl[57];
    for (int l = 1; l < 57; l++) { pv[l] = sv_float(0.01f, 50.0f); pl[l] = sv_float(-5.0f, 5.0f); }
    int pt = sv_int(0, 100000);
    state(s0, 0, 0.0f, pv, pl, 1.0f, 0.0f, 2.0e4f, 0);
    frame(0, 50, 0);
    memcpy(sa, s0, sizeof sa);
    e1 = e2 = 0;
    whole(0, &e1, &e2, str0, da, sa, fa, 0);
    sv_assume(calls == 1);
    state(s0, rcount, rate, pv, pl, g, ph, le, pt);
    frame(seed, b0, flips);
    fill(str0); fill(str1); fill(str2); fill(str3);
    for (int i = 0; i < 96; i++) da[i] = db[i] = dc[i] = 9;
    for (int i = 0; i < 162; i++) ib[i] = id[i] = 7777;
    memcpy(sa, s0, sizeof sa); memcpy(sb, s0, sizeof sb); memcpy(sc, s0, sizeof sc); memcpy(sd, s0, sizeof sd);
    e1 = e2 = e3 = e4 = 55;
    stages(&e5, &e6, dc);
    float er = 0.95f * rate + 0.000365f * (float)e6;
    int limit = (float)e6 >= 10.0f + 40.0f * er;
    mbe_setThreadRngSeed(5u);
    whole(0, &e1, &e2, str0, da, sa, fa, 0);
    mbe_setThreadRngSeed(5u);
    whole(1, &e3, &e4, str1, db, sb, 0, ib + 1);
    /* stages by hand */
    sv_check(e1 == e5 && e2 == e6, "whole-frame error counts are those of the stages");
    sv_check(e3 == e5 && e4 == e6, "16-bit whole-frame error counts are those of the stages");
    int nb = fmt < 2 ? 88 : 49;
    for (int i = 0; i < 96; i++) {
        sv_check(da[i] == dc[i] && db[i] == dc[i], "whole-frame parameter bits are those of the stages");
        if (i >= nb) sv_check(da[i] == 9, "nothing beyond the parameter bits");
    }
    for (int i = 0; i < 64; i++) sv_check(str0[i] == str1[i], "16-bit status is that of the float entry");
    PARMS_SAME(sb, sa, "16-bit entry, current block");
    PARMS_SAME(sb + 1, sa + 1, "16-bit entry, previous block");
    PARMS_SAME(sb + 2, sa + 2, "16-bit entry, enhanced block");
    mbe_floattoshort(fa, ia);
    for (int i = 0; i < 160; i++) sv_check(ib[i + 1] == ia[i], "16-bit samples are the converted float samples");
    sv_check(ib[0] == 7777 && ib[161] == 7777, "16-bit output bounds");
    /* parameter-bit entry points with the counts of the stages; their repeat rule sees no code words, so compare where both rules agree */
    int bad = 0;
    if (fmt < 2) { int p[8] = {0, 1, 2, 3, 4, 5, 85, 86}, v = 0; for (int i = 0; i < 8; i++) v = v << 1 | dc[p[i]]; bad = v > 207; }
    int agree = fmt == 3 || bad || (fmt < 2 ? (e6 > 5) == (e5 >= 2 && limit) : (e6 > 3) == (e5 >= 4 || (e5 >= 2 && e6 >= 6)));
    e1 = e5; e2 = e6; e3 = e5; e4 = e6;
    for (int i = 0; i < 96; i++) da[i] = dc[i];
    mbe_setThreadRngSeed(5u);
    data(0, &e1, &e2, str2, da, sc, fc, 0);
    mbe_setThreadRngSeed(5u);
    data(1, &e3, &e4, str3, da, sd, 0, id + 1);
    sv_check(e1 == e5 && e2 == e6 && e3 == e5 && e4 == e6, "parameter entry points leave the counts alone");
    for (int i = 0; i < 96; i++) sv_check(da[i] == dc[i], "parameter bits are not modified");
    for (int i = 0; i < 64; i++) sv_check(str2[i] == str3[i], "16-bit status is that of the float entry (parameters)");
    PARMS_SAME(sd, sc, "16-bit parameter entry, current block");
    PARMS_SAME(sd + 1, sc + 1, "16-bit parameter entry, previous block");
    PARMS_SAME(sd + 2, sc + 2, "16-bit parameter entry, enhanced block");
    mbe_floattoshort(fc, ic);
    for (int i = 0; i < 160; i++) sv_check(id[i + 1] == ic[i], "16-bit samples are the converted float samples (parameters)");
    sv_check(id[0] == 7777 && id[161] == 7777, "16-bit output bounds (parameters)");
    if (agree) {
        for (int i = 0; i < 64; i++) sv_check(str2[i] == str0[i], "status of frame and parameter entries");
        if (fmt < 2) { sc[0].errorCount4 = sa[0].errorCount4; sc[1].errorCount4 = sa[1].errorCount4; sc[2].errorCount4 = sa[2].errorCount4; }
        PARMS_SAME(sc, sa, "frame and parameter entries, current block");
        PARMS_SAME(sc + 1, sa + 1, "frame and parameter entries, previous block");
        PARMS_SAME(sc + 2, sa + 2, "frame and parameter entries, enhanced block");
        for (int i = 0; i < 160; i++) sv_same(fc[i], fa[i], "frame and parameter entries render the same samples");
    }
    /* the synthesiser's own 16-bit form */
    memcpy(sa, s0, sizeof sa); memcpy(sb, s0, sizeof sb);
    for (int i = 0; i < 162; i++) ib[i] = 7777;
    mbe_synthesizeSpeechf(fa, sa, sa + 2, 3);
    mbe_floattoshort(fa, ia);
    mbe_synthesizeSpeech(ib + 1, sb, sb + 2, 3);
    for (int i = 0; i < 160; i++) sv_check(ib[i + 1] == ia[i], "16-bit synthesis is the converted float synthesis");
    sv_check(ib[0] == 7777 && ib[161] == 7777, "16-bit synthesis bounds");
    PARMS_SAME(sb, sa, "16-bit synthesis, current block");
    PARMS_SAME(sb + 2, sa + 2, "16-bit synthesis, enhanced block");
    sv_end();
}
