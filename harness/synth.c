/* Speech synthesis against a direct evaluation of the synthesis equations (C26, C27; C30 and C19 reuse it).
 * case 0, 1: harmonic counts of this and the previous frame; case 2, 3: their fundamentals (float bits)
 * case 4: voicing pattern; case 5: noise start value (-1 fresh stream) and phases; case 6: 0 amplitudes of voiced
 * harmonics symbolic, 1 amplitudes of unvoiced ones and the previous block symbolic, 2 both
 * case 7: 0 the values, 1 only the range of the samples (amplitudes of any size) */
#include "sv.h"
#include <math.h>
#include "parms.h"
static mbe_parms cur, prev;
static float out[164];
static double X[129][2], tab[256], ref[160], blk[256];
static float bits(int b) { union { int i; float f; } u; u.i = b; return u.f; }
static double ws(int k)                 /* window of the unvoiced part (its falling edge has one step twice) */
{
    if (k < -104 || k > 104) return 0.0;
    if (k < -55) return (k + 105) / 50.0;
    if (k <= 54) return 1.0;
    return k < 90 ? (104 - k) / 50.0 : (105 - k) / 50.0;
}
static double wv(int k)                 /* window of the voiced part */
{
    if (k < 0) k = -k;
    return k >= 105 ? 0.0 : k <= 55 ? 1.0 : (105 - k) / 50.0;
}
static int voiced(int pat, int l, int frame)
{
    switch (pat) {
    case 0: return 1;
    case 1: return 0;
    case 2: return l & 1;
    case 3: return frame ? l <= 6 : l > 3;
    case 4: return !frame;
    case 5: return frame;
    case 6: return (l * 7 + frame * 3) % 5 < 3;
    default: return ((l * 2654435761u + (unsigned)(frame + pat) * 40503u) >> 13) & 1;
    }
}
void harness(void)
{
    const double PI = 3.14159265358979323846;
    int L = sv_case(0), pL = sv_case(1), pat = sv_case(4), seed = sv_case(5), symb = sv_case(6), range = sv_case(7);
    float w = bits(sv_case(2)), pw = bits(sv_case(3));
    float M[57], pM[57], psi[57], pphi[57], big = range ? 1.0e6f : 12.0f;
    unsigned x = 12345u + 977u * (unsigned)(seed + 1);
    for (int i = 0; i < 164; i++) out[i] = 77.0f;
    for (int l = 1; l <= 56; l++) {
        int v = voiced(pat, l, 0), pv = voiced(pat, l, 1);
        int s = l <= L && (symb == 2 || (symb == 0) == v), ps = l <= pL && (symb == 2 || (symb == 0) == pv);
        float a = sv_float(0.0f, big), b = sv_float(0.0f, big);
        M[l] = l > L ? 1000.0f : s ? a : 0.0f;          /* beyond the harmonic count: leftovers that must not be heard */
        pM[l] = l > pL ? 1000.0f : ps ? b : 0.0f;
        cur.Vl[l] = l > L ? l & 1 : v; prev.Vl[l] = l > pL ? 1 : pv;
        cur.Ml[l] = M[l]; prev.Ml[l] = pM[l];
        x = x * 1103515245u + 12345u; psi[l] = (float)(x >> 8) / 16777216.0f * 40.0f - 20.0f;
        x = x * 1103515245u + 12345u; pphi[l] = (float)(x >> 8) / 16777216.0f * 40.0f - 20.0f;
        prev.PSIl[l] = psi[l]; prev.PHIl[l] = pphi[l];
        cur.PSIl[l] = 3.0f; cur.PHIl[l] = 4.0f;
    }
    cur.Vl[0] = prev.Vl[0] = 1;
    cur.L = L; prev.L = pL; cur.w0 = w; prev.w0 = pw;
    prev.localEnergy = 75000.0f; prev.amplitudeThreshold = 20480; cur.mutingThreshold = prev.mutingThreshold = 0.0875f;
    /* noise window */
    static double u[256];
    cur.noiseSeed = (float)seed;
    uint32_t st = (uint32_t)seed;
    for (int i = 0; i < 256; i++) {
        if (seed < 0) u[i] = 0.0;
        else if (i < 96) { u[i] = (double)((unsigned)(i * 6151 + seed) % 53125u); cur.noiseOverlap[i] = (float)u[i]; }
        else { u[i] = st; st = (171u * st + 11213u) % 53125u; }
    }
    for (int i = 0; i < 256; i++) prev.previousUw[i] = symb ? sv_float(-500.0f, 500.0f) : 0.0f;

    mbe_synthesizeSpeechf(out + 2, &cur, &prev, 3);

    sv_check(out[0] == 77.0f && out[1] == 77.0f && out[162] == 77.0f && out[163] == 77.0f, "exactly 160 samples are written");
    if (range) {
        const float C = 31128.65f / 7.0f * 1.000001f;
        for (int n = 0; n < 160; n++) sv_check(out[2 + n] <= C && out[2 + n] >= -C, "sample within the soft-clip range");
        sv_end();
        return;
    }
    /* phases */
    int uv = 0;
    double phi[57], newpsi[57];
    for (int l = 1; l <= L; l++) uv += !voiced(pat, l, 0);
    for (int l = 1; l <= 56; l++) {
        double p = psi[l] - 2 * PI * floor(psi[l] / (2 * PI));
        newpsi[l] = p + ((double)pw + w) * l * 80.0;
        phi[l] = l <= L / 4 ? newpsi[l] : newpsi[l] + uv * (2 * PI / 53125.0 * u[l] - PI) / L;
        sv_close(cur.PSIl[l], newpsi[l], 5e-3, "base phase advances with the mean fundamental");
        sv_close(cur.PHIl[l], phi[l], 5e-3, "phase used for synthesis");
    }
    /* voiced part */
    for (int n = 0; n < 160; n++) ref[n] = 0.0;
    for (int l = 1; l <= 56; l++) {
        int v = l <= L && voiced(pat, l, 0), pv = l <= pL && voiced(pat, l, 1);
        double a = M[l], b = pM[l];
        /* a harmonic absent from one frame counts as voiced with amplitude zero there */
        if (l > L && l <= pL) { v = 1; a = 0.0; }
        if (l > pL && l <= L) { pv = 1; b = 0.0; }
        if (l > L && l > pL) continue;
        if (l < 8 && v && pv && fabs((double)w - pw) < 0.1 * w) {
            double dp = phi[l] - pphi[l] - ((double)pw + w) * l * 80.0, dw = (dp - 2 * PI * floor((dp + PI) / (2 * PI))) / 160.0;
            for (int n = 0; n < 160; n++) {
                double th = pphi[l] + (pw * (double)l + dw) * n + ((double)w - pw) * l * n * n / 320.0;
                ref[n] += 2.0 * cos(th) * (b * ((160 - n) / 160.0) + a * (n / 160.0));
            }
            continue;
        }
        for (int n = 0; n < 160; n++) {
            if (pv) ref[n] += 2.0 * wv(n) * cos(pphi[l] + (double)pw * l * n) * b;
            if (v) ref[n] += 2.0 * wv(n - 160) * cos(phi[l] + (double)w * l * (n - 160)) * a;
        }
    }
    /* unvoiced part */
    for (int i = 0; i < 256; i++) tab[i] = cos(2 * PI * i / 256.0);
    for (int k = 0; k <= 128; k++) {
        double re = 0, im = 0;
        for (int i = 24; i < 233; i++) {
            double y = u[i] * ws(i - 128);
            re += y * tab[k * i & 255]; im -= y * tab[(k * i + 192) & 255];
        }
        X[k][0] = re; X[k][1] = im;
    }
    for (int n = 0; n < 256; n++) blk[n] = 0.0;
    for (int l = 1; l <= L; l++) {
        if (voiced(pat, l, 0)) continue;
        int a = (int)ceil((l - 0.5) * 256.0 / (2 * PI) * w), b = (int)ceil((l + 0.5) * 256.0 / (2 * PI) * w);
        if (b > 128) b = 128;
        double pow = 0.0;
        for (int k = a; k < b; k++) pow += X[k][0] * X[k][0] + X[k][1] * X[k][1];
        if (b <= a || pow <= 1e-10) continue;
        double g = 146.17696 / sqrt(pow / (b - a)) / 256.0;
        for (int n = 0; n < 256; n++) {
            double y = 0.0;
            for (int k = a; k < b; k++) y += X[k][0] * tab[k * n & 255] - X[k][1] * tab[(k * n + 192) & 255];
            blk[n] += 2.0 * g * y * M[l];
        }
    }
    for (int n = 0; n < 160; n++) {
        double wp = ws(n), wc = ws(n - 160);
        double s = (n < 128 ? wp * prev.previousUw[n + 128] : 0.0) + (n >= 32 ? wc * blk[n - 32] : 0.0);
        ref[n] += s / (wp * wp + wc * wc);
    }
    for (int n = 0; n < 256; n++) sv_close(cur.previousUw[n], blk[n], 2e-2, "unvoiced block kept for the next frame");
    for (int n = 0; n < 160; n++) sv_close(out[2 + n], ref[n], 5e-2, "output sample");
    sv_end();
}
