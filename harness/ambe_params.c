/* AMBE parameter decoding against an independent reference (C08, C09, C11, C12).  case 0: pitch index b0.
 * RATE 2450 / 2400, MODE 8: classification, pitch, harmonic count, voicing; MODE 11: gain and amplitudes. */
#include "sv.h"
#include <math.h>
#include "mbelib-neo/mbelib.h"
#if RATE == 2450
#include "tables/ambe3600x2450.h"
#define DEC mbe_decodeAmbe2450Parms
#define REF(x) ref_Ambe##x
static const int B0[] = {0, 1, 2, 3, 37, 38, 39}, B1[] = {4, 5, 6, 7, 35}, B2[] = {8, 9, 10, 11, 36}, B3[] = {12, 13, 14, 15, 16, 17, 18, 19, 40},
    B4[] = {20, 21, 22, 23, 41, 42, 43}, B5[] = {24, 25, 26, 27, 44}, B6[] = {28, 29, 30, 45}, B7[] = {31, 32, 33, 46}, B8[] = {34, 47, 48};
#define LAST8 0
#else
#include "tables/ambe3600x2400.h"
#define DEC mbe_decodeAmbe2400Parms
#define REF(x) ref_AmbePlus##x
static const int B0[] = {0, 1, 2, 3, 4, 5, 48}, B1[] = {38, 39, 40, 41}, B2[] = {6, 7, 8, 9, 42, 43}, B3[] = {10, 11, 12, 13, 14, 15, 16, 44, 45},
    B4[] = {17, 18, 19, 20, 21, 46, 47}, B5[] = {22, 23, 25, 26}, B6[] = {27, 28, 29, 30}, B7[] = {31, 32, 33, 34}, B8[] = {35, 36, 37};
#define LAST8 1
#endif
static mbe_parms cur, prev;
static char d[49];
#define FIELD(B) field(B, sizeof(B) / sizeof(B[0]))
static int field(const int* b, int n) { int v = 0; for (int i = 0; i < n; i++) v = v * 2 + d[b[i]]; return v; }

void harness(void)
{
    int b0 = sv_case(0), voice;
    sv_undef(&cur, sizeof cur);
    sv_undef(&prev, sizeof prev);
    for (int i = 0; i < 49; i++) {
        int c = -1;
        for (int j = 0; j < 7; j++) if (B0[j] == i) c = (b0 >> (6 - j)) & 1;
        d[i] = (char)(c >= 0 ? c : sv_bit());
    }
#if RATE == 2450 && MODE == 11
    /* the vectors that are not tone-class, split into covers without a side condition: 1..3 one of the tone-check bits
     * 4, 5 clear; 4..19 both set, one trailing bit set and one pair of the compared nibbles different */
    int v = sv_case(1);
    if (v >= 1 && v <= 3) { d[4] = (v - 1) >> 1; d[5] = (v - 1) & 1; }
    else if (v >= 4) { d[4] = d[5] = 1; d[45 + (v - 4) / 4] = 1; d[20 + (v - 4) % 4] = (char)(1 - d[12 + (v - 4) % 4]); }
#endif
    int Lp = sv_int(9, 56);
    static double pl[58];
    for (int l = 0; l <= 56; l++) { float x = sv_float(-40.0f, 40.0f); prev.log2Ml[l] = x; pl[l] = x; prev.Ml[l] = 1.0f; }
    for (int l = 0; l <= 56; l++) { prev.PHIl[l] = 0.0f; prev.PSIl[l] = 0.0f; prev.Vl[l] = 0; }
    float pg = sv_float(-40.0f, 40.0f);
    prev.L = Lp; prev.K = 3; prev.w0 = 0.1f; prev.repeat = sv_int(0, 3); prev.gamma = pg; prev.repeatCount = 0;
    int L; double f0, w0;
#if RATE == 2450
    int tone = 1, z = 1, m = 1;
    for (int i = 0; i < 6; i++) tone &= d[i];
    for (int i = 45; i < 49; i++) z &= !d[i];
    for (int i = 0; i < 4; i++) m &= d[12 + i] == d[20 + i];
    tone &= z | m;
    int silence = b0 == 124 || b0 == 125;
    voice = b0 < 120 || silence;
    if (silence) { f0 = 0; w0 = M_PI / 32 * 2 * M_PI; L = b0 == 124 ? 15 : 14; }
    else if (voice) { f0 = REF(W0table)[b0]; w0 = f0 * 2 * M_PI; L = (int)REF(Ltable)[b0]; }
    else L = 0;
    int want = tone ? 7 : voice ? 0 : 2;
#else
    int silence = 0, tone = 0, want = 0;
    voice = b0 < 126;
    if (voice) { f0 = exp2(-4.311767578125 - 0.021336 * (b0 + 0.5)); w0 = 2 * M_PI * f0; L = (int)REF(Ltable)[b0]; }
    else {
        static const int T[8] = {4, 0, 1, 2, 3, 7, 6, 5};           /* bits 7..5 of the tone index */
        L = 0;
        int t = d[6] * 4 + d[7] * 2 + d[8];
        int id = 0;
        id = (t == 0 ? 4 : t == 1 ? 0 : t == 2 ? 1 : t == 3 ? 2 : t == 4 ? 3 : t == 5 ? 6 : t == 6 ? 7 : 5) * 32 + d[9] * 16 + d[42] * 8 + d[43] * 4 + d[10] * 2 + d[11];
        (void)T;
        want = id >= 5 && id <= 122 ? id : 3;
    }
#endif
#if MODE == 8
    int r = DEC(d, &cur, &prev);
    sv_check(r == want, "frame class");
    if (voice) {
        static int vb[57];
        sv_check(L >= 9 && L <= 56, "reference harmonic count");
        sv_check(tone || cur.L == L, "harmonic count");
        if (!tone) sv_close(cur.w0, w0, 1e-7, "fundamental");
        int b1 = FIELD(B1);
        for (int l = 1; l <= L; l++) {
            vb[l] = silence ? 0 : REF(Vuv)[b1][(int)((float)l * 16.0f * (float)f0)];
            sv_check(tone || cur.Vl[l] == vb[l], "voicing flag");
        }
    }
#else
    sv_assume(!tone);
    int r = DEC(d, &cur, &prev);
    sv_check(r == 0, "voice frame");
    static double G[9], R[9], C[5][18], T[58];
    static int J[5];
    double gam = REF(Dg)[FIELD(B2)] + 0.5 * pg;
    sv_close(cur.gamma, gam, 1e-4, "gain");
    int b3 = FIELD(B3), b4 = FIELD(B4);
    G[1] = 0;
    for (int i = 0; i < 3; i++) G[2 + i] = REF(PRBA24)[b3][i];
    for (int i = 0; i < 4; i++) G[5 + i] = REF(PRBA58)[b4][i];
    for (int i = 1; i <= 8; i++) {
        double s = G[1];
        for (int m = 2; m <= 8; m++) s += 2.0 * G[m] * cos(M_PI * (m - 1) * (i - 0.5) / 8.0);
        R[i] = s;
    }
    int b5 = FIELD(B5), b6 = FIELD(B6), b7 = FIELD(B7), b8 = FIELD(B8) << LAST8;
    int n = 1;
    for (int i = 1; i <= 4; i++) {
        J[i] = REF(Lmprbl)[L][i - 1];
        C[i][1] = 0.5 * (R[2 * i - 1] + R[2 * i]);
        C[i][2] = (R[2 * i - 1] - R[2 * i]) / (2 * sqrt(2.0));
        for (int k = 3; k <= J[i]; k++) {
            if (k > 6) C[i][k] = 0;
            else C[i][k] = i == 1 ? REF(HOCb5)[b5][k - 3] : i == 2 ? REF(HOCb6)[b6][k - 3] : i == 3 ? REF(HOCb7)[b7][k - 3] : REF(HOCb8)[b8][k - 3];
        }
        for (int j = 1; j <= J[i]; j++, n++) {
            double s = C[i][1];
            for (int k = 2; k <= J[i]; k++) s += 2.0 * C[i][k] * cos(M_PI * (k - 1) * (j - 0.5) / J[i]);
            T[n] = s;
        }
    }
    sv_check(n == L + 1, "blocks cover the harmonics");
    static double e[58], p[58];
    e[0] = pl[1];
    for (int k = 1; k <= 57; k++) e[k] = k <= Lp ? pl[k < 57 ? k : 56] : pl[Lp];
    double sum = 0.0, tm = 0.0;
    for (int h = 1; h <= L; h++) {
        int q = Lp * h, k = q / L;
        double f = (double)(q - k * L) / L;
        p[h] = (1.0 - f) * e[k] + f * e[k + 1];
        sum += p[h];
        tm += T[h];
    }
    double uv = 0.2046 / sqrt(w0);
    for (int h = 1; h <= L; h++) {
        double want_ = T[h] - tm / L + 0.65 * (p[h] - sum / L) + gam - 0.5 * log2((double)L);
        sv_close(cur.log2Ml[h], want_, 3e-3, "log amplitude");
        double lin = exp2(cur.log2Ml[h]);
        sv_close(cur.Ml[h], cur.Vl[h] == 1 ? lin : uv * lin, 0.0, "linear amplitude");
    }
#endif
    sv_end();
}
