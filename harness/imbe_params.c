/* IMBE parameter decoding against an independent reference (properties C07, C10, C13).  case 0: pitch index b0 */
#include "sv.h"
#include <math.h>
#include "mbelib-neo/mbelib.h"
#include "tables/imbe7200x4400.h"
#ifndef MODE
#define MODE 7
#endif
#ifdef SV_NATIVE
static
#endif
mbe_parms cur, prev;
static char d[88];
static int bits[58][12];

static int field(int m, int n) { int v = 0; for (int b = n - 1; b >= 0; b--) v = v * 2 + bits[m][b]; return v; }

void harness(void)
{
    int b0 = sv_case(0);
    sv_undef(&cur, sizeof cur);
    sv_undef(&prev, sizeof prev);
    for (int i = 0; i < 88; i++) {
        int j = i < 6 ? i : i == 85 ? 6 : i == 86 ? 7 : -1;
        d[i] = (char)(j >= 0 ? (b0 >> (7 - j)) & 1 : sv_bit());
    }
    int L = (int)(0.9254 * (double)(int)((b0 + 39.5) / 4.0 + 0.25));   /* pi/w0 = (b0+39.5)/4 */
    int Lp = sv_int(9, 56);
    static double pl[58];
    for (int l = 0; l <= 56; l++) { float x = sv_float(-40.0f, 40.0f); prev.log2Ml[l] = x; pl[l] = x; prev.Ml[l] = 1.0f; }
    for (int l = 0; l <= 56; l++) { prev.PHIl[l] = 0.0f; prev.PSIl[l] = 0.0f; prev.Vl[l] = 0; }
    prev.L = Lp; prev.K = 3; prev.w0 = 0.1f; prev.repeat = sv_int(0, 3); prev.gamma = 0.0f; prev.repeatCount = 0;

    int r = mbe_decodeImbe4400Parms(d, &cur, &prev);

    if (b0 > 207) {
        sv_check(r != 0, "reserved pitch index rejected");
        sv_end();
        return;
    }
    sv_check(r == 0, "valid pitch index accepted");
#if MODE == 7
    int K = (L + 2) / 3 < 12 ? (L + 2) / 3 : 12;
    sv_check(L >= 9 && L <= 56, "reference harmonic count in range");
    sv_close(cur.w0, 4.0 * M_PI / (b0 + 39.5), 1e-7, "fundamental");
    sv_check(cur.L == L, "harmonic count");
    sv_check(cur.K == K, "band count");
    for (int i = 0; i < 79; i++) bits[ref_bo[L - 9][i][0]][ref_bo[L - 9][i][1]] = d[6 + i];
    for (int l = 1; l <= L; l++) {
        int band = (l + 2) / 3 < K ? (l + 2) / 3 : K;      /* 1..K, transmitted most significant bit first */
        sv_check(cur.Vl[l] == bits[1][K - band], "voicing flag is the bit of its band");
    }
#else
    for (int i = 0; i < 79; i++) bits[ref_bo[L - 9][i][0]][ref_bo[L - 9][i][1]] = d[6 + i];
    static double G[7], R[7], T[58], c[12];
    G[1] = ref_B2[field(2, 6)];
    for (int i = 2; i <= 6; i++) {
        int n = (int)ref_ba[L - 9][i - 2][0];
        G[i] = ref_ba[L - 9][i - 2][1] * (field(i + 1, n) - (double)(1 << n) / 2 + 0.5);
    }
    for (int i = 1; i <= 6; i++) {
        double s = G[1];
        for (int m = 2; m <= 6; m++) s += 2.0 * G[m] * cos(M_PI * (m - 1) * (i - 0.5) / 6.0);
        R[i] = s;
    }
    int m = 8, l = 1;
    for (int i = 1; i <= 6; i++) {
        int J = ref_ImbeJi[L - 9][i - 1];
        c[1] = R[i];
        for (int k = 2; k <= J; k++, m++) {
            int n = ref_hoba[L - 9][m - 8];
            c[k] = n ? (double)ref_quantstep[n - 1] * ref_standdev[k - 2] * (field(m, n) - (double)(1 << n) / 2 + 0.5) : 0.0;
        }
        for (int j = 1; j <= J; j++, l++) {
            double s = c[1];
            for (int k = 2; k <= J; k++) s += 2.0 * c[k] * cos(M_PI * (k - 1) * (j - 0.5) / J);
            T[l] = s;
        }
    }
    sv_check(l == L + 1, "blocks cover the harmonics");
    double rho = L <= 15 ? 0.4 : L <= 24 ? 0.03 * L - 0.05 : 0.7;
    /* previous amplitudes extended beyond the previous harmonic count by the last one */
    static double e[58], p[58];
    for (int k = 0; k <= 57; k++) e[k] = k <= Lp ? pl[k < 57 ? k : 56] : pl[Lp];
    double sum = 0.0;
    for (int h = 1; h <= L; h++) {
        int n = Lp * h, k = n / L;                 /* h * Lp / L, exactly */
        double f = (double)(n - k * L) / L;
        p[h] = (1.0 - f) * e[k] + f * e[k + 1];
        sum += p[h];
    }
    for (int h = 1; h <= L; h++) {
        double want = T[h] + rho * (p[h] - sum / L);
        sv_close(cur.log2Ml[h], want, 2e-3, "log amplitude");
        sv_close(cur.Ml[h], exp2(cur.log2Ml[h]), 0.0, "linear amplitude");
    }
#endif
    sv_end();
}
