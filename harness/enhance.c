/* Spectral enhancement (C24).  case 0: harmonic count, case 1: bit pattern of the fundamental, case 2: mode
 * (0 positive amplitudes, 1 all amplitudes zero,
 * 2 positive amplitudes and no fundamental, 3.. positive amplitudes but for some zeros). */
#include "sv.h"
#include <math.h>
#include <string.h>
#include "parms.h"
static mbe_parms cur, p0;
void harness(void)
{
    int L = sv_case(0), mode = sv_case(2);
    union { unsigned u; float f; } w;
    w.u = (unsigned)sv_case(1);
    double w0 = w.f, c[57];
    float M[57], X[57];
    for (int l = 1; l <= 56; l++) { M[l] = sv_float(1.0e-3f, 60000.0f); X[l] = sv_float(-20.0f, 20.0f); c[l] = cos(l * w0); }
    M[0] = 3.0f; X[0] = 1.0f;
    if (mode == 1) for (int l = 1; l <= L; l++) M[l] = 0.0f;
    if (mode >= 3) for (int l = mode - 2; l <= L; l += 3) M[l] = 0.0f;
    for (int l = 0; l < 57; l++) { cur.Ml[l] = M[l]; cur.Vl[l] = l % 3 == 0; cur.log2Ml[l] = X[l]; cur.PHIl[l] = X[56 - l]; cur.PSIl[l] = (float)l; }
    cur.L = L; cur.w0 = w.f; cur.gamma = 1.5f; cur.K = 5; cur.un = 2; cur.repeatCount = 1; cur.localEnergy = 123.0f; cur.errorRate = 0.25f;
    cur.mutingThreshold = 0.0875f; cur.noiseSeed = 77.0f; cur.amplitudeThreshold = 9;
    p0 = cur;
    double r0 = 0.0, r1 = 0.0;
    for (int l = 1; l <= L; l++) { double q = (double)M[l] * M[l]; r0 += q; r1 += q * c[l]; }
    double q0 = r0 * r0, q1 = r1 * r1;
    if (mode != 1 && mode != 2) sv_assume(w0 * r0 * (q0 - q1) > 0.0);
    mbe_spectralAmpEnhance(&cur);
    if (mode == 1 || mode == 2) {
        for (int l = 1; l <= L; l++) sv_close(cur.Ml[l], M[l], 0.0, "amplitudes without defined weights stay as they are");
    } else {
        double E[57], s = 0.0;
        for (int l = 1; l <= L; l++) {
            double m = M[l], W = sqrt(m) * sqrt(sqrt((0.96 * M_PI * ((q0 + q1) - 2.0 * r0 * r1 * c[l])) / (w0 * r0 * (q0 - q1))));
            if (8 * l > L) { if (W > 1.2) m = 1.2 * m; else if (W < 0.5) m = 0.5 * m; else m = W * m; }
            E[l] = m;
            s += m * m;
        }
        double g = s == 0.0 ? 1.0 : sqrt(r0 / s);
        for (int l = 1; l <= L; l++) sv_close(cur.Ml[l], g * E[l], 1e-3, "weighted, energy-normalised amplitude");
    }
    for (int l = L + 1; l <= 56; l++) sv_close(cur.Ml[l], M[l], 0.0, "amplitudes beyond the harmonics");
    for (int l = 1; l <= 56; l++) p0.Ml[l] = cur.Ml[l];
    PARMS_SAME(&cur, &p0, "nothing but amplitudes changes");
    sv_end();
}
