/* Signalling tones (C22; with -DDISABLE_AMBE_TONES C29).  case 0: renderer (0 AMBE+2, 1 D-STAR), case 1: tone index.
 * Amplitude bits, unrelated frame bits and both starting phases are symbolic. */
#include "sv.h"
#include <math.h>
#include "mbelib-neo/mbelib.h"
static mbe_parms cur;
static char d[49];
static float out[164];
static const int PAIR[36][2] = {
    {1336, 941}, {1209, 697}, {1336, 697}, {1477, 697}, {1209, 770}, {1336, 770}, {1477, 770}, {1209, 852}, {1336, 852}, {1477, 852}, {1633, 697}, {1633, 770},
    {1633, 852}, {1633, 941}, {1209, 941}, {1477, 941}, {1162, 820}, {1052, 606}, {1162, 606}, {1279, 606}, {1052, 672}, {1162, 672}, {1279, 672}, {1052, 743},
    {1162, 743}, {1279, 743}, {1430, 606}, {1430, 672}, {1430, 743}, {1430, 820}, {1052, 820}, {1279, 820}, {440, 350}, {480, 440}, {620, 480}, {490, 350}};

void harness(void)
{
    int kind = sv_case(0), id = sv_case(1);
    int ad = 103;
    if (kind == 2) {                /* any undefined D-STAR index */
        id = (int)sv_uint();
        sv_assume(id < 5 || id > 122);
        kind = 1;
    }
    for (int i = 0; i < 49; i++) {
        int idbit = i >= 12 && i < 20;
        d[i] = (char)(idbit && kind == 0 ? (id >> (19 - i)) & 1 : sv_bit());
    }
    uint32_t p1 = sv_uint(), p2 = sv_uint();
    float w = sv_float(0.0f, 3.0f), m = sv_float(-100.0f, 100.0f);
    int L = sv_int(9, 56);
    cur.swn = (int)p1; cur.un = (int)p2; cur.w0 = w; cur.L = L;
    for (int l = 0; l < 57; l++) cur.Ml[l] = m;
    for (int i = 0; i < 164; i++) out[i] = 77.0f;
    double f1 = 0, f2 = 0;
    if (sv_case(0) == 2) f1 = 0;
    else if (id >= 5 && id <= 122) f1 = 31.25 * id;
    else if (kind == 0 && id >= 128 && id <= 163) { f1 = PAIR[id - 128][0]; f2 = PAIR[id - 128][1]; }
#ifdef DISABLE_AMBE_TONES
    f1 = 0;
#endif
    if (kind == 0) {
        ad = d[6] * 64 + d[7] * 32 + d[8] * 16 + d[9] * 8 + d[10] * 4 + d[11] * 2 + d[44];
        mbe_synthesizeTonef(out + 2, d, &cur);
    } else mbe_synthesizeTonefdstar(out + 2, d, &cur, id);
    const double clip = 32767.0 * 0.95 / 7.0;
    if (f1 <= 0) {
        for (int n = 0; n < 160; n++) sv_close(out[2 + n], 0.0, 0.0, "silent sample");
        sv_check((uint32_t)cur.swn == p1, "phase 1 untouched");
        sv_check((uint32_t)cur.un == p2, "phase 2 untouched");
    } else {
        uint32_t s1 = (uint32_t)floor(f1 / 8000.0 * 4294967296.0 + 0.5), s2 = (uint32_t)floor(f2 / 8000.0 * 4294967296.0 + 0.5);
        double g = ad / 127.0 * clip;
        const double K = 2.0 * M_PI / 4294967296.0;
        for (int n = 0; n < 160; n++) {
            double a = -cos(K * (double)(p1 + (uint32_t)(n + 1) * s1));
            if (f2 > 0) {
                double b = -cos(K * (double)(p2 + (uint32_t)(n + 1) * s2));
                sv_close(out[2 + n], 0.5 * g * a + 0.5 * g * b, 2e-2, "pair sample");
            } else sv_close(out[2 + n], g * a, 2e-2, "tone sample");
        }
        sv_check((uint32_t)cur.swn == p1 + 160u * s1, "phase 1 after the frame");
        sv_check((uint32_t)cur.un == (f2 > 0 ? p2 + 160u * s2 : p2), "phase 2 after the frame");
    }
    sv_close(out[1], 77.0, 0.0, "before the buffer");
    sv_close(out[162], 77.0, 0.0, "after the buffer");
    sv_close(cur.w0, w, 0.0, "voice model pitch untouched");
    sv_check(cur.L == L, "voice model size untouched");
    for (int l = 0; l < 57; l += 7) sv_close(cur.Ml[l], m, 0.0, "voice model amplitudes untouched");
    sv_end();
}
