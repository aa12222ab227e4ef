/* Unvoiced noise sequence (C21), observed through speech synthesis.
 * case 0: 0 warm stream from any state, 1 fresh streams, 2 fresh streams on a seeded thread, 3 muted frame
 * case 1: frame shape (0 all voiced silent, 1 all unvoiced, 2 mixed; 1 and 2 use the start value in case 2) */
#include "sv.h"
#include "parms.h"
static mbe_parms cur, prev, cur2, prev2;
static float out[160];
static uint32_t step(uint32_t s) { return (171u * s + 11213u) % 53125u; }
static void setup(mbe_parms* c, mbe_parms* p, int shape)
{
    c->L = 12; c->w0 = 0.22f; p->L = 11; p->w0 = 0.21f; p->localEnergy = 1e6f; p->amplitudeThreshold = 20480;
    c->mutingThreshold = p->mutingThreshold = 0.0875f;
    for (int l = 0; l < 57; l++) {
        c->Vl[l] = p->Vl[l] = shape == 0 ? 1 : shape == 1 ? 0 : l & 1;
        c->Ml[l] = p->Ml[l] = shape ? 3.0f : 0.0f;
    }
    c->Vl[0] = 0;                       /* band 0 counts towards the jitter, which shows the window's head in the phases */
}
/* one frame: state (s, o) -> (s, o); ph: check the phases against the window's head */
static void frame(mbe_parms* c, mbe_parms* p, uint32_t* s, float* o, int cold, int shape)
{
    double psi[57];
    for (int l = 1; l <= 56; l++) psi[l] = p->PSIl[l];
    setup(c, p, shape);
    mbe_synthesizeSpeechf(out, c, p, 3);
    int uv = 0;
    for (int l = 0; l <= 12; l++) uv += shape == 0 ? l == 0 : shape == 1 ? 1 : !(l & 1);
    for (int l = 4; l <= 56; l++) {
        double noise = cold ? 0.0 : o[l], pl = 2.0 * 3.14159265358979 / 53125.0 * noise - 3.14159265358979;
        double want = psi[l] + (0.22 + 0.21) * l * 80.0 + uv * pl / 12.0;
        sv_close(c->PHIl[l], want, 4e-3, "phase jitter follows the window's head");
    }
    if (cold) {
        for (int i = 0; i < 96; i++) sv_close(c->noiseOverlap[i], 0.0, 0.0, "a fresh stream's window is all zero");
        for (int i = 0; i < 96; i++) o[i] = 0.0f;
    } else {
        uint32_t x = *s;
        for (int i = 0; i < 160; i++) {
            if (i >= 64) {
                o[i - 64] = (float)x;
                sv_close(c->noiseOverlap[i - 64], (float)x, 0.0, "the next window starts with the last 96 samples");
                sv_check(c->noiseOverlap[i - 64] >= 0.0f && c->noiseOverlap[i - 64] <= 53124.0f, "samples stay in range");
            }
            x = step(x);
        }
        *s = x;
    }
    sv_close(c->noiseSeed, (float)*s, 0.0, "160 samples consumed");
    sv_check(c->noiseSeed >= 0.0f && c->noiseSeed <= 53124.0f, "the generator stays in range");
}
void harness(void)
{
    int mode = sv_case(0), shape = sv_case(1);
    float o[96];
    uint32_t s;
    if (mode == 0 || mode == 3) {
        s = shape ? (uint32_t)sv_case(2) : (uint32_t)sv_int(0, 53124);
        for (int i = 0; i < 96; i++) o[i] = shape ? (float)((s * 7u + 997u * (unsigned)i) % 53125u) : sv_float(0.0f, 53124.0f);
        cur.noiseSeed = (float)s;
        for (int i = 0; i < 96; i++) cur.noiseOverlap[i] = o[i];
        if (mode == 3) {
            setup(&cur, &prev, 0);
            cur.repeatCount = 4;
            mbe_synthesizeSpeechf(out, &cur, &prev, 3);
            sv_close(cur.noiseSeed, (float)s, 0.0, "a muted frame draws no unvoiced noise");
            for (int i = 0; i < 96; i++) sv_close(cur.noiseOverlap[i], o[i], 0.0, "a muted frame keeps the overlap");
            sv_end();
            return;
        }
        frame(&cur, &prev, &s, o, 0, shape);
        frame(&cur, &prev, &s, o, 0, shape);
    } else {
        uint32_t seed = mode == 2 ? sv_uint() : 0;
        if (mode == 2) mbe_setThreadRngSeed(seed);
        cur.noiseSeed = -1.0f; cur2.noiseSeed = -1.0f;
        for (int i = 0; i < 96; i++) cur.noiseOverlap[i] = cur2.noiseOverlap[i] = (float)i;
        s = mode == 2 ? (seed ? seed : 0x6d25357bu) % 53125u : 3147u;
        frame(&cur, &prev, &s, o, 1, 0);
        frame(&cur, &prev, &s, o, 0, 0);
        s = 3147u;                      /* seeding serves one fresh stream */
        frame(&cur2, &prev2, &s, o, 1, 0);
        frame(&cur2, &prev2, &s, o, 0, 0);
    }
    sv_end();
}
