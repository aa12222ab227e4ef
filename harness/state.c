/* Initialisation, copy, query and small helper entry points (C28); every block starts as arbitrary 32-bit words. */
#define VH_MAX 2400
#include "vh.h"
#include "mbelib-neo/mbelib.h"
/* every field of the state block */
#define FIELDS(F, I, FA, IA) F(w0) I(L) I(K) IA(Vl, 57) FA(Ml, 57) FA(log2Ml, 57) FA(PHIl, 57) FA(PSIl, 57) F(gamma) I(un) I(repeat) I(swn) \
    F(localEnergy) I(amplitudeThreshold) F(errorRate) I(errorCountTotal) I(errorCount4) I(repeatCount) F(mutingThreshold) FA(previousUw, 256) F(noiseSeed) FA(noiseOverlap, 96)
#define ONE(n) 4 +
#define ARR(n, k) 4 * (k) +
_Static_assert(FIELDS(ONE, ONE, ARR, ARR) 0 == sizeof(mbe_parms), "harness lists every field");
static struct { uint32_t g0[4]; mbe_parms a; uint32_t g1[4]; mbe_parms b; uint32_t g2[4]; mbe_parms c; uint32_t g3[4]; } s;
static mbe_parms k, zero;
static float rawf(void) { union { uint32_t u; float f; } q; q.u = VH_RAW(uint32_t); return q.f; }
static int samef(float a, float b) { return a == b ? (__builtin_signbit(a) == __builtin_signbit(b)) : (a != a && b != b); }
#define FILL_F(n) x->n = rawf();
#define FILL_I(n) x->n = VH_RAW(int);
#define FILL_FA(n, m) for (int i = 0; i < m; i++) x->n[i] = rawf();
#define FILL_IA(n, m) for (int i = 0; i < m; i++) x->n[i] = VH_RAW(int);
static void fill(mbe_parms* x) { FIELDS(FILL_F, FILL_I, FILL_FA, FILL_IA) }
#define EQ_F(n) ok = ok && samef(x->n, y->n);
#define EQ_I(n) ok = ok && x->n == y->n;
#define EQ_FA(n, m) for (int i = 0; i < m; i++) ok = ok && samef(x->n[i], y->n[i]);
#define EQ_IA(n, m) for (int i = 0; i < m; i++) ok = ok && x->n[i] == y->n[i];
static int same(const mbe_parms* x, const mbe_parms* y) { int ok = 1; FIELDS(EQ_F, EQ_I, EQ_FA, EQ_IA) return ok; }
#ifdef H_INIT
void harness(void)
{
    fill(&s.a); fill(&s.b); fill(&s.c);
    mbe_initMbeParms(&s.a, &s.b, &s.c);
    CHECK(same(&s.a, &s.b), "current block equals previous block");
    CHECK(same(&s.c, &s.b), "enhanced block equals previous block");
    const mbe_parms* p = &s.b;
    CHECK(p->w0 == (float)(4.0 * 3.14159265358979323846 / 173.5), "fundamental of pitch index 134");
    CHECK(p->L == 39 && p->K == 12, "harmonic and band counts");
    for (int i = 0; i < 57; i++) CHECK(p->Vl[i] == 0 && p->Ml[i] == 1.0f && p->log2Ml[i] == 0.0f && p->PHIl[i] == 0.0f && p->PSIl[i] == 0.0f, "per-harmonic state");
    CHECK(p->gamma == 0.0f && p->un == 0 && p->repeat == 0 && p->swn == 0, "gain and legacy fields");
    CHECK(p->localEnergy == 75000.0f && p->amplitudeThreshold == 20480 && p->errorRate == 0.0f && p->errorCountTotal == 0 && p->errorCount4 == 0, "smoothing state");
    CHECK(p->repeatCount == 0 && p->mutingThreshold == 0.0875f, "repeat and muting state");
    for (int i = 0; i < 256; i++) CHECK(p->previousUw[i] == 0.0f, "unvoiced overlap block is silent");
    for (int i = 0; i < 96; i++) CHECK(p->noiseOverlap[i] == 0.0f, "noise overlap is silent");
    CHECK(p->noiseSeed < 0.0f, "noise generator is cold");
    for (int i = 0; i < 4; i++) CHECK(!s.g0[i] && !s.g1[i] && !s.g2[i] && !s.g3[i], "nothing written around the blocks");
    VH_END();
}
#endif
#ifdef H_COPY
void harness(void)
{
    fill(&s.a); fill(&s.b);
    k = s.a;
    if (WHICH == 0) mbe_moveMbeParms(&s.a, &s.b); else mbe_useLastMbeParms(&s.b, &s.a);
    CHECK(same(&s.a, &k), "source intact");
    CHECK(same(&s.b, &k), "every field copied");
    CHECK(same(&s.c, &zero), "third block untouched");
    for (int i = 0; i < 4; i++) CHECK(!s.g0[i] && !s.g1[i] && !s.g2[i] && !s.g3[i], "nothing written around the blocks");
    VH_END();
}
#endif
#ifdef H_QUERY
void harness(void)
{
    fill(&s.a);
    k = s.a;
    const mbe_parms* p = &s.a;
    CHECK(!mbe_requiresMuting(p) == !(p->errorRate > p->mutingThreshold), "muting query");
    CHECK(!mbe_requiresAdaptiveSmoothing(p) == !(p->errorRate > 0.0125f || p->errorCountTotal > 4), "smoothing query");
    CHECK(!mbe_isMaxFrameRepeat(p) == !(p->repeatCount >= 4), "repeat query");
    CHECK(mbe_requiresMuting(0) == 0 && mbe_requiresAdaptiveSmoothing(0) == 0 && mbe_isMaxFrameRepeat(0) == 0, "a null state answers no");
    CHECK(same(&s.a, &k), "queries change nothing");
    VH_END();
}
#endif
#ifdef H_MISC
static struct { char g0[8], t[40]; } v;
static struct { float g0[8], x[160], g1[8]; } f;
static struct { short g0[8], x[160], g1[8]; } h;
void harness(void)
{
    for (int i = 0; i < 160; i++) { union { uint32_t u; float f; } q; q.u = VH_RAW(uint32_t); f.x[i] = q.f; h.x[i] = VH_RAW(short); }
    for (int i = 0; i < 8; i++) { f.g0[i] = f.g1[i] = 5.0f; h.g0[i] = h.g1[i] = 5; v.g0[i] = 7; }
    mbe_synthesizeSilencef(f.x);
    mbe_synthesizeSilence(h.x);
    for (int i = 0; i < 160; i++) CHECK(f.x[i] == 0.0f && h.x[i] == 0, "silence is zero");
    for (int i = 0; i < 8; i++) CHECK(f.g0[i] == 5.0f && f.g1[i] == 5.0f && h.g0[i] == 5 && h.g1[i] == 5, "silence writes 160 samples");
    mbe_synthesizeComfortNoisef(0);
    mbe_synthesizeComfortNoise(0);
    mbe_printVersion(0);
    fill(&s.a); fill(&s.b);
    k = s.a;
    mbe_applyAdaptiveSmoothing(0, &s.a);
    mbe_applyAdaptiveSmoothing(&s.a, 0);
    CHECK(same(&s.a, &k), "smoothing without a partner changes nothing");
    const char* ver = mbe_versionString();
    CHECK(ver != 0 && ver[0] != 0, "version string present");
    int n = 0;
    while (n < 40 && ver[n]) n++;
    CHECK(n < 32, "version string fits the documented buffer");
    VH_END();
}
#endif
