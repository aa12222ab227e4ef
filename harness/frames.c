/* Frame-level error correction, descrambling and extraction against an independent description of the
 * frame formats. The Golay/Hamming decoders themselves are the library's (their correctness is
 * established by separate obligations over the same run), everything else is stated here. */
#include "vh.h"
#include "mbelib-neo/mbelib.h"

/* 16-bit scrambler keystream, seeded with 16*seed; ks[0] is the first keystream bit */
static void ref_keystream(unsigned seed, int n, unsigned char* ks) {
    unsigned x = (16u * seed) & 0xFFFFu;
    for (int i = 0; i < n; i++) {
        x = (173u * x + 13849u) & 0xFFFFu;
        ks[i] = (unsigned char)(x >> 15);
    }
}

#if defined(H_AMBE_ECC) || defined(H_AMBE_DEMOD)
#if VAR == 2450
#define C0 mbe_eccAmbe3600x2450C0
#define DEMOD mbe_demodulateAmbe3600x2450Data
#define DATA mbe_eccAmbe3600x2450Data
#else
#define C0 mbe_eccAmbe3600x2400C0
#define DEMOD mbe_demodulateAmbe3600x2400Data
#define DATA mbe_eccAmbe3600x2400Data
#endif
#define R 4
#define C 24
#endif
#if defined(H_IMBE72_ECC) || defined(H_IMBE72_DEMOD)
#define C0 mbe_eccImbe7200x4400C0
#define DEMOD mbe_demodulateImbe7200x4400Data
#define DATA mbe_eccImbe7200x4400Data
#define R 8
#define C 23
#endif
#if defined(H_IMBE71_ECC) || defined(H_IMBE71_DEMOD)
#define C0 mbe_eccImbe7100x4400C0
#define DEMOD mbe_demodulateImbe7100x4400Data
#define DATA mbe_eccImbe7100x4400Data
#define R 7
#define C 24
#endif

#ifdef R
static char fr[R][C], orig[R][C];
static void sym_frame(void) {
    for (int i = 0; i < R; i++) {
        for (int j = 0; j < C; j++) { orig[i][j] = fr[i][j] = (char)vh_bit(); }
    }
}
static int same_row(int r) {
    int ok = 1;
    for (int j = 0; j < C; j++) { ok &= fr[r][j] == orig[r][j]; }
    return ok;
}
#endif

/* ---- C0 stage ---- */
#ifdef H_AMBE_ECC
#if H_AMBE_ECC == 0
void harness(void) {
    sym_frame();
    char in[23], out[23];
    for (int j = 0; j < 23; j++) { in[j] = fr[0][j + 1]; }
    int n = mbe_golay2312(in, out);
    int par = orig[0][0];
    for (int j = 0; j < 23; j++) { par ^= out[j] & 1; }
    int flip = (n == 0) && par;
    int e = C0(fr);
    int ok = 1;
    for (int j = 0; j < 23; j++) { ok &= fr[0][j + 1] == out[j]; }
    CHECK(ok, "C0 word is replaced by its Golay correction");
    CHECK(fr[0][0] == (orig[0][0] ^ flip), "parity bit is only touched to restore even parity of an unrepaired word");
    CHECK(e == (flip ? 1 : n), "C0 error count");
    CHECK(same_row(1) && same_row(2) && same_row(3), "other words untouched by C0 stage");
    VH_END();
}
#else
void harness(void) {
    sym_frame();
    char in[23], out[23], d[50];
    for (int j = 0; j < 23; j++) { in[j] = fr[1][j]; }
    int n = mbe_golay2312(in, out);
    for (int j = 0; j < 50; j++) { d[j] = 7; }
    int e = DATA(fr, d);
    int ok = 1;
    for (int j = 0; j < 12; j++) { ok &= d[j] == orig[0][23 - j]; }
    CHECK(ok, "bits 0-11 come from C0");
    ok = 1;
    for (int j = 0; j < 12; j++) { ok &= d[12 + j] == out[22 - j]; }
    CHECK(ok, "bits 12-23 come from corrected C1");
    ok = 1;
    for (int j = 0; j < 11; j++) { ok &= d[24 + j] == orig[2][10 - j]; }
    CHECK(ok, "bits 24-34 come from C2");
    ok = 1;
    for (int j = 0; j < 14; j++) { ok &= d[35 + j] == orig[3][13 - j]; }
    CHECK(ok, "bits 35-48 come from C3");
    CHECK(d[49] == 7, "exactly 49 bits written");
    CHECK(e == n, "C1 error count");
    VH_END();
}
#endif
#endif

#ifdef H_IMBE72_ECC
#if H_IMBE72_ECC == 0
void harness(void) {
    sym_frame();
    char in[23], out[23];
    for (int j = 0; j < 23; j++) { in[j] = fr[0][j]; }
    int n = mbe_golay2312(in, out);
    int e = C0(fr);
    int ok = 1;
    for (int j = 0; j < 23; j++) { ok &= fr[0][j] == out[j]; }
    CHECK(ok, "C0 word is replaced by its Golay correction");
    CHECK(e == n, "C0 error count");
    for (int r = 1; r < 8; r++) { CHECK(same_row(r), "other words untouched by C0 stage"); }
    VH_END();
}
#else
void harness(void) {
    sym_frame();
    char in[23], out[23], d[89];
    for (int j = 0; j < 89; j++) { d[j] = 7; }
    int n = 0, ok = 1, p = 0;
    int e = DATA(fr, d);
    for (int j = 22; j > 10; j--) { ok &= d[p++] == orig[0][j]; }
    CHECK(ok, "C0 data bits");
    for (int w = 1; w < 4; w++) {
        for (int j = 0; j < 23; j++) { in[j] = orig[w][j]; }
        n += mbe_golay2312(in, out);
        ok = 1;
        for (int j = 22; j > 10; j--) { ok &= d[p++] == out[j]; }
        CHECK(ok, "Golay word data bits");
    }
    for (int w = 4; w < 7; w++) {
        for (int j = 0; j < 15; j++) { in[j] = orig[w][j]; }
        n += mbe_hamming1511(in, out);
        ok = 1;
        for (int j = 14; j > 3; j--) { ok &= d[p++] == out[j]; }
        CHECK(ok, "Hamming word data bits");
    }
    ok = 1;
    for (int j = 6; j >= 0; j--) { ok &= d[p++] == orig[7][j]; }
    CHECK(ok, "C7 bits");
    CHECK(d[88] == 7, "exactly 88 bits written");
    CHECK(e == n, "error count is the sum over C1..C6");
    VH_END();
}
#endif
#endif

#ifdef H_IMBE71_ECC
#if H_IMBE71_ECC == 0
void harness(void) {
    sym_frame();
    char in[23], out[23];
    for (int j = 0; j < 18; j++) { in[j] = fr[0][j + 1]; }
    for (int j = 18; j < 23; j++) { in[j] = 0; }
    int n = mbe_golay2312(in, out);
    int e = C0(fr);
    int ok = 1;
    for (int j = 0; j < 18; j++) { ok &= fr[0][j + 1] == out[j]; }
    CHECK(ok, "C0 word is replaced by its shortened Golay correction");
    ok = fr[0][0] == orig[0][0];
    for (int j = 19; j < 24; j++) { ok &= fr[0][j] == orig[0][j]; }
    CHECK(ok, "unused C0 positions untouched");
    CHECK(e == n, "C0 error count");
    for (int r = 1; r < 7; r++) { CHECK(same_row(r), "other words untouched by C0 stage"); }
    VH_END();
}
#else
void harness(void) {
    sym_frame();
    char in[23], out[23], d[89];
    for (int j = 0; j < 89; j++) { d[j] = 7; }
    int n = 0, ok = 1, p = 0;
    int e = DATA(fr, d);
    for (int j = 18; j > 11; j--) { ok &= d[p++] == orig[0][j]; }
    CHECK(ok, "C0 data bits");
    for (int w = 1; w < 4; w++) {
        for (int j = 0; j < 23; j++) { in[j] = orig[w][w == 1 ? j + 1 : j]; }
        n += mbe_golay2312(in, out);
        ok = 1;
        for (int j = 22; j > 10; j--) { ok &= d[p++] == out[j]; }
        CHECK(ok, "Golay word data bits");
    }
    for (int w = 4; w < 6; w++) {
        for (int j = 0; j < 15; j++) { in[j] = orig[w][j]; }
        n += mbe_7100x4400hamming1511(in, out);
        ok = 1;
        for (int j = 14; j > 3; j--) { ok &= d[p++] == out[j]; }
        CHECK(ok, "Hamming word data bits");
    }
    ok = 1;
    for (int j = 22; j >= 0; j--) { ok &= d[p++] == orig[6][j]; }
    CHECK(ok, "C6 bits");
    CHECK(d[88] == 7, "exactly 88 bits written");
    CHECK(e == n, "error count is the sum over C1..C5");
    VH_END();
}
#endif
#endif

/* ---- descrambling ---- */
#if defined(H_AMBE_DEMOD) || defined(H_IMBE72_DEMOD) || defined(H_IMBE71_DEMOD)
static unsigned char ks[128];
void harness(void) {
    sym_frame();
    unsigned seed = 0;
    int k = 0, ok;
#if defined(H_AMBE_DEMOD)
    for (int j = 23; j >= 12; j--) { seed = (seed << 1) | (unsigned)orig[0][j]; }
#elif defined(H_IMBE72_DEMOD)
    for (int j = 22; j >= 11; j--) { seed = (seed << 1) | (unsigned)orig[0][j]; }
#else
    for (int j = 18; j >= 12; j--) { seed = (seed << 1) | (unsigned)orig[0][j]; }
#endif
    ref_keystream(seed, 116, ks);
    DEMOD(fr);
    for (int w = 1; w < R; w++) {
        int top; /* highest scrambled position of this word, -1: word not scrambled */
#if defined(H_AMBE_DEMOD)
        top = w == 1 ? 22 : -1;
#elif defined(H_IMBE72_DEMOD)
        top = w < 4 ? 22 : (w < 7 ? 14 : -1);
#else
        top = w == 1 ? 23 : (w < 4 ? 22 : (w < 6 ? 14 : -1));
#endif
        ok = 1;
        for (int j = C - 1; j >= 0; j--) {
            char want = orig[w][j];
            if (j <= top) { want ^= (char)ks[k]; k++; }
            ok &= fr[w][j] == want;
        }
        CHECK(ok, "scrambled words are XORed with the keystream, other words are untouched");
    }
    CHECK(same_row(0), "C0 is untouched");
#ifdef TWICE
    DEMOD(fr);
    for (int w = 0; w < R; w++) { CHECK(same_row(w), "descrambling is its own inverse"); }
#endif
    VH_END();
}
#endif

/* ---- 7100 -> 7200 reordering ---- */
#ifdef H_CONVERT
/* the pitch index B0 is concrete, the other bits symbolic */
static void ref_convert(const char in[88], char out[88], int b0) {
    int Lt = (int)((b0 + 39.5) / 4.0 + 0.25);
    int L = (int)(0.9254 * Lt);
    int K = L < 37 ? (L + 2) / 3 : 12;
    int p = 0;
    /* 7200 layout: pitch (6) + amplitude bits, then voicing at 48..48+K-1, two low gain bits, rest, status bit last */
    char rest[88];
    int nr = 0;
    for (int i = 1; i < 88; i++) { if (i < 42 || i >= 44 + K) { rest[nr++] = in[i]; } }
    int r = 0;
    for (int i = 0; i < 87; i++) {
        if (i >= 48 && i < 48 + K) { out[i] = in[44 + (i - 48)]; }
        else if (i == 48 + K) { out[i] = in[42]; }
        else if (i == 49 + K) { out[i] = in[43]; }
        else { out[i] = rest[r++]; }
    }
    out[87] = in[0];
    (void)p;
}
void harness(void) {
    char d[89], o[88], want[88];
    for (int i = 0; i < 88; i++) { o[i] = d[i] = (char)vh_bit(); }
    d[88] = 7;
    static const int pos[8] = {1, 2, 3, 4, 5, 6, 86, 87};
    for (int i = 0; i < 8; i++) { o[pos[i]] = d[pos[i]] = (char)((H_CONVERT >> (7 - i)) & 1); }
    ref_convert(o, want, H_CONVERT);
    mbe_convertImbe7100to7200(d);
    for (int i = 0; i < 88; i++) { CHECK(d[i] == want[i], "bit lands in its 7200x4400 position"); }
    CHECK(d[88] == 7, "nothing written past bit 87");
    /* pitch index is where the 7200 decoder reads it */
    CHECK(d[0] == o[1] && d[1] == o[2] && d[2] == o[3] && d[3] == o[4] && d[4] == o[5] && d[5] == o[6] && d[85] == o[86] && d[86] == o[87], "pitch bits preserved");
    VH_END();
}
#endif

/* ---- reported counts over whole frames (C17) ---- */
#ifdef H_COUNTS
#if H_COUNTS == 0
#define FRAME_R 8
#define FRAME_C 23
#define MAXDATA 12
#elif H_COUNTS == 1
#define FRAME_R 7
#define FRAME_C 24
#define MAXDATA 11
#elif H_COUNTS == 2
#define FRAME_R 4
#define FRAME_C 24
#define MAXDATA 3
#else
#define FRAME_R 4
#define FRAME_C 24
#define MAXDATA 3
#endif
void harness(void) {
    static char fr[FRAME_R][FRAME_C], d[96];
    for (int i = 0; i < FRAME_R; i++) { for (int j = 0; j < FRAME_C; j++) { fr[i][j] = (char)vh_bit(); } }
#if H_COUNTS == 0
    int e = mbe_eccImbe7200x4400C0(fr); mbe_demodulateImbe7200x4400Data(fr); int n = mbe_eccImbe7200x4400Data(fr, d);
#elif H_COUNTS == 1
    int e = mbe_eccImbe7100x4400C0(fr); mbe_demodulateImbe7100x4400Data(fr); int n = mbe_eccImbe7100x4400Data(fr, d);
#elif H_COUNTS == 2
    int e = mbe_eccAmbe3600x2450C0(fr); mbe_demodulateAmbe3600x2450Data(fr); int n = mbe_eccAmbe3600x2450Data(fr, d);
#else
    int e = mbe_eccAmbe3600x2400C0(fr); mbe_demodulateAmbe3600x2400Data(fr); int n = mbe_eccAmbe3600x2400Data(fr, d);
#endif
    CHECK(e >= 0 && e <= 3, "first code word reports at most three errors");
    CHECK(n >= 0 && n <= MAXDATA, "protected words report no more errors than they can correct");
    int bin = 1;
    for (int i = 0; i < (FRAME_R == 4 ? 49 : 88); i++) { bin &= d[i] == 0 || d[i] == 1; }
    CHECK(bin, "parameter bits are bits");
    VH_END();
}
#endif
