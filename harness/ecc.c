#include "vh.h"
#include "ref_fec.h"
#include "mbelib-neo/mbelib.h"

#ifdef H_GOLAY_ANY
/* any received word: changed-bit count is truthful, check bits pass, outputs binary */
void harness(void) {
    unsigned rx = vh_uint() & 0x7FFFFFu;
    char in[23], out[23];
    for (int i = 0; i < 23; i++) { in[i] = (char)((rx >> i) & 1u); }
    int n = mbe_golay2312(in, out);
    int diff = 0, bin = 1, pass = 1;
    for (int i = 0; i < 23; i++) {
        bin &= (out[i] == 0 || out[i] == 1);
        if (i >= 11) { diff += out[i] != (char)((rx >> i) & 1u); } else { pass &= out[i] == (char)((rx >> i) & 1u); }
        CHECK(in[i] == (char)((rx >> i) & 1u), "input is not modified");
    }
    CHECK(bin, "outputs are binary");
    CHECK(pass, "check bits pass through");
    CHECK(n == diff, "returned count equals changed message bits");
    CHECK(n <= 3, "never more than three corrections");
    VH_END();
}
#endif

static inline unsigned dec_bits(unsigned rx) {
    char in[23], out[23];
    for (int i = 0; i < 23; i++) { in[i] = (char)((rx >> i) & 1u); }
    mbe_golay2312(in, out);
    unsigned got = 0;
    for (int i = 0; i < 12; i++) { got |= (unsigned)(out[11 + i] & 1) << i; }
    return got;
}
#ifdef H_GOLAY_ZERO
/* the all-zero message under every error pattern of weight <= 3 */
void harness(void) {
    unsigned err = vh_uint() & 0x7FFFFFu;
    ASSUME(ref_popcount32(err) <= 3);
    CHECK(dec_bits(err) == 0, "every error pattern of weight <= 3 on the zero code word is removed");
    VH_END();
}
#endif
#ifdef H_GOLAY_SHIFT
/* decoding commutes with adding the code word of message bit K (by induction: of any message) */
void harness(void) {
    unsigned rx = vh_uint() & 0x7FFFFFu;
    CHECK(dec_bits(rx ^ ref_golay_encode(1u << H_GOLAY_SHIFT)) == (dec_bits(rx) ^ (1u << H_GOLAY_SHIFT)), "decoding is translation invariant");
    VH_END();
}
#endif

#ifdef H_GOLAY_WORD
static long dec_word(long w) { mbe_checkGolayBlock(&w); return w; }
void harness(void) {
    unsigned rx = vh_uint() & 0x7FFFFFu;
#if H_GOLAY_WORD == 0
    ASSUME(ref_popcount32(rx) <= 3);
    CHECK(dec_word((long)rx) == 0, "checkGolayBlock removes every error pattern of weight <= 3 from the zero code word");
#elif H_GOLAY_WORD == 1
    CHECK(dec_word((long)(rx ^ ref_golay_encode(1u << KK))) == (dec_word((long)rx) ^ (1L << KK)), "checkGolayBlock is translation invariant");
#else
    unsigned long hi = (unsigned long)VH_RAW(long long);
    long r = dec_word((long)((hi << 23) | rx)); /* arbitrary bits above the code word */
    CHECK(r == dec_word((long)rx), "checkGolayBlock ignores upper bits");
    CHECK(r >= 0 && r < 4096, "checkGolayBlock returns a 12-bit message");
    char in[23], out[23];
    for (int i = 0; i < 23; i++) { in[i] = (char)((rx >> i) & 1u); }
    mbe_golay2312(in, out);
    unsigned got = 0;
    for (int i = 0; i < 12; i++) { got |= (unsigned)(out[11 + i] & 1) << i; }
    CHECK((long)got == dec_word((long)rx), "packed and bit-array forms agree");
#endif
    VH_END();
}
#endif

#ifdef H_HAMMING
/* parity-check masks defining the two codes (bit i of the word = in[i]) */
#if H_HAMMING == 1
static const unsigned H[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1};
#define DEC mbe_hamming1511
#else
static const unsigned H[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591};
#define DEC mbe_7100x4400hamming1511
#endif
static int is_cw(unsigned w) {
    int ok = 1;
    for (int i = 0; i < 4; i++) { ok &= (ref_popcount32(w & H[i]) & 1) == 0; }
    return ok;
}
void harness(void) {
    unsigned rx = vh_uint() & 0x7FFFu, e = vh_uint() & 0x7FFFu;
    char in[16], out[16];
    for (int i = 0; i < 15; i++) { in[i] = (char)((rx >> i) & 1u); out[i] = 0x55; }
    out[15] = 0x55;
    int n = DEC(in, out);
    unsigned got = 0;
    for (int i = 0; i < 15; i++) { CHECK(out[i] == 0 || out[i] == 1, "outputs are binary"); got |= (unsigned)(out[i] & 1) << i; }
    CHECK(is_cw(got), "decoder output is always a code word");
    CHECK(ref_popcount32(got ^ rx) == n, "return value equals the number of changed bits");
    CHECK(n == 0 || n == 1, "at most one correction");
    CHECK(out[15] == 0x55, "15 bits written");
    /* e: any single-bit error (or none) applied to a code word */
    if ((e & (e - 1)) == 0 && is_cw(rx ^ e)) { CHECK(got == (rx ^ e), "single-bit errors are corrected"); CHECK(n == (e != 0), "correction is counted"); }
    VH_END();
}
#endif
