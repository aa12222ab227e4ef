/* Frame encoders for concrete parameter bits, from the frame descriptions (not from the library). */
#ifndef ENCODE_H
#define ENCODE_H
#include "ref_fec.h"
static void enc_keystream(unsigned seed, int n, unsigned char* ks)
{
    unsigned x = (16u * seed) & 0xFFFFu;
    for (int i = 0; i < n; i++) { x = (173u * x + 13849u) & 0xFFFFu; ks[i] = (unsigned char)(x >> 15); }
}
static unsigned enc_bits(const char* d, int n) { unsigned v = 0; for (int i = 0; i < n; i++) v = v << 1 | (unsigned)(d[i] & 1); return v; }
static unsigned enc_hamming(unsigned data11, const unsigned* H)
{
    unsigned w = data11 << 4;
    for (int i = 0; i < 4; i++) if (ref_popcount32(w & H[i]) & 1) w |= 8u >> i;
    return w;
}
static void enc_put(char* row, int off, unsigned w, int n) { for (int j = 0; j < n; j++) row[j + off] = (char)(w >> j & 1); }
static void enc_imbe72(const char d[88], char fr[8][23])
{
    static const unsigned H[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1};
    unsigned char ks[128];
    int k = 0;
    for (int i = 0; i < 8; i++) for (int j = 0; j < 23; j++) fr[i][j] = 0;
    for (int w = 0; w < 4; w++) enc_put(fr[w], 0, ref_golay_encode(enc_bits(d + 12 * w, 12)), 23);
    for (int w = 0; w < 3; w++) enc_put(fr[4 + w], 0, enc_hamming(enc_bits(d + 48 + 11 * w, 11), H), 15);
    for (int j = 0; j < 7; j++) fr[7][6 - j] = d[81 + j];
    enc_keystream(enc_bits(d, 12), 114, ks);
    for (int w = 1; w < 7; w++) for (int j = w < 4 ? 22 : 14; j >= 0; j--) fr[w][j] ^= (char)ks[k++];
}
static void enc_imbe71(const char d[88], char fr[7][24])
{
    static const unsigned H[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591};
    unsigned char ks[128];
    int k = 0;
    for (int i = 0; i < 7; i++) for (int j = 0; j < 24; j++) fr[i][j] = 0;
    enc_put(fr[0], 1, ref_golay_encode(enc_bits(d, 7)), 18);
    for (int w = 0; w < 3; w++) enc_put(fr[1 + w], w == 0, ref_golay_encode(enc_bits(d + 7 + 12 * w, 12)), 23);
    for (int w = 0; w < 2; w++) enc_put(fr[4 + w], 0, enc_hamming(enc_bits(d + 43 + 11 * w, 11), H), 15);
    for (int j = 0; j < 23; j++) fr[6][22 - j] = d[65 + j];
    enc_keystream(enc_bits(d, 7), 116, ks);
    for (int w = 1; w < 6; w++) for (int j = w == 1 ? 23 : w < 4 ? 22 : 14; j >= 0; j--) fr[w][j] ^= (char)ks[k++];
}
static void enc_ambe(const char d[49], char fr[4][24])
{
    unsigned char ks[24];
    for (int i = 0; i < 4; i++) for (int j = 0; j < 24; j++) fr[i][j] = 0;
    unsigned c0 = ref_golay_encode(enc_bits(d, 12));
    enc_put(fr[0], 1, c0, 23);
    fr[0][0] = (char)(ref_popcount32(c0) & 1);
    enc_put(fr[1], 0, ref_golay_encode(enc_bits(d + 12, 12)), 23);
    for (int j = 0; j < 11; j++) fr[2][10 - j] = d[24 + j];
    for (int j = 0; j < 14; j++) fr[3][13 - j] = d[35 + j];
    enc_keystream(enc_bits(d, 12), 23, ks);
    for (int j = 22; j >= 0; j--) fr[1][j] ^= (char)ks[22 - j];
}
#endif
