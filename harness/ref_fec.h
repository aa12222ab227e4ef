/* Independent reference encoders: Golay(23,12) and the two Hamming(15,11) codes, written from the
 * generator/parity definitions, not from the library's tables. Bit arrays, one bit per char. */
#ifndef REF_FEC_H
#define REF_FEC_H
/* systematic Golay (23,12), generator polynomial x^11+x^10+x^6+x^5+x^4+x^2+1 (0xC75);
 * data in cw[22..11] (MSB first), parity in cw[10..0]. */
static inline unsigned ref_golay_parity(unsigned data12) {
    unsigned r = data12 << 11;
    for (int i = 22; i >= 11; i--) {
        if (r & (1u << i)) { r ^= 0xC75u << (i - 11); }
    }
    return r & 0x7FFu;
}
static inline unsigned ref_golay_encode(unsigned data12) { return ((data12 & 0xFFFu) << 11) | ref_golay_parity(data12 & 0xFFFu); }
static inline int ref_popcount32(unsigned x) {
    x = x - ((x >> 1) & 0x55555555u);
    x = (x & 0x33333333u) + ((x >> 2) & 0x33333333u);
    x = (x + (x >> 4)) & 0x0F0F0F0Fu;
    return (int)((x * 0x01010101u) >> 24);
}
#endif
