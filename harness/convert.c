/* 7100x4400 to 7200x4400 parameter reordering (C05).  case 0: pitch index; every other bit is symbolic. */
#include "sv.h"
#include "mbelib-neo/mbelib.h"
static char d[90], o[88], want[88];
void harness(void)
{
    int b0 = sv_case(0);
    static const int pos[8] = {1, 2, 3, 4, 5, 6, 86, 87};
    for (int i = 0; i < 88; i++) o[i] = (char)sv_bit();
    for (int i = 0; i < 8; i++) o[pos[i]] = (char)(b0 >> (7 - i) & 1);
    d[0] = d[89] = 7;
    for (int i = 0; i < 88; i++) d[i + 1] = o[i];
    /* number of voicing bits the pitch implies */
    int L = (int)(0.9254 * (int)((b0 + 39.5) / 4.0 + 0.25)), K = L < 37 ? (L + 2) / 3 : 12;
    /* 7100 order: status bit, 41 bits, two low gain bits, K voicing bits, remainder; 7200 order: 48 bits, K voicing
     * bits, the two gain bits, remainder, status bit */
    char rest[88];
    int nr = 0, r = 0;
    for (int i = 1; i < 88; i++) if (i < 42 || i >= 44 + K) rest[nr++] = o[i];
    for (int i = 0; i < 87; i++) {
        if (i >= 48 && i < 48 + K) want[i] = o[44 + (i - 48)];
        else if (i == 48 + K) want[i] = o[42];
        else if (i == 49 + K) want[i] = o[43];
        else want[i] = rest[r++];
    }
    want[87] = o[0];
    mbe_convertImbe7100to7200(d + 1);
    for (int i = 0; i < 88; i++) sv_check(d[i + 1] == want[i], "bit lands in its 7200x4400 position");
    sv_check(d[0] == 7 && d[89] == 7, "nothing written outside the 88 bits");
    for (int i = 0; i < 6; i++) sv_check(d[i + 1] == o[i + 1], "pitch bits preserved");
    sv_check(d[86] == o[86] && d[87] == o[87], "pitch bits preserved");
    sv_end();
}
