/* Tone and comfort-noise samples stay within the soft-clip range (C19).
 * case 0: 0 AMBE+2 tone, 1 D-STAR tone, 2 comfort noise; case 1: tone index */
#include "sv.h"
#include "mbelib-neo/mbelib.h"
static mbe_parms cur;
static char d[49];
static float out[164];
void harness(void)
{
    int kind = sv_case(0), id = sv_case(1);
    for (int i = 0; i < 49; i++) d[i] = (char)(i >= 12 && i < 20 && kind == 0 ? (id >> (19 - i)) & 1 : sv_bit());
    uint32_t p1 = sv_uint(), p2 = sv_uint(), seed = sv_uint();
    cur.swn = (int)p1; cur.un = (int)p2;
    for (int i = 0; i < 164; i++) out[i] = 77.0f;
    if (kind == 0) mbe_synthesizeTonef(out + 2, d, &cur);
    else if (kind == 1) mbe_synthesizeTonefdstar(out + 2, d, &cur, id);
    else { mbe_setThreadRngSeed(seed); mbe_synthesizeComfortNoisef(out + 2); }
    /* 31128.65 / 7 = 4446.95 */
    for (int n = 0; n < 160; n++) sv_close(out[2 + n], 0.0, 4446.951, "sample within the soft-clip range");
    sv_check(out[0] == 77.0f && out[1] == 77.0f && out[162] == 77.0f && out[163] == 77.0f, "exactly 160 samples are written");
    sv_end();
}
