"""Frame pairs for the synthesis harnesses."""
import math, struct


def bits(w):
    return struct.unpack("<I", struct.pack("<f", w))[0]


def rnd(w):
    return struct.unpack("<f", struct.pack("<f", w))[0]


def w_for(L, k=0):
    """a fundamental with this harmonic count, away from the points where a band edge jumps to the next bin"""
    w = .9254 * math.pi / (L + .1 + .4 * (k % 3))
    for i in range(200):
        v = rnd(w * (1 - i * 1.3e-4))
        m = 256 / (2 * math.pi) * v
        if all(abs((l - .5) * m - round((l - .5) * m)) > 2e-4 for l in range(1, 58)):
            return v
    raise ValueError("no fundamental for %d" % L)


def pairs(step=1, lo=9, k0=0):
    """(L, previous L, w bits, previous w bits): alternating steady, drifting and jumping pitch"""
    out = []
    for i, L in enumerate(range(lo, 57, step)):
        w = w_for(L, i)
        k = (i + k0) % 5
        if k == 0: pL, pw = L, rnd(w * 1.004)
        elif k == 1: pL, pw = max(9, L - 2), rnd(w * 1.06)
        elif k == 2: pL, pw = min(56, L + 3), rnd(w * .95)
        elif k == 3: pL, pw = max(9, 65 - L), w_for(max(9, 65 - L))
        else: pL, pw = min(56, L + 1), rnd(w * (1.095 if L % 2 else 1.105))
        out.append((L, pL, bits(w), bits(pw)))
    return out
