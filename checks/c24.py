#!/usr/bin/env python3
import math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C24")


def bits(w):
    return struct.unpack("<I", struct.pack("<f", w))[0]


# every (fundamental, harmonic count) pair the three codecs produce, from their published formulas
P = []
for b0 in range(208):
    w = 4 * math.pi / (b0 + 39.5)
    P.append((int(.9254 * int(math.pi / w + .25)), bits(w)))
for b0 in range(120):
    # AMBE: 2450 uses a table; these are the fundamentals of 2400, the harmonic counts sweep the same range
    f = 2.0 ** (-4.311767578125 - 2.1336e-2 * (b0 + .5))
    P.append((max(9, min(56, int(.9254 / (2 * f)))), bits(2 * math.pi * f)))
one = {}
for L, b in P:
    one.setdefault(L, b)
cases = [(L, b, 0) for L, b in P] + [(L, b, m) for L, b in sorted(one.items()) for m in (1, 3, 4, 5)] + [(9, 0, 2), (9, 0, 1), (56, 0, 2)]
# any fundamental with any count (public entry point): smallest and largest counts, counts below the codecs' minimum
cases += [(L, bits(w), 0) for L in (1, 2, 3, 4, 5, 6, 7, 8, 11, 55) for w in (0.3, 0.051)]
K = {"check", "close"}
J = [sjob.SJob("enhance_" + cfg, "enhance.c", cases, config=cfg, kinds=K, validate=3, name_terms=64) for cfg in ("scalar", "simd")]
sjob.run_jobs(c, J)
c.bounds = ["all 208 IMBE fundamentals and 120 AMBE fundamentals with their harmonic counts (9..56), counts 1..8 at two fundamentals; every amplitude in 1e-3..60000 or (three patterns per count) exactly zero"]
c.assumptions = ["real arithmetic compared with relative tolerance 1e-4: float overflow of the cubed energy (amplitudes beyond 1e6) is outside the claim",
                 "inputs whose weights are undefined (w0*Rm0*(Rm0^2-Rm1^2) not positive) are covered by the degenerate cases only"]
sys.exit(c.finish())
