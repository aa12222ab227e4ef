#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
from synth import pairs, bits
c = vlib.Check("C26")
T = "--thorough" in sys.argv
seeds = (77, 0, 53124, 3147, 20011)
cases = []
for k in range(5 if T else 1):
    cases += [p + ((1, 2, 3, 6, 5, 7, 9)[(i + k) % 7], seeds[(i + k) % 5], 1, 0) for i, p in enumerate(pairs(k0=k))]
cases += [p + (1, -1, 1, 0) for p in pairs(16)]                                     # first frame of a stream
cases += [(56, 40, bits(.08), bits(.07), 1, 77, 1, 0), (30, 20, bits(.21), bits(.2), 2, 5, 1, 0)]     # bands beyond the last bin
J = [sjob.SJob("unvoiced_" + cfg, "synth.c", cases, config=cfg, kinds={"check", "close"}, name_terms=64, validate=4, case_timeout=300) for cfg in ("scalar", "simd")]
sjob.run_jobs(c, J)
c.bounds = ["every harmonic count 9..56 with one fundamental each, one of seven voicing patterns and one of five noise start values per case%s" % (" (five rotations)" if T else ""),
            "all amplitudes of unvoiced harmonics 0..12 and all 256 samples of the previous block -500..500, symbolic at once; the first frame of a stream; fundamentals whose bands run past the last bin"]
c.assumptions = ["real arithmetic; samples compared to 5e-2, kept block to 2e-2", "the analysis window is the one in the code (a trapezoid with one repeated step); band edges as ceil((l +- 1/2) 256 w0 / 2 pi)"]
sys.exit(c.finish())
