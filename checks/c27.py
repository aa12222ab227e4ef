#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
from synth import pairs, bits, rnd
c = vlib.Check("C27")
T = "--thorough" in sys.argv
seeds = (77, 0, 53124, 3147, 20011)
cases = []
for k in range(5 if T else 1):
    cases += [p + ((0, 2, 3, 6, 4, 5, 7, 9)[(i + k) % 8], seeds[(i + k) % 5], 0, 0) for i, p in enumerate(pairs(k0=k))]
cases += [p + (0, -1, 0, 0) for p in pairs(16)]                                     # first frame of a stream
for w, r in ((.2, .905), (.2, .895), (.2, 1.095), (.2, 1.105), (.06, .905), (.06, 1.105), (.3, 1.0)):
    for pat in (0, 2):
        cases.append((12, 14, bits(w), bits(rnd(w * r)), pat, 501, 0, 0))           # either side of the 10% pitch-change limit
J = [sjob.SJob("voiced_" + cfg, "synth.c", cases, config=cfg, kinds={"check", "close"}, name_terms=64, validate=4, case_timeout=300) for cfg in ("scalar", "simd")]
sjob.run_jobs(c, J)
c.bounds = ["every harmonic count 9..56 with one fundamental each, previous frames with equal, smaller, larger and unrelated counts, pitch changes on both sides of 10%, eight voicing patterns, one set of starting phases and one noise start value per case",
            "all amplitudes of voiced harmonics in both frames 0..12, symbolic at once (the output is linear in them)"]
c.assumptions = ["real arithmetic; samples compared to 5e-2 (of a signal up to 4447), phases to 5e-3"]
sys.exit(c.finish())
