#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
from synth import pairs, bits
c = vlib.Check("C19")
K = {"check", "close"}
sp = [p + ((0, 1, 2, 3, 6, 7)[i % 6], (77, 0, 53124)[i % 3], 2, 1) for i, p in enumerate(pairs())]
sp += [(L, pL, bits(w), bits(pw), pat, sd, 2, 1) for L, pL, w, pw in ((0, 12, .2, .21), (0, 56, 0, .05), (12, 0, .2, 0.), (0, 0, 0., 0.), (5, 8, .5, .4), (56, 56, .3, .3), (20, 9, 0., .2))
       for pat, sd in ((2, 77), (0, -1), (1, 5))] + [(1, 1, bits(3.), bits(3.), p, s, 2, 1) for p, s in ((2, 77), (0, -1))]
tones = [(0, i) for i in range(0, 256)] + [(1, i) for i in range(0, 128)] + [(2, 0)]
J = [sjob.SJob("speech_" + cfg, "synth.c", sp, config=cfg, kinds=K, name_terms=64, validate=3, case_timeout=200) for cfg in ("scalar", "simd")]
J.append(sjob.SJob("tones", "range.c", tones, kinds=K, name_terms=64, validate=3))
sjob.run_jobs(c, J)
c.bounds = ["speech: harmonic counts 0, 1, 5, 9..56 for either frame, fundamentals 0..3, one voicing pattern, noise start value and set of phases per case; every amplitude 0..1e6 and every previous-block sample -500..500 symbolic",
            "every tone index of both tone renderers with any amplitude and phase; comfort noise from any seed"]
c.assumptions = ["real arithmetic: overflow to infinity of parameters beyond these ranges is outside the claim"]
sys.exit(c.finish())
