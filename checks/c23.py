#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C23")
K = {"check", "close"}
J = [sjob.SJob("smooth", "smooth.c", [(L, 0) for L in range(9, 57)] + [(L, m) for L in (9, 17, 30, 56) for m in (2, 3)], kinds=K, validate=3),
     sjob.SJob("handoff_scalar", "smooth.c", [(L, 1) for L in (9, 16, 33, 56)], config="scalar", kinds=K, validate=3, name_terms=64),
     sjob.SJob("handoff_simd", "smooth.c", [(L, 1) for L in (9, 16, 33, 56)], config="simd", kinds=K, validate=3, name_terms=64)]
sjob.run_jobs(c, J)
c.bounds = ["every harmonic count 9..56; amplitudes 0..60000, error rate 0..1, error counts 0..200 / 0..20, previous energy -1e6..1e12, any previous limit",
            "energy handoff from the enhancement stage: 9, 16, 33 and 56 harmonics at one fundamental each"]
c.assumptions = ["real arithmetic; a harmonic within 1e-4 (relative) of the voicing threshold may go either way"]
sys.exit(c.finish())
