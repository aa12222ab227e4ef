#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C11")
sjob.run_jobs(c, [sjob.SJob("ambe2450", "ambe_params.c", [(b, v) for b in (124, 125) for v in range(1, 20)] + [(b, 0) for b in range(119, -1, -1)], defs=["-DMODE=11", "-DRATE=2450"], kinds={"check", "close"}, validate=8)])
c.bounds = ["every pitch index as a case, the other 42 bits symbolic; previous harmonic count 9..56 symbolic, previous log2 amplitudes and gain any reals in [-40,40]"]
c.assumptions = ["real arithmetic: float operations are encoded as exact real operations, coefficients compared with relative tolerance 1e-5, results with 3e-3",
                 "published tables as copied in harness/tables"]
sys.exit(c.finish())
