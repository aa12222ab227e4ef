#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C10")
sjob.run_jobs(c, [sjob.SJob("imbe_amps", "imbe_params.c", [(b,) for b in range(207, -1, -1)], defs=["-DMODE=10"], kinds={"check", "close"}, validate=12)])
c.bounds = ["all 208 valid pitch indices as cases, the other 80 bits symbolic; previous harmonic count 9..56 symbolic, previous log2 amplitudes any reals in [-40,40]"]
c.assumptions = ["real arithmetic: float operations are encoded as exact real operations, coefficients compared with relative tolerance 1e-5 and results with 2e-3",
                 "published tables as copied in harness/tables"]
sys.exit(c.finish())
