#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C09")
sjob.run_jobs(c, [sjob.SJob("ambe2400", "ambe_params.c", [(b,) for b in range(127, -1, -1)], defs=["-DMODE=8", "-DRATE=2400"], kinds={"check", "close"}, validate=8)])
c.bounds = ["every pitch index as a case, the other 42 bits symbolic; any previous harmonic count 9..56"]
c.assumptions = ["real arithmetic: float operations are encoded as exact real operations, coefficients compared with relative tolerance 1e-5, results with 3e-3",
                 "published tables as copied in harness/tables"]
sys.exit(c.finish())
