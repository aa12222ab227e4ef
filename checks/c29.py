#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C29")
cases = [(0, i) for i in range(256)] + [(1, i) for i in range(0, 128)] + [(2, 0)]
K = {"check", "close"}
sjob.run_jobs(c, [sjob.SJob("tone", "tone.c", cases, config="notones", kinds=K, validate=8),
                  sjob.SJob("ambe2450", "ambe_params.c", [(b, 0) for b in range(127, -1, -1)], config="notones", defs=["-DMODE=8", "-DRATE=2450"], kinds=K, validate=4),
                  sjob.SJob("ambe2400", "ambe_params.c", [(b, 0) for b in range(127, -1, -1)], config="notones", defs=["-DMODE=8", "-DRATE=2400"], kinds=K, validate=4)])
c.bounds = ["library built with DISABLE_AMBE_TONES; every tone index with symbolic amplitude, frame bits and phases; every pitch index with the other bits symbolic for the classification"]
c.assumptions = ["real arithmetic for float operations"]
sys.exit(c.finish())
