#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C21")
K = {"check", "close"}
warm = [(0, s, v) for s in (1, 2) for v in (0, 1, 3147, 26562, 53124)]
J = [sjob.SJob("lcg_" + cfg, "lcg.c", [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0)], config=cfg, kinds=K, validate=4, name_terms=64) for cfg in ("scalar", "simd")]
J += [sjob.SJob("shape_" + cfg, "lcg.c", warm, config=cfg, kinds=K, validate=4, name_terms=64) for cfg in ("scalar", "simd")]
sjob.run_jobs(c, J)
c.bounds = ["every generator state 0..53124 and every overlap content with all bands voiced; five start values with all or every second band unvoiced; every 32-bit thread seed for fresh streams",
            "two frames in a row from any state (one step of an induction over frames); a muted frame in between"]
c.assumptions = ["the head of the window is observed through the phases of harmonics 4..56, samples 160..255 through the next frame's overlap, the rest through C26"]
sys.exit(c.finish())
