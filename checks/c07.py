#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C07")
sjob.run_jobs(c, [sjob.SJob("imbe_pitch", "imbe_params.c", [(b,) for b in range(256)], defs=["-DMODE=7"], kinds={"check", "close"}, validate=6)])
c.bounds = ["none on the frame bits: all 256 pitch indices as cases, the other 80 bits symbolic; any previous harmonic count 9..56"]
c.assumptions = ["published bit-allocation tables as copied in harness/tables"]
sys.exit(c.finish())
