#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C20")
J = [sjob.SJob("noise_" + cfg, "noise.c", cs, config=cfg, kinds={"check", "close"}, validate=3) 
     for cfg, cs in (("scalar", [(0,), (1,), (2,)]), ("simd", [(3,), (1,), (2,)]))]
sjob.run_jobs(c, J)
c.bounds = ["any 32-bit seed (the zero seed and the unseeded thread as separate cases); three frames float output, one of 16-bit output, reseeding; the generator state after a frame is an arbitrary 48-bit value, so later frames behave alike"]
c.assumptions = ["real arithmetic for the float scaling (samples compared to 2e-5; the generator itself is bit-exact)"]
sys.exit(c.finish())
