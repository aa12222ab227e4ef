#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C22")
cases = [(0, i) for i in range(256)] + [(1, i) for i in range(0, 128)] + [(2, 0)]
sjob.run_jobs(c, [sjob.SJob("tone", "tone.c", cases, kinds={"check", "close"}, validate=16),
                  sjob.SJob("tone_simd", "tone.c", [x for x in cases if x[1] % 16 == 1 or x[1] == 131], config="simd", kinds={"check", "close"}, validate=2)])
c.bounds = ["every 8-bit tone index of mbe_synthesizeTonef and every index 0..127 (plus one case for all undefined 32-bit indices) of mbe_synthesizeTonefdstar; the amplitude and all other frame bits and both 32-bit starting phases symbolic; one frame from any phase, hence any sequence of frames"]
c.assumptions = ["real arithmetic for the float operations, samples compared to 2e-2 (full scale 4447)", "frequencies as published for the tone indices"]
sys.exit(c.finish())
