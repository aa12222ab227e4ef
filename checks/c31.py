#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C31")
cases = []
for f in range(4):
    pit = ((0, 100, 208, 255) if f < 2 else (0, 50, 120, 124, 126, 127))
    for b in pit:
        for fl in (0, 2, 3, 6, 7):
            for rc in (0, 3, 4):
                for cl in ((0, 1, 2) if f < 2 else (0,)):
                    if (rc or cl) and b not in (100, 255, 50, 126) or fl in (6,) and (rc or cl):
                        continue
                    if f >= 2 and fl == 7:
                        continue
                    cases.append((f, 0, b, fl, rc, cl))
    for sd in range(1, 9):
        for rc, cl in ((0, 0), (4, 1), (3, 0)) if f < 2 else ((0, 0), (3, 0)):
            cases.append((f, sd, 0, 0, rc, cl))
J = [sjob.SJob("entries", "entries.c", cases, kinds={"check", "close"}, replace=["mbe_synthesizeSpeechf"], name_terms=64, validate=4)]
sjob.run_jobs(c, J)
c.bounds = ["four formats; encoded frames at 4 or 6 pitch indices with 0..7 flipped bits and 8 arbitrary (mostly uncorrectable) bit matrices each, one fixed setting of the remaining bits per frame",
            "previous repeat count 0, 3, 4; any previous error rate away from the muting threshold; any previous amplitudes 0.01..50, log amplitudes -5..5, gain, energy, limit, phase"]
c.assumptions = ["the speech synthesiser is replaced by a function of its arguments", "parameter entry points are compared with whole-frame ones where their repeat rules (C15, C16) agree"]
sys.exit(c.finish())
