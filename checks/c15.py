#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob, conceal
c = vlib.Check("C15")
cases = []
B = (0, 100, 207, 208, 255)
P72 = (0, 1000000, 2000000, 100, 333111, 1333111, 2333111, 2222110, 2222100, 3330000, 3331000, 3333111)
P71 = (0, 100000, 200000, 10, 33311, 133311, 233311, 222211, 222210, 333000, 333100, 333311)
for entry in range(6):
    for b0 in B:
        for pat in ((0, 1, 4, 5, 6, 7, 30) if entry < 2 else P72 if entry < 4 else P71):
            for rc in (0, 1, 2, 3, 4, 5):
                if entry & 1 and (rc not in (0, 3, 4) or b0 in (0, 255)) or rc in (1, 5) and b0 not in (100, 255):
                    continue
                cases += conceal.imbe(entry, b0, pat, rc)
J = [sjob.SJob("frames", "conceal_imbe.c", cases, kinds={"check", "close"}, replace=["mbe_synthesizeSpeechf"], name_terms=64, validate=6),
     sjob.SJob("render", "mute.c", [(rc, t, k, s) for rc in (0, 1, 3, 4, 5) for t in (0, 1) for k in (0, 1) for s in (0, 1)], kinds={"check", "close"},
               replace=["mbe_synthesizeComfortNoisef"], validate=2)]
sjob.run_jobs(c, J)
c.bounds = ["all six IMBE entry points; pitch indices 0, 100, 207 (valid), 208, 255 (invalid) with one fixed setting of the other parameter bits each",
            "error totals 0..30 (parameter input) or 12 error distributions over the code words; previous repeat count 0..5; previous error rate any real in 0..1",
            "previous frame of 11 harmonics with any amplitudes 0.01..5000 and log amplitudes -5..12, any gain, energy and limit"]
c.assumptions = ["the synthesiser is replaced by a recorder in the frame jobs; rendering of muted frames is a separate job on the real synthesiser with silent harmonics",
                 "real arithmetic for the error-rate thresholds"]
sys.exit(c.finish())
