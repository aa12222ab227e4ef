#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sjob, conceal
from vlib import *
from fec import *
c = Check("C17")
c.functions = ["mbe_processImbe7200x4400Framef", "mbe_processImbe7100x4400Framef", "mbe_processImbe4400Dataf", "mbe_processAmbe3600x2450Framef", "mbe_processAmbe3600x2400Framef",
               "mbe_processAmbe2450Dataf", "mbe_processAmbe2400Dataf", "error correction stages"]
S = ECC + ["i72", "i71", "ac", "a25", "a24"]
c.run_cbmc([Cbmc("counts_%s" % n, "frames.c", S, defs=["H_COUNTS=%d" % i]) for i, n in enumerate(("imbe7200", "imbe7100", "ambe2450", "ambe2400"))])
imbe, ambe = [], []
R72 = ("000000", "001000", "111000", "000111", "300000", "330000", "332000", "333000", "333100", "333111")
for b0 in (100, 208):
    for rc in (0, 3, 4):
        for e in (2, 4):
            for c0 in range(4):
                for r in R72:
                    pat = "%d%s" % (c0, r if e == 2 else r[:5])
                    if rc and r not in ("000000", "333000", "333111"):
                        continue
                    imbe += conceal.imbe(e, b0, int(pat), rc)
        for t in range(0, 21):
            if rc == 0 or t in (0, 5, 6):
                imbe += conceal.imbe(0, b0, t, rc)
for e in (2, 6):
    for k, v in ((0, 50), (1, 124), (2, 120), (3, 126), (4, 40), (5, 200), (6, 40)) if e == 2 else ((0, 50), (4, 40), (4, 6), (5, 200), (6, 140)):
        for p in [10 * i + j for i in range(4) for j in range(4)] + [100, 101, 102, 103]:
            for rc in (0, 3):
                if rc == 0 or k == 0:
                    ambe.append((e, k, v, p, rc, 0))
    for k, v in ((0, 50), (2, 120), (4, 40)) if e == 2 else ((0, 50), (4, 40), (6, 140)):
        for t in range(0, 21):
            ambe += [(e - 2, k, v, t, rc, 0) for rc in ((0, 3) if k == 0 else (0,))]
sjob.run_jobs(c, [sjob.SJob("imbe", "conceal_imbe.c", imbe, kinds={"check", "close"}, replace=["mbe_synthesizeSpeechf"], name_terms=64, validate=3),
                  sjob.SJob("ambe", "conceal_ambe.c", ambe, kinds={"check", "close"}, replace=["mbe_synthesizeSpeechf"], name_terms=64, validate=3)])
c.bounds = ["counts: complete over all frame bits of all four formats", "status strings: every combination of C0 count and code-word error distribution listed (all 20 for AMBE frames, 40 for IMBE frames), totals 0..20 for parameter input; "
            "all frame kinds; previous repeat counts below and at the limit; previous error rate symbolic"]
c.assumptions = ["the speech synthesiser is replaced by a recorder", "counts for parameter input are the caller's (0..20)"]
sys.exit(c.finish())
