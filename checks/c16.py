#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C16")
cases = []
FP = (0, 1, 3, 10, 13, 20, 22, 23, 30, 32, 33, 100, 103, 133)
for e in range(8):
    a25, fr, short = e < 4, e >> 1 & 1, e & 1
    pats = FP if fr else (0, 3, 4, 5, 6, 7, 20, 205, 406) if a25 else (0, 2, 3, 4, 5, 101, 102, 103, 201, 202, 204, 304, 20)
    kinds = [(0, 50), (0, 119), (1, 124), (1, 125), (2, 120), (2, 123), (3, 126), (3, 127), (4, 5), (4, 6), (4, 7), (4, 122), (4, 128), (4, 163),
             (5, 0), (5, 4), (5, 123), (5, 127), (5, 164), (5, 255), (6, 40), (6, 41)] if a25 else \
            [(0, 50), (0, 125), (4, 5), (4, 6), (4, 7), (4, 60), (4, 122), (5, 4), (5, 123), (5, 127), (5, 164), (5, 255), (6, 128), (6, 163)]
    for k, v in kinds:
        if short and v not in (50, 124, 120, 126, 163, 127, 60, 255, 41, 128):
            continue
        for p in pats:
            main = v in (50, 163, 127, 120, 60)
            if short and p not in (0, 4, 22, 33, 406, 204):
                continue
            if not main and p not in (0, 3, 4, 5, 6, 22, 33, 101, 304):
                continue
            for rc in (0, 1, 2, 3, 4):
                if rc not in ((0, 2, 3, 4) if main and not short else (0, 3)):
                    continue
                for pk in (0, 1, 2):
                    if pk == 1 and (rc or not main or short) or pk == 2 and (rc or short):
                        continue
                    cases.append((e, k, v, p, rc, pk))
for v in range(256):            # every tone index
    valid = 5 <= v <= 122 or 128 <= v <= 163
    cases.append((2, 4 if valid else 5, v, 0, 0, 0))
    cases.append((6, 4 if 5 <= v <= 122 else 6 if 128 <= v <= 163 else 5, v, 0, 0, 0))
for b in range(126):            # every pitch index
    cases.append((2, 2 if 120 <= b <= 123 else 1 if b >= 124 else 0, b, 33, 1, 0))
    cases.append((6, 0, b, 31, 1, 0))
J = [sjob.SJob("frames", "conceal_ambe.c", cases, kinds={"check", "close"}, replace=["mbe_synthesizeSpeechf"], name_terms=64, validate=6)]
sjob.run_jobs(c, J)
c.bounds = ["all eight AMBE entry points; voice, silence, erasure, unverified-tone, valid and invalid tone frames (every pitch and tone index at one error pattern, selected ones at all), one fixed setting of the other parameter bits each",
            "error patterns: 14 distributions over C0, its parity bit and C1 for frames; up to 13 totals (with C0 counts) for parameter input; previous repeat count 0..4; previous state voice, erasure or another codec's",
            "previous frame of any amplitudes 0.01..5000, log amplitudes -5..12, gain, energy, limit, phase and error rate"]
c.assumptions = ["the speech synthesiser is replaced by a recorder; comfort noise and tones are compared with the public generators (properties C20 and C22)"]
sys.exit(c.finish())
