#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C14")
deep = "--thorough" in sys.argv
cases = []
for codec in range(3):
    n, top, bad = (256, 4, 6) if codec == 0 else (128, 3, 4)
    for b in range(n):
        full = deep or b in (0, 3, 20, 47, 100, 150, 207, 208, 255) if codec == 0 else deep or b in (0, 30, 60, 90, 110, 119) or b >= 120
        cases.append((codec, b, 0 if full else 1, 0, b % (top + 1), 0))
        if b % 8 == 3 or full or b > 207:
            cases += [(codec, b, 1, bad, rc, 0) for rc in range(top + 1)]
        if codec and (full or b % 16 == 0):
            cases += [(codec, b, 1, 0, b % 4, 1), (codec, b, 1, bad, 3, 1), (codec, b, 2, 0, 0, 2), (codec, b, 2, bad, 0, 2)]
J = [sjob.SJob("well", "well.c", cases, kinds={"check", "close"}, replace=["mbe_synthesizeSpeechf", "mbe_spectralAmpEnhance"], name_terms=64, validate=4)]
sjob.run_jobs(c, J)
c.bounds = ["every pitch index of the three parameter formats; all other bits symbolic for %s, fixed for the rest (their influence is excluded by C07-C09)" % ("every index" if deep else "21 to 9 indices per codec, reserved ones included"),
            "previous blocks: harmonic counts 9..56, voicing, fundamentals, gain, log amplitudes and error rate symbolic; every repeat count; voice, erased and (AMBE) foreign previous blocks"]
c.assumptions = ["one frame from any well-formed state, hence any sequence of frames", "synthesis and enhancement replaced; they change none of these fields but voicing (C23, C24, C27)",
                 "code-word error counts enter through the repeat rule only (C15, C16, C31)"]
sys.exit(c.finish())
