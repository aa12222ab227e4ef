#!/usr/bin/env python3
import math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sjob, conceal
from vlib import *
from fec import *
c = Check("C13")
deep = "--thorough" in sys.argv
UB = {"memory", "overflow", "shift", "div", "fptoint", "abort"}
c.functions = ["error correction, descrambling, reordering, parameter decoding, spectral enhancement, adaptive smoothing, frame processing, tone rendering"]
S = ECC + ["i72", "i71", "ac", "a25", "a24"]
c.run_cbmc([Cbmc("stages_%s" % n, "frames.c", S, defs=["H_COUNTS=%d" % i], std_checks=True) for i, n in enumerate(("imbe7200", "imbe7100", "ambe2450", "ambe2400"))])


def bits(w):
    return struct.unpack("<I", struct.pack("<f", w))[0]


def reps(table):
    """a pitch index of every harmonic count"""
    out = set()
    for L in set(table):
        k = [b for b, x in enumerate(table) if x == L]
        out |= {k[0], k[-1]} if L in (9, 15, 16, 17, 56) else {k[L % len(k)]}
    return sorted(out)


LI = [int(.9254 * int((b + 39.5) / 4.0 + .25)) for b in range(208)]
LA = [max(9, min(56, int(.9254 / (2.0 * 2.0 ** (-4.311767578125 - 2.1336e-2 * (b + .5)))))) for b in range(120)]
bi = list(range(256)) if deep else reps(LI) + [208, 255]
ba = list(range(128)) if deep else reps(LA) + list(range(120, 128))
enh = [(L, bits(4 * math.pi / (LI.index(L) + 39.5)) if L in LI else bits(.9254 * math.pi / (L + .5)), m) for L in range(9, 57) for m in ((0, 1, 3) if deep or L % 6 == 2 else (0,))] + [(9, 0, 2), (56, 0, 2)]
J = [sjob.SJob("imbe_decode", "imbe_params.c", [(b,) for b in sorted(bi, reverse=True)], defs=["-DMODE=7"], ub=True, kinds=UB, validate=2),
     sjob.SJob("ambe2450_decode", "ambe_params.c", [(b,) for b in reversed(ba)], defs=["-DMODE=8", "-DRATE=2450"], ub=True, kinds=UB, validate=2),
     sjob.SJob("ambe2400_decode", "ambe_params.c", [(b,) for b in reversed(ba)], defs=["-DMODE=8", "-DRATE=2400"], ub=True, kinds=UB, validate=2),
     sjob.SJob("reorder7100", "convert.c", [(b,) for b in range(0, 256, 1 if deep else 5)] + [(207,), (208,), (255,)], ub=True, kinds=UB, validate=2),
     sjob.SJob("enhance", "enhance.c", enh, ub=True, kinds=UB, validate=2, name_terms=64),
     sjob.SJob("smooth", "smooth.c", [(L, m) for L in (range(9, 57) if deep else (9, 17, 30, 56)) for m in (0, 2, 3)], ub=True, kinds=UB, validate=2),
     sjob.SJob("tones", "tone.c", [(0, i) for i in range(0, 256, 1 if deep else 9)] + [(1, i) for i in range(0, 128, 1 if deep else 9)] + [(2, 0)], ub=True, kinds=UB, validate=2),
     sjob.SJob("imbe_frames", "conceal_imbe.c", [x for e, p in ((0, 0), (0, 30), (2, 0), (2, 3333111), (4, 0), (4, 333311)) for b in (0, 207, 255) for rc in (0, 3, 5) for x in conceal.imbe(e, b, p, rc)],
               ub=True, kinds=UB, replace=["mbe_synthesizeSpeechf"], name_terms=64, validate=2),
     sjob.SJob("ambe_frames", "conceal_ambe.c", [(e, k, v, p, rc, pk) for e in (2, 6) for k, v in ((0, 0), (0, 119), (2, 123), (4, 122), (5, 255), (5, 0)) if e == 2 or k != 2 for p in (0, 33, 103) for rc, pk in ((0, 2), (3, 0), (0, 1))],
               ub=True, kinds=UB, replace=["mbe_synthesizeSpeechf"], name_terms=64, validate=2)]
sjob.run_jobs(c, J)
c.bounds = ["correction, descrambling, extraction: complete over all frame bits of all four formats", "parameter decoding: %s, the other bits symbolic, previous harmonic count 9..56 and log amplitudes -40..40 symbolic" % ("every pitch index" if deep else "one pitch index for every harmonic count plus all reserved ones (thorough tier: every pitch index)"),
            "enhancement: 9..56 harmonics with amplitudes 1e-3..60000 or zero, with and without a fundamental; smoothing: amplitudes 0..60000, error rate 0..1, error counts up to 200, energies up to 1e12"]
c.assumptions = ["real arithmetic for the float values that feed conversions and comparisons", "array indices are checked against the dimension of the array they name, pointers against their object"]
sys.exit(c.finish())
