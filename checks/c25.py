#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
c = vlib.Check("C25")
T = "--thorough" in sys.argv
K = {"check", "close"}
IM = [(50, 120, 0), (120, 50, 0), (4, 200, 0), (207, 30, 0), (77, 77, 0), (9050, 120, 0), (250, 120, 3), (3050, 8120, 2)]
A25 = [(50, 100, 0), (100, 12, 0), (77, 77, 0), (168, 100, 0), (50, 133, 0), (9050, 120, 3), (122, 100, 3), (1110, 5100, 0), (124, 60, 0), (60, 256, 0), (50, 130, 0), (330, 60, 0)]
A24 = [(50, 100, 0), (100, 12, 0), (77, 77, 0), (158, 50, 0), (8100, 1127, 3), (1100, 5110, 0), (60, 126, 0)]
cases = []
for e, P in ((0, IM), (1, IM), (2, IM), (3, A25), (4, A25), (5, A24), (6, A24)):
    for i, (f1, f2, rc) in enumerate(P):
        if e in (1, 2):
            f1, f2 = f1 % 1000 + f1 // 1000 % 5 * 1000, f2 % 1000 + f2 // 1000 % 5 * 1000
        if e in (4, 6):
            f1, f2 = f1 % 1000 + f1 // 1000 % 4 * 1000, f2 % 1000 + f2 // 1000 % 4 * 1000
        for h in (1, 2, 3, 4):
            if T or e in (0, 3, 5) or (i + h) % 2 == 0:
                cases.append((e, f1, f2, h, rc))
if T:
    cases += [(0, b, (b * 7 + 30) % 208, 1 + b % 4, 0) for b in range(0, 208, 5)] + [(3, b, (b * 7 + 30) % 120, 1 + b % 4, 0) for b in range(0, 120, 3)]
cases.sort(key=lambda t: t[0])
J = [sjob.SJob("streams_imbe", "iso.c", [t for t in cases if t[0] < 3], kinds=K, name_terms=64, validate=2, case_timeout=200),
     sjob.SJob("streams_ambe", "iso.c", [t for t in cases if t[0] >= 3], kinds=K, name_terms=64, validate=2, case_timeout=200),
     sjob.SJob("streams_simd", "iso.c", [t for t in cases if t[0] in (0, 3, 5)][::4], config="simd", kinds=K, name_terms=64, validate=2, case_timeout=200)]
sjob.run_jobs(c, J)
c.bounds = ["two consecutive frames of one stream, each decoded in a new thread, against the same frames decoded in the main thread after other work; per case the entry point, both frames' pitch or tone index and error count, and the work in between are concrete",
            "symbolic: four parameter bits of each frame (parameter-level entry points) and eight amplitudes of the previous enhanced block",
            "work in between: voice frames of all three codecs with other harmonic counts; erasures, tones, mutes and bare enhancement calls; another stream in the same memory; dirty stack"]
c.assumptions = ["real arithmetic; equality means equal normal forms", "threads run to completion one after another: data races on thread-local state do not exist, shared mutable state would show as a difference"]
sys.exit(c.finish())
