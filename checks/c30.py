#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sjob
from synth import pairs, bits, w_for
c = vlib.Check("C30")
K = {"check", "close"}
syn = [(0,) + p + ((3, 1, 0, 2)[i % 4], (77, 9000, 53124)[i % 3]) for i, p in enumerate(pairs(k0=1))]
syn += [(0,) + p + (1, -1) for p in pairs(16)]
enh = [(1, L, L, bits(w_for(max(L, 9), L)), bits(.2), 2, 0) for L in range(1, 57)]
sjob.run_jobs(c, [sjob.SJob("synthesis", "simd_eq.c", syn, config="scalar", other="simd", kinds=K, name_terms=64, validate=3),
                  sjob.SJob("enhancement", "simd_eq.c", enh, config="scalar", other="simd", kinds=K, name_terms=64, validate=3)], budget=500)
N = 16
F = dict(slice=True, timeout=300, solver=["--sat-solver", "minisat2"], flags=["--max-field-sensitivity-array-size", "200"])
jobs = []
for k in range(0, 160, N):
    D = ["K0=%d" % k, "KN=%d" % N]
    jobs += [vlib.Cbmc("pcm_scalar_%d" % k, "conv.c", defs=D, **F), vlib.Cbmc("pcm_simd_%d" % k, "conv.c", config="simd", defs=D + ["SIMD_MODEL"], **F)]
c.run_cbmc(jobs)
c.bounds = ["speech synthesis: every harmonic count 9..56 at one fundamental, voicing pattern, noise start value and set of phases each, all amplitudes 0..12 and the previous block symbolic",
            "enhancement: every harmonic count 1..56, amplitudes 1e-3..60000; PCM conversion: every float at every position, bit-precise, both builds against one formula"]
c.assumptions = ["real arithmetic for synthesis and enhancement, compared to 1e-2 and 1e-3", "SSE2 only (no NEON on this machine)", "SSE2 conversion instructions modelled from the instruction reference (PCM jobs)"]
sys.exit(c.finish())
