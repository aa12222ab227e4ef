import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("C18")
c.functions = ["mbe_floattoshort", "mbe_floattoshort_scalar", "mbe_floattoshort_sse2", "mbe_init_runtime_dispatch"]
c.bounds = ["complete: every non-NaN float bit pattern at each of the 160 positions, IEEE single precision bit-precise, loops fully unrolled; 16 guard entries on both sides of the output"]
c.assumptions = ["SSE2 min/max/convert/pack instructions are modelled from the instruction reference"]
N = 8
F = dict(slice=True, timeout=400, solver=["--sat-solver", "minisat2"], flags=["--max-field-sensitivity-array-size", "200"])
jobs = []
for k in range(0, 160, N):
    D = ["K0=%d" % k, "KN=%d" % N]
    jobs += [Cbmc("convert_scalar_%d" % k, "conv.c", defs=D, **F), Cbmc("convert_simd_%d" % k, "conv.c", config="simd", defs=D + ["SIMD_MODEL"], **F)]
c.run_cbmc(jobs)
sys.exit(c.finish())
