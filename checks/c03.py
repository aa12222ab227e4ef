import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fec import *
c = Check("C03")
c.functions = ["mbe_eccAmbe3600x2450C0", "mbe_eccAmbe3600x2400C0", "mbe_eccAmbe3600x2450Data", "mbe_eccAmbe3600x2400Data",
               "mbe_demodulateAmbe3600x2450Data", "mbe_demodulateAmbe3600x2400Data", "mbe_golay2312", "common AMBE helpers"]
c.bounds = ["complete: all 96 frame bits, all correctable error patterns; all loops fully unrolled"]
c.assumptions = ["round trip assembled from: Golay lemmas (all messages, all patterns of weight <= 3), each stage equal to the frame description for every frame, descrambling equal to XOR with the reference keystream for every frame"]
S = ECC + ["ac", "a25", "a24"]
jobs = golay_jobs()
for v in (2450, 2400):
    jobs += [Cbmc("c0_%d" % v, "frames.c", S, defs=["H_AMBE_ECC=0", "VAR=%d" % v]),
             Cbmc("data_%d" % v, "frames.c", S, defs=["H_AMBE_ECC=1", "VAR=%d" % v]),
             Cbmc("demod_%d" % v, "frames.c", S, defs=["H_AMBE_DEMOD", "VAR=%d" % v])]
c.run_cbmc(jobs)
sys.exit(c.finish())
