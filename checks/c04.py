import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fec import *
c = Check("C04")
c.functions = ["mbe_eccImbe7200x4400C0", "mbe_eccImbe7200x4400Data", "mbe_demodulateImbe7200x4400Data", "mbe_golay2312", "mbe_hamming1511"]
c.bounds = ["complete: all 184 frame bits, all correctable error patterns; all loops fully unrolled"]
c.assumptions = ["round trip assembled from: Golay/Hamming lemmas, each stage equal to the frame description for every frame, descrambling equal to XOR with the reference keystream for every frame",
                 "strtol is CBMC's built-in model"]
S = ECC + ["i72"]
jobs = golay_jobs() + hamming_jobs((1,))
jobs += [Cbmc("c0", "frames.c", S, defs=["H_IMBE72_ECC=0"]),
         Cbmc("data", "frames.c", S, defs=["H_IMBE72_ECC=1"]),
         Cbmc("demod", "frames.c", S, defs=["H_IMBE72_DEMOD"])]
c.run_cbmc(jobs)
sys.exit(c.finish())
