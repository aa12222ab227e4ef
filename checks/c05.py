import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fec import *
c = Check("C05")
c.functions = ["mbe_eccImbe7100x4400C0", "mbe_eccImbe7100x4400Data", "mbe_demodulateImbe7100x4400Data", "mbe_convertImbe7100to7200", "mbe_golay2312", "mbe_7100x4400hamming1511"]
c.bounds = ["complete: all 168 frame bits, all correctable error patterns, all 256 pitch indices of the reordering (case split); all loops fully unrolled"]
c.assumptions = ["round trip assembled from: Golay/Hamming lemmas, each stage equal to the frame description for every frame, descrambling equal to XOR with the reference keystream for every frame",
                 "strtol is CBMC's built-in model"]
S = ECC + ["i71", "i72"]
jobs = golay_jobs() + hamming_jobs((2,))
jobs += [Cbmc("c0", "frames.c", S, defs=["H_IMBE71_ECC=0"]),
         Cbmc("data", "frames.c", S, defs=["H_IMBE71_ECC=1"]),
         Cbmc("demod", "frames.c", S, defs=["H_IMBE71_DEMOD"])]
c.run_cbmc(jobs)
import sjob
sjob.run_jobs(c, [sjob.SJob("convert", "convert.c", [(b,) for b in range(256)], kinds={"check"}, validate=8)])
sys.exit(c.finish())
