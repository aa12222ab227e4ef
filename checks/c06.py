import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fec import *
c = Check("C06")
c.functions = ["mbe_demodulateAmbe3600x2450Data", "mbe_demodulateAmbe3600x2400Data", "mbe_demodulateImbe7200x4400Data", "mbe_demodulateImbe7100x4400Data"]
c.bounds = ["complete: all frame bit contents; all loops fully unrolled"]
c.assumptions = ["strtol is CBMC's built-in model"]
S = ECC + ["ac", "a25", "a24", "i72", "i71"]
jobs = [Cbmc("demod_ambe_%d" % v, "frames.c", S, defs=["H_AMBE_DEMOD", "TWICE", "VAR=%d" % v]) for v in (2450, 2400)]
jobs += [Cbmc("demod_imbe7200", "frames.c", S, defs=["H_IMBE72_DEMOD", "TWICE"]),
         Cbmc("demod_imbe7100", "frames.c", S, defs=["H_IMBE71_DEMOD", "TWICE"])]
c.run_cbmc(jobs)
sys.exit(c.finish())
