import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("C02")
c.functions = ["mbe_hamming1511", "mbe_7100x4400hamming1511"]
c.bounds = ["complete: all 2^15 received words x all single-bit error patterns; loops fully unrolled (16)"]
S = ["ecc", "eccc"]
c.run_cbmc([Cbmc("hamming_7200", "ecc.c", S, defs=["H_HAMMING=1"]),
            Cbmc("hamming_7100", "ecc.c", S, defs=["H_HAMMING=2"])])
sys.exit(c.finish())
