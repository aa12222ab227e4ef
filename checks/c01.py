import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fec import golay_jobs
c = Check("C01")
c.functions = ["mbe_golay2312", "mbe_checkGolayBlock", "golay tables"]
c.bounds = ["complete: all 12-bit messages, all error patterns of weight 0..3, all 23-bit words; loops fully unrolled (24)"]
c.assumptions = ["correctness for all messages is assembled from: zero message under all weight<=3 patterns; decoding commutes with adding each of the 12 basis code words (any received word)"]
c.run_cbmc(golay_jobs(True))
sys.exit(c.finish())
