import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("C28")
c.functions = ["mbe_initMbeParms", "mbe_moveMbeParms", "mbe_useLastMbeParms", "mbe_requiresMuting", "mbe_requiresAdaptiveSmoothing", "mbe_isMaxFrameRepeat",
               "mbe_synthesizeSilencef", "mbe_synthesizeSilence", "mbe_versionString", "mbe_applyAdaptiveSmoothing (null arguments)", "mbe_synthesizeComfortNoise(f) (null)"]
c.bounds = ["complete: every 32-bit content of every word of the state blocks, loops fully unrolled, memory-safety checks on"]
c.assumptions = ["mbe_printVersion is encoded for a null buffer only: snprintf has no model"]
F = dict(timeout=300, flags=["--max-field-sensitivity-array-size", "300"], unwind=300, std_checks=True)
jobs = [Cbmc("init", "state.c", defs=["H_INIT"], **F), Cbmc("move", "state.c", defs=["H_COPY", "WHICH=0"], **F), Cbmc("use_last", "state.c", defs=["H_COPY", "WHICH=1"], **F),
        Cbmc("query", "state.c", defs=["H_QUERY"], **F), Cbmc("misc", "state.c", defs=["H_MISC"], **F)]
c.run_cbmc(jobs)
sys.exit(c.finish())
