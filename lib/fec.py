from vlib import Cbmc
ECC = ["ecc", "eccc"]


def golay_jobs(word=False):
    js = [Cbmc("golay_zero", "ecc.c", ECC, defs=["H_GOLAY_ZERO"]),
          Cbmc("golay_any", "ecc.c", ECC, defs=["H_GOLAY_ANY"])]
    js += [Cbmc("golay_shift_%d" % k, "ecc.c", ECC, defs=["H_GOLAY_SHIFT=%d" % k]) for k in range(12)]
    if word:
        js += [Cbmc("golay_word_zero", "ecc.c", ECC, defs=["H_GOLAY_WORD=0"])]
        js += [Cbmc("golay_word_shift_%d" % k, "ecc.c", ECC, defs=["H_GOLAY_WORD=1", "KK=%d" % k]) for k in range(12)]
        js += [Cbmc("golay_word_upper", "ecc.c", ECC, defs=["H_GOLAY_WORD=2"])]
    return js


def hamming_jobs(which=(1, 2)):
    return [Cbmc("hamming_%s" % {1: "7200", 2: "7100"}[k], "ecc.c", ECC, defs=["H_HAMMING=%d" % k]) for k in which]
