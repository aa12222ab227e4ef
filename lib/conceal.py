"""Case enumeration for harness/conceal_imbe.c."""
GRID = [i / 4000.0 + 1e-5 for i in range(4000)] + [0.0]


def classes(entry, bad, total, c0, rc):
    """which combinations of 'rate above the muting threshold' (bit 0) and 'limit reached' (bit 1) exist"""
    out = set()
    for r in GRID:
        e = .95 * r + .000365 * total
        lim = entry >= 2 and total >= 10 + 40 * e
        rep = bad or (total > 5 if entry < 2 else (c0 >= 2 and lim))
        if rep and rc < 4:
            m = 0 if rc + 1 >= 4 else r > .0875
        else:
            m = e > .0875
        out.add(2 * lim + int(m))
    return sorted(out)


def digits(entry, pat):
    return [int(x) for x in str(pat).zfill(7 if entry < 4 else 6)]


def imbe(entry, b0, pat, rc):
    total, c0 = (pat, 0) if entry < 2 else (sum(digits(entry, pat)), digits(entry, pat)[0])
    return [(entry, b0, pat, rc, k) for k in classes(entry, b0 > 207, total, c0, rc)]
