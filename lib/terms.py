"""Symbolic terms for the IR executor.

Bit vectors: concrete Python ints, truth tables over at most KMAX boolean atoms (canonical), or hash-consed nodes.
Reals (symbolic floating point): polynomials over opaque atoms whose coefficients are numbers or truth-table functions
of boolean atoms.  A boolean atom is an input bit, an order relation between polynomials, or a defined bit-vector predicate.
"""
import math, itertools
import numpy as np

KMAX = 12
FK = 11
U64 = np.uint64
I64 = np.int64


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------------------------- boolean atoms
class Var:
    __slots__ = ("id", "kind", "payload", "name", "und")

    def __init__(self, id, kind, payload, name, und=False):
        self.id = id; self.kind = kind; self.payload = payload; self.name = name; self.und = und


VARS = []
_rel_index = {}
_def_index = {}


def new_var(kind, payload=None, name="", und=False):
    v = Var(len(VARS), kind, payload, name, und)
    VARS.append(v)
    return v


# ---------------------------------------------------------------------------------- bit vectors
class BV:
    __slots__ = ("w", "vars", "tab", "op", "args", "id", "slo", "shi", "und")

    def __repr__(self):
        if self.tab is not None:
            return "T%d%r" % (self.w, self.vars)
        return "N%d:%s#%d" % (self.w, self.op, self.id)


_bvs = {}
_nid = [0]


def reset():
    VARS.clear(); _rel_index.clear(); _def_index.clear(); _bvs.clear(); ATOMS.clear(); _atom_index.clear(); _fkeys.clear(); _mw.clear()
    _nid[0] = 0


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


_align_cache = {}


def align_idx(A, U):
    """index array: assignment over U -> row of table over A (bit j of row index = value of vars[j])"""
    r = _align_cache.get((A, U))
    if r is None:
        pos = {v: i for i, v in enumerate(U)}
        n = np.arange(1 << len(U), dtype=np.int64)
        r = np.zeros(1 << len(U), dtype=np.int64)
        for j, v in enumerate(A):
            r |= ((n >> pos[v]) & 1) << j
        if len(_align_cache) > 20000:
            _align_cache.clear()
        _align_cache[(A, U)] = r
    return r


def union(a, b):
    if a == b:
        return a
    return tuple(sorted(set(a) | set(b)))


_perm = {}


def _perms(k):
    r = _perm.get(k)
    if r is None:
        n = np.arange(1 << k, dtype=np.intp)
        r = _perm[k] = np.array([n ^ (1 << j) for j in range(k)], dtype=np.intp)
    return r


def reduce_tab(vars, tab):
    k = len(vars)
    if k == 0:
        return vars, tab
    if k == 1:
        return ((), tab[:1]) if tab[0] == tab[1] else (vars, tab)
    if k <= 9:
        dep = (tab[_perms(k)] != tab).any(axis=1).tolist()
        if all(dep):
            return vars, tab
        keep = [j for j in range(k) if dep[j]]
        n = np.arange(1 << len(keep), dtype=np.intp)
        idx = np.zeros(1 << len(keep), dtype=np.intp)
        for i, j in enumerate(keep):
            idx |= ((n >> i) & 1) << j
        return tuple(vars[j] for j in keep), np.ascontiguousarray(tab[idx])
    j = 0
    while j < len(vars):
        n = len(tab)
        t = tab.reshape(n >> (j + 1), 2, 1 << j)
        if (t[:, 0, :] == t[:, 1, :]).all():
            tab = np.ascontiguousarray(t[:, 0, :]).reshape(-1)
            vars = vars[:j] + vars[j + 1:]
        else:
            j += 1
    return vars, tab


def mk_tab(w, vars, tab, reduce=True):
    if reduce:
        vars, tab = reduce_tab(vars, tab)
    if not vars:
        return int(tab[0])
    key = (w, vars, tab.tobytes())
    t = _bvs.get(key)
    if t is None:
        t = BV()
        t.w = w; t.vars = vars; t.tab = tab; t.op = None; t.args = None
        _nid[0] += 1
        t.id = _nid[0]
        if w == 64:
            s = tab.astype(I64)
            t.slo = int(s.min()); t.shi = int(s.max())
        else:
            mx = int(tab.max())
            if mx >> (w - 1):
                s = sarr(tab, w)
                t.slo = int(s.min()); t.shi = int(s.max())
            else:
                t.slo = int(tab.min()); t.shi = mx
        t.und = any(VARS[v].und for v in vars)
        _bvs[key] = t
    return t


def sarr(tab, w):
    if w == 64:
        return tab.view(I64)
    h = 1 << (w - 1)
    return (tab.astype(I64) ^ h) - h


def var_bv(v):
    return mk_tab(1, (v.id,), np.array([0, 1], dtype=U64), False)


def mk_node(op, w, args, slo=None, shi=None):
    key = (op, w) + tuple(a.id if isinstance(a, BV) else (a.key() if isinstance(a, F) else ("k", a)) for a in args)
    t = _bvs.get(key)
    if t is None:
        t = BV()
        t.w = w; t.vars = None; t.tab = None; t.op = op; t.args = args
        _nid[0] += 1
        t.id = -_nid[0]
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        t.slo = lo if slo is None or slo < lo or shi > hi else slo
        t.shi = hi if slo is None or slo < lo or shi > hi else shi
        t.und = any(isinstance(a, (BV, F)) and a.und for a in args)
        _bvs[key] = t
    return t


def new_bvvar(w, lo, hi, name, und=False):
    """fresh integer input: narrow -> table over bit variables; wide -> node.  Returns (term, constraint or None)."""
    n = hi - lo
    k = n.bit_length()
    if k <= 10:
        M = (1 << w) - 1
        vs = tuple(new_var("in", (name, j), "%s.%d" % (name, j), und).id for j in range(k))
        arr = np.array([(lo + i) & M for i in range(1 << k)], dtype=U64)
        t = mk_tab(w, vs, arr) if k else lo & M
        c = None
        if n != (1 << k) - 1:
            c = mk_tab(1, vs, np.array([1 if i <= n else 0 for i in range(1 << k)], dtype=U64))
        return t, c, vs
    t = mk_node("var", w, (name,), lo, hi)
    t.und = und
    c = None
    if not (lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1):
        c = bvand(1, icmp("sge", w, t, lo & ((1 << w) - 1)), icmp("sle", w, t, hi & ((1 << w) - 1)))
        # the interval is recorded in the node, so the comparisons fold; keep the constraint explicit for the solver
        c = ("range", t, lo, hi)
    return t, c, None


def rng(x, w):
    if isinstance(x, int):
        s = sgn(x, w)
        return s, s
    return x.slo, x.shi


def is_node(x):
    return isinstance(x, BV) and x.tab is None


def def_var(node):
    """BV1 node -> table over one defined boolean atom"""
    v = _def_index.get(node.id)
    if v is None:
        v = new_var("def", node, "def%d" % node.id, node.und)
        _def_index[node.id] = v
    return var_bv(v)


def two_tabs(a, b):
    """-> (U, arrA, arrB) or None when the union of supports is too large"""
    if isinstance(a, int):
        return b.vars, U64(a), b.tab
    if isinstance(b, int):
        return a.vars, a.tab, U64(b)
    if a.vars == b.vars:
        return a.vars, a.tab, b.tab
    U = union(a.vars, b.vars)
    if len(U) > KMAX:
        return None
    return U, a.tab[align_idx(a.vars, U)], b.tab[align_idx(b.vars, U)]


def _tab_op(op, w, A, B):
    M = U64((1 << w) - 1)
    if op == "add": return (A + B) & M
    if op == "sub": return (A - B) & M
    if op == "mul": return (A * B) & M
    if op == "and": return A & B
    if op == "or": return A | B
    if op == "xor": return A ^ B
    if op == "shl":
        B_ = np.minimum(B, U64(63))
        return np.where(B >= U64(w), U64(0), (A << B_) & M)
    if op == "lshr":
        B_ = np.minimum(B, U64(63))
        return np.where(B >= U64(w), U64(0), A >> B_)
    if op == "ashr":
        S = sarr(np.asarray(A, dtype=U64).reshape(-1), w)
        B_ = np.minimum(np.asarray(B).reshape(-1), U64(63)).astype(I64)
        return (S >> B_).astype(I64).view(U64) & M
    if op in ("udiv", "urem"):
        Bz = np.where(B == 0, U64(1), B)
        r = A // Bz if op == "udiv" else A % Bz
        return np.where(B == 0, M if op == "udiv" else A, r) & M
    if op in ("sdiv", "srem"):
        a = sarr(np.asarray(A, dtype=U64).reshape(-1), w)
        b = sarr(np.asarray(B, dtype=U64).reshape(-1), w)
        bz = np.where(b == 0, 1, b)
        q = np.abs(a) // np.abs(bz)
        q = np.where((a < 0) ^ (bz < 0), -q, q)
        r = a - q * bz
        return (q if op == "sdiv" else r).astype(I64).view(U64) & M
    raise Unsupported(op)


def _int_op(op, w, a, b):
    M = (1 << w) - 1
    if op == "add": return (a + b) & M
    if op == "sub": return (a - b) & M
    if op == "mul": return (a * b) & M
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return (a << b) & M if b < w else 0
    if op == "lshr": return a >> b if b < w else 0
    if op == "ashr": return (sgn(a, w) >> min(b, w - 1)) & M
    if op == "udiv": return a // b if b else M
    if op == "urem": return a % b if b else a
    if op in ("sdiv", "srem"):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return M
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == "sdiv" else x - q * y) & M
    raise Unsupported(op)


COMM = {"add", "mul", "and", "or", "xor"}


NARROW = {"add", "mul", "and", "or", "xor", "udiv", "urem"}


def narrow32(x):
    """the 32-bit term whose zero extension is the 64-bit x (value below 2^31), or None"""
    if isinstance(x, int):
        return x if 0 <= x < 1 << 31 else None
    if x.tab is None and x.op == "zext" and x.shi < 1 << 31 and isinstance(x.args[0], BV) and x.args[0].tab is None:
        y = x.args[0]
        return y if y.w == 32 else zext(32, y.w, y) if y.w < 32 else None
    return None


def bvop(op, w, a, b):
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        return _int_op(op, w, a, b)
    if (ia or a.tab is not None) and (ib or b.tab is not None):
        tt = two_tabs(a, b)
        if tt is not None:
            U, A, B = tt
            r = _tab_op(op, w, A, B)
            r = np.asarray(r, dtype=U64)
            if r.shape != (1 << len(U),):
                r = np.broadcast_to(r, (1 << len(U),)).copy()
            return mk_tab(w, U, r)
    M = (1 << w) - 1
    if op in ("sdiv", "srem") and ib and sgn(b, w) > 0 and a.slo >= 0:
        op = "u" + op[1:]               # the same function on non-negative operands
    if w == 64 and op in NARROW:
        na, nb = narrow32(a), narrow32(b)
        if na is not None and nb is not None:
            ah, bh = (na if ia else a.shi), (nb if ib else b.shi)
            if op not in ("add", "mul") or (ah + bh if op == "add" else ah * bh) < 1 << 31:
                return zext(64, 32, bvop(op, 32, na, nb))
    # identities
    if ib:
        if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return a
        if b == 0 and op in ("and", "mul"):
            return 0
        if b == 1 and op in ("mul", "udiv", "sdiv"):
            return a
        if b == M and op == "and":
            return a
        if op == "and" and (b & (b + 1)) == 0 and a.slo >= 0 and a.shi <= b:
            return a
        if op == "urem" and a.slo >= 0 and a.shi < b:
            return a
        if op == "srem" and a.slo >= 0 and a.shi < sgn(b, w):
            return a
        if op in ("and", "xor", "or") and a.op == op and isinstance(a.args[1], int):
            return bvop(op, w, a.args[0], _int_op(op, w, a.args[1], b))
        if op == "and" and bin(b).count("1") <= 16:
            r = demand(a, w, b)
            if r is not None:
                return r
        if op == "add" and a.op == "add" and isinstance(a.args[1], int):
            return bvop("add", w, a.args[0], (a.args[1] + b) & M)
        if op == "sub":
            return bvop("add", w, a, (-b) & M)
        if op in ("lshr", "and", "shl", "trunc") and a.op == "concat":
            lo, hi = a.args
            wl = lo_w(a)
            if op == "lshr" and b == wl:
                return zext(w, w - wl, hi)
            if op == "and" and b == (1 << wl) - 1:
                return zext(w, wl, lo)
        if a.op == "fbits":
            f = a.args[0]
            h = 1 << (w - 1)
            if op == "and" and b == h - 1:
                return fbits(w, fabs_(f))
            if op == "xor" and b == h:
                return fbits(w, fneg(f))
            if op == "and" and b == h:
                return ite(fcmp("lt", f, 0.0), h, 0, w)
        if a.op == "ite" and op in ("and", "or", "xor", "add", "lshr", "shl") and (a.und is False):
            x, y = a.args[1], a.args[2]
            if has_fbits(a):
                return ite(a.args[0], bvop(op, w, x, b), bvop(op, w, y, b), w)
    elif ia:
        if op in COMM:
            return bvop(op, w, b, a)
        if a == 0 and op in ("shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            return 0
    else:
        if a is b:
            if op in ("sub", "xor"):
                return 0
            if op in ("and", "or"):
                return a
        if op == "sub" and b.op == "mul" and isinstance(b.args[1], int):
            q = b.args[0]               # x - (x / m) * m
            if isinstance(q, BV) and q.tab is None and q.op == "udiv" and q.args[0] is a and q.args[1] == b.args[1] and not q.und:
                return bvop("urem", w, a, b.args[1])
        # mask logic on float bits
        if op in ("and", "or") and (has_fbits(a) or has_fbits(b)):
            r = mask_logic(op, w, a, b)
            if r is not None:
                return r
    if op in COMM and not ia and not ib and a.id > b.id:
        a, b = b, a
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    lo = hi = None
    if op == "add":
        lo, hi = al + bl, ah + bh
    elif op == "sub":
        lo, hi = al - bh, ah - bl
    elif op == "mul":
        ps = (al * bl, al * bh, ah * bl, ah * bh)
        lo, hi = min(ps), max(ps)
    elif op == "and":
        if bl >= 0:
            lo, hi = 0, bh
            if al >= 0:
                hi = min(ah, bh)
        elif al >= 0:
            lo, hi = 0, ah
    elif op in ("or", "xor") and al >= 0 and bl >= 0:
        lo, hi = 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1
    elif op == "lshr" and ib and b > 0:
        if al >= 0:
            lo, hi = al >> b, ah >> b
        else:
            lo, hi = 0, M >> b
    elif op == "ashr" and ib:
        lo, hi = al >> min(b, w - 1), ah >> min(b, w - 1)
    elif op == "shl" and ib and al >= 0:
        lo, hi = al << b, ah << b
    elif op == "urem" and ib and b > 0:
        lo, hi = 0, b - 1
    elif op == "srem" and ib and sgn(b, w) > 0:
        m = sgn(b, w) - 1
        lo, hi = (0 if al >= 0 else -m), (m if ah > 0 else 0)
    elif op == "udiv" and ib and b > 0 and al >= 0:
        lo, hi = al // b, ah // b
    elif op == "sdiv" and ib and sgn(b, w) > 0:
        d = sgn(b, w)
        lo, hi = int(math.trunc(al / d)) if abs(al) < 1 << 50 else None, int(math.trunc(ah / d)) if abs(ah) < 1 << 50 else None
        if lo is None or hi is None:
            lo = hi = None
    n = mk_node(op, w, (a, b), lo, hi)
    if w == 1:
        return def_var(n)
    return n


def has_fbits(x):
    return isinstance(x, BV) and x.tab is None and (x.op == "fbits" or (x.op == "ite" and (has_fbits(x.args[1]) or has_fbits(x.args[2]))))


def split_mask(x, w):
    """x is 0/-1 valued table -> condition BV1, else None"""
    if isinstance(x, BV) and x.tab is not None:
        M = U64((1 << w) - 1)
        if np.all((x.tab == 0) | (x.tab == M)):
            return mk_tab(1, x.vars, (x.tab != 0).astype(U64))
    return None


def mask_logic(op, w, a, b):
    for x, y in ((a, b), (b, a)):
        c = split_mask(x, w)
        if c is not None and op == "and":
            return ite(c, y, 0, w)
        if op == "or":
            if isinstance(x, BV) and x.op == "ite":
                c = x.args[0]
                if isinstance(y, BV) and y.op == "ite":
                    d = y.args[0]
                    if d is c:
                        return ite(c, bvop(op, w, x.args[1], y.args[1]), bvop(op, w, x.args[2], y.args[2]), w)
                    if d is bvnot1(c):
                        return ite(c, bvop(op, w, x.args[1], y.args[2]), bvop(op, w, x.args[2], y.args[1]), w)
                if isinstance(y, int) and y == 0:
                    return x
    return None


def demand(x, w, mask, depth=60):
    """x & mask with tables only, following the bits that matter; None when a wide node is involved"""
    if isinstance(x, int):
        return x & mask
    if mask == 0:
        return 0
    if x.tab is not None:
        return mk_tab(w, x.vars, x.tab & U64(mask))
    if depth == 0 or x.und:
        return None
    op = x.op
    if op in ("or", "xor", "and"):
        a = demand(x.args[0], w, mask, depth - 1)
        if a is None:
            return None
        if isinstance(a, int) and a == 0 and op == "and":
            return 0
        b = demand(x.args[1], w, mask, depth - 1)
        if b is None:
            return None
        r = bvop(op, w, a, b)
        return r if isinstance(r, int) or r.tab is not None else None
    if op in ("shl", "lshr", "ashr") and isinstance(x.args[1], int):
        k = x.args[1]
        if k >= w or (op == "ashr" and x.args[0].slo < 0):
            return None
        a = demand(x.args[0], w, mask >> k if op == "shl" else (mask << k) & ((1 << w) - 1), depth - 1)
        if a is None:
            return None
        return bvop("shl" if op == "shl" else "lshr", w, a, k)
    if op == "zext":
        y = x.args[0]
        if isinstance(y, int):
            return None
        a = demand(y, y.w, mask & ((1 << y.w) - 1), depth - 1)
        return None if a is None else zext(w, y.w, a)
    if op == "trunc":
        y = x.args[0]
        a = demand(y, y.w, mask, depth - 1)
        return None if a is None else trunc(w, y.w, a)
    return None


def bvand(w, a, b):
    return bvop("and", w, a, b)


def bvnot1(a):
    return bvop("xor", 1, a, 1)


def zext(w2, w, a):
    if isinstance(a, int):
        return a
    if a.tab is not None:
        return mk_tab(w2, a.vars, a.tab, False)
    if a.slo >= 0:
        return mk_node("zext", w2, (a,), a.slo, a.shi)
    return mk_node("zext", w2, (a,), 0, (1 << w) - 1)


def sext(w2, w, a):
    if isinstance(a, int):
        return sgn(a, w) & ((1 << w2) - 1)
    if a.tab is not None:
        return mk_tab(w2, a.vars, sarr(a.tab, w).astype(I64).view(U64) & U64((1 << w2) - 1), False)
    if a.slo >= 0:
        return zext(w2, w, a)
    return mk_node("sext", w2, (a,), a.slo, a.shi)


def trunc(w2, w, a):
    if isinstance(a, int):
        return a & ((1 << w2) - 1)
    if a.tab is not None:
        return mk_tab(w2, a.vars, a.tab & U64((1 << w2) - 1))
    if a.op in ("zext", "sext"):
        x = a.args[0]
        if x.w == w2:
            return x
        if x.w > w2:
            return trunc(w2, x.w, x)
        return zext(w2, x.w, x) if a.op == "zext" else sext(w2, x.w, x)
    if a.op == "concat" and w2 == lo_w(a):
        return a.args[0]
    if w2 <= 16:
        r = demand(a, w, (1 << w2) - 1)
        if r is not None:
            return trunc(w2, w, r)
    lo = hi = None
    if a.slo >= -(1 << (w2 - 1)) and a.shi < (1 << (w2 - 1)):
        lo, hi = a.slo, a.shi
    n = mk_node("trunc", w2, (a,), lo, hi)
    if w2 == 1:
        return def_var(n)
    return n


def lo_w(c):
    return c.args[0].w if isinstance(c.args[0], BV) else c.w // 2


def concat(w, lo, wl, hi, wh):
    """hi:lo"""
    if isinstance(lo, int) and isinstance(hi, int):
        return lo | hi << wl
    if not is_fbitsish(lo) and not is_fbitsish(hi):
        return bvop("or", w, zext(w, wl, lo), bvop("shl", w, zext(w, wh, hi), wl))
    return mk_node("concat", w, (lo, hi))


def is_fbitsish(x):
    return is_node(x)


def icmp(pred, w, a, b):
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        if pred == "eq": return int(a == b)
        if pred == "ne": return int(a != b)
        if pred[0] == "s":
            a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        return int(a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b)
    if (ia or a.tab is not None) and (ib or b.tab is not None):
        tt = two_tabs(a, b)
        if tt is not None:
            U, A, B = tt
            if pred[0] == "s":
                A = sarr(np.asarray(A, dtype=U64).reshape(-1), w)
                B = sarr(np.asarray(B, dtype=U64).reshape(-1), w)
            if pred == "eq": r = A == B
            elif pred == "ne": r = A != B
            else:
                p = pred[1:]
                r = A < B if p == "lt" else A <= B if p == "le" else A > B if p == "gt" else A >= B
            return mk_tab(1, U, r.astype(U64))
    if pred == "ne":
        return bvnot1(icmp("eq", w, a, b))
    if pred in ("sgt", "ugt", "sge", "uge"):
        return icmp({"sgt": "slt", "ugt": "ult", "sge": "sle", "uge": "ule"}[pred], w, b, a)
    if a is b:
        return int(pred in ("sle", "ule", "eq"))
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    if pred == "eq":
        if ah < bl or bh < al:
            return 0
        if ib and not ia:
            if a.op in ("zext",) :
                x = a.args[0]
                if b >> x.w == 0:
                    return icmp("eq", x.w, x, b)
            if a.op == "ite":
                x, y = a.args[1], a.args[2]
                ex, ey = icmp("eq", w, x, b), icmp("eq", w, y, b)
                if isinstance(ex, int) or isinstance(ey, int):
                    return ite(a.args[0], ex, ey, 1)
            if a.op == "fbits" and b == 0:
                return fcmp("eq", a.args[0], 0.0)
        elif not ia and not ib and a.id > b.id:
            a, b = b, a
        elif ia:
            a, b = b, a
    elif pred == "slt" or (pred == "ult" and al >= 0 and bl >= 0):
        if ah < bl: return 1
        if al >= bh: return 0
        pred = "slt"
    elif pred == "sle" or (pred == "ule" and al >= 0 and bl >= 0):
        if ah <= bl: return 1
        if al > bh: return 0
        return bvnot1(icmp("slt", w, b, a))
    elif pred == "ule":
        return bvnot1(icmp("ult", w, b, a))
    return def_var(mk_node(pred, 1, (a, b)))


def ite(c, a, b, w):
    """bit-vector if-then-else"""
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    ia, ib = isinstance(a, int), isinstance(b, int)
    if (ia or a.tab is not None) and (ib or b.tab is not None):
        U = c.vars
        if not ia: U = union(U, a.vars)
        if not ib: U = union(U, b.vars)
        if len(U) <= KMAX:
            C = c.tab[align_idx(c.vars, U)]
            A = U64(a) if ia else a.tab[align_idx(a.vars, U)]
            B = U64(b) if ib else b.tab[align_idx(b.vars, U)]
            return mk_tab(w, U, np.where(C != 0, A, B).astype(U64))
        if w == 1:
            return bvop("or", 1, bvop("and", 1, c, a), bvop("and", 1, bvnot1(c), b))
    # canonical polarity
    if c.tab is not None and int(c.tab[0]) == 1:
        return ite(bvnot1(c), b, a, w)
    if not ia and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if not ib and isinstance(b, BV) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    n = mk_node("ite", w, (c, a, b), min(al, bl), max(ah, bh))
    if w == 1:
        return def_var(n)
    return n


def lut(w, idx, vals):
    """value vals[idx] for node index idx (dict int->int)"""
    lo = min(sgn(v, w) for v in vals.values()); hi = max(sgn(v, w) for v in vals.values())
    key = tuple(sorted(vals.items()))
    n = mk_node("lut", w, (idx, key), lo, hi)
    return n


# ---------------------------------------------------------------------------------- real terms
class TC:
    """c0 + sum of tables (each table zero at index 0)"""
    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c = c; self.t = t


def tc_norm(c, t):
    out = {}
    for vs, arr in t.items():
        z = float(arr[0])
        if z != 0.0:
            c += z
            arr = arr - z
        m = np.abs(arr).max()
        if m == 0.0:
            continue
        out[vs] = arr
    if not out:
        return c
    return TC(c, out)


def table_coef(vars, arr):
    """float table over vars -> coefficient"""
    vars, arr = reduce_tab(vars, arr)
    if not vars:
        return float(arr[0])
    return tc_norm(0.0, {vars: arr})


def cadd(a, b):
    if type(a) is float and type(b) is float:
        r = a + b
        if abs(r) < 1e-7 * max(abs(a), abs(b)):
            return 0.0
        return r
    if type(a) is float:
        return TC(a + b.c, b.t)
    if type(b) is float:
        return TC(a.c + b, a.t)
    t = dict(a.t)
    c = a.c + b.c
    if abs(c) < 1e-7 * max(abs(a.c), abs(b.c)):
        c = 0.0
    for vs, arr in b.t.items():
        o = t.get(vs)
        if o is not None:
            s = o + arr
            mx = np.abs(o).max()
            if np.abs(s).max() < 1e-7 * mx:
                del t[vs]
            else:
                vs2, s2 = reduce_tab(vs, s) if len(vs) <= 3 else (vs, s)
                if vs2 != vs:
                    del t[vs]
                    r = cadd(TC(c, t) if t else c, tc_norm(0.0, {vs2: s2}))
                    if type(r) is float:
                        c = r; t = {}
                    else:
                        c = r.c; t = dict(r.t)
                else:
                    t[vs] = s
            continue
        done = False
        s1 = set(vs)
        for v2 in list(t):
            s2 = set(v2)
            if s1 <= s2:
                t[v2] = t[v2] + arr[align_idx(vs, v2)]
                done = True
                break
            if s2 < s1:
                arr = arr + t.pop(v2)[align_idx(v2, vs)]
        if not done:
            t[vs] = arr
        elif np.abs(t[v2]).max() == 0.0:
            del t[v2]
    if not t:
        return c
    return TC(c, t)


def cscale(a, k):
    if type(a) is float:
        return a * k
    if k == 0.0:
        return 0.0
    return TC(a.c * k, {v: t * k for v, t in a.t.items()})


class Overflow(Exception):
    pass


def cmul(a, b):
    if type(a) is float:
        return cscale(b, a)
    if type(b) is float:
        return cscale(a, b)
    r = cadd(cscale(b, a.c) if a.c else 0.0, cscale(TC(0.0, a.t), b.c) if b.c else 0.0)
    for va, ta in a.t.items():
        for vb, tb in b.t.items():
            U = union(va, vb)
            if len(U) > FK:
                raise Overflow()
            arr = (ta if va == U else ta[align_idx(va, U)]) * (tb if vb == U else tb[align_idx(vb, U)])
            if len(U) > 8 or va == vb:
                vs, arr = reduce_tab(U, arr)
            else:
                vs = U
            r = cadd(r, tc_norm(0.0, {vs: arr}) if vs else float(arr[0]))
    return r


def crange(a):
    if type(a) is float:
        return a, a
    lo = hi = a.c
    for t in a.t.values():
        lo += float(t.min()); hi += float(t.max())
    return lo, hi


def cmag(a):
    if type(a) is float:
        return abs(a)
    return max(abs(a.c), max(float(np.abs(t).max()) for t in a.t.values()))


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name", "und")


ATOMS = []
_atom_index = {}
_fkeys = {}
INF = math.inf


def new_atom(kind, args, lo=-INF, hi=INF, name="", und=False):
    a = Atom()
    a.id = len(ATOMS); a.kind = kind; a.args = args; a.lo = lo; a.hi = hi; a.name = name; a.und = und
    ATOMS.append(a)
    return a


class F:
    __slots__ = ("m", "_key", "_rng", "_und")

    def __init__(self, m):
        self.m = m
        self._key = None
        self._rng = None
        self._und = None

    def key(self):
        if self._key is None:
            items = []
            for mo in sorted(self.m):
                c = self.m[mo]
                if type(c) is float:
                    items.append((mo, c))
                else:
                    items.append((mo, c.c, tuple((v, c.t[v].tobytes()) for v in sorted(c.t))))
            k = tuple(items)
            self._key = _fkeys.setdefault(k, ("F", len(_fkeys)))
        return self._key

    @property
    def und(self):
        if self._und is None:
            u = False
            for mo, c in self.m.items():
                if any(ATOMS[a].und for a in mo):
                    u = True
                if type(c) is not float:
                    for vs in c.t:
                        if any(VARS[v].und for v in vs):
                            u = True
            self._und = u
        return self._und

    def __repr__(self):
        return show(self)


def show(f, depth=1, maxterms=12):
    if isinstance(f, (int, float)):
        return repr(f)
    if isinstance(f, BV):
        return repr(f)
    parts = []
    for mo in sorted(f.m)[:maxterms]:
        c = f.m[mo]
        cs = "%.6g" % c if type(c) is float else "(%.6g+%s)" % (c.c, "+".join("tab%r" % (v,) for v in c.t))
        parts.append(cs + "".join("*" + atom_name(ATOMS[a], depth) for a in mo))
    if len(f.m) > maxterms:
        parts.append("...%d terms" % len(f.m))
    return " + ".join(parts) or "0"


def atom_name(a, depth=1):
    if a.name:
        return a.name
    if depth <= 0:
        return "%s#%d" % (a.kind, a.id)
    return "%s#%d(%s)" % (a.kind, a.id, ", ".join(show(x, depth - 1, 4) for x in a.args if isinstance(x, (F, float, BV))))


def atom_f(a):
    return F({(a.id,): 1.0})


def mono_range(mo):
    lo = hi = 1.0
    i = 0
    n = len(mo)
    while i < n:
        j = i
        while j < n and mo[j] == mo[i]:
            j += 1
        a = ATOMS[mo[i]]
        l, h = a.lo, a.hi
        k = j - i
        if k > 1:
            if k % 2 == 0:
                m = max(abs(l), abs(h)) ** k
                l, h = (0.0 if l <= 0 <= h else min(abs(l), abs(h)) ** k), m
            else:
                l, h = l ** k, h ** k
        ps = [imul(lo, l), imul(lo, h), imul(hi, l), imul(hi, h)]
        lo, hi = min(ps), max(ps)
        i = j
    return lo, hi


def imul(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def frange(f):
    if type(f) is float:
        return f, f
    if f._rng is None:
        lo = hi = 0.0
        for mo, c in f.m.items():
            cl, ch = crange(c)
            if mo:
                ml, mh = mono_range(mo)
                ps = [imul(cl, ml), imul(cl, mh), imul(ch, ml), imul(ch, mh)]
                cl, ch = min(ps), max(ps)
            lo += cl; hi += ch
        if lo != lo: lo = -INF
        if hi != hi: hi = INF
        f._rng = (lo, hi)
    return f._rng


def simp(m):
    """dict -> F or float"""
    if not m:
        return 0.0
    if len(m) == 1:
        c = m.get(())
        if c is not None and type(c) is float:
            return c
    return F(m)


def mdict(x):
    if type(x) is float:
        return {(): x} if x != 0.0 else {}
    return x.m


def chk(x):
    if type(x) is float and (x != x or x in (INF, -INF)):
        raise Unsupported("non-finite constant in symbolic arithmetic")


def fadd(a, b):
    if type(a) is float:
        if type(b) is float: return a + b
        chk(a)
        if a == 0.0: return b
        a, b = b, a
    if type(b) is float:
        chk(b)
        if b == 0.0: return a
        m = dict(a.m)
        o = m.get(())
        if o is None:
            m[()] = b
        else:
            r = cadd(o, b)
            if r == 0.0 and type(r) is float:
                del m[()]
            else:
                m[()] = r
        return simp(m)
    if len(a.m) < len(b.m):
        a, b = b, a
    m = dict(a.m)
    for mo, c in b.m.items():
        o = m.get(mo)
        if o is None:
            m[mo] = c
        else:
            r = cadd(o, c)
            if type(r) is float and r == 0.0:
                del m[mo]
            else:
                m[mo] = r
    return simp(m)


def fscale(a, k):
    if type(a) is float:
        return a * k
    chk(k)
    if k == 0.0:
        return 0.0
    if k == 1.0:
        return a
    return F({mo: cscale(c, k) for mo, c in a.m.items()})


def fneg(a):
    if type(a) is float:
        return -a
    return fscale(a, -1.0)


def fsub(a, b):
    return fadd(a, fneg(b))


def mono_mul(m1, m2):
    """product of monomials -> (mono, scalar F multiplier or None)"""
    if not m1: return m2, None
    if not m2: return m1, None
    l = sorted(m1 + m2)
    extra = None
    changed = True
    while changed:
        changed = False
        for i in range(len(l)):
            a = ATOMS[l[i]]
            if a.kind == "inv":
                base = a.args[0]
                if len(base.m) == 1:
                    (bm, bc), = base.m.items()
                    if type(bc) is float and len(bm) == 1 and bm[0] in l:
                        l.remove(a.id); l.remove(bm[0])
                        extra = 1.0 / bc if extra is None else fscale(extra, 1.0 / bc)
                        changed = True
                        break
            if a.kind == "sqrt" and i + 1 < len(l) and l[i + 1] == a.id:
                del l[i:i + 2]
                extra = a.args[0] if extra is None else fmul(extra, a.args[0])
                changed = True
                break
            if a.kind == "exp2" and i + 1 < len(l):
                js = [j for j in range(len(l)) if j != i and ATOMS[l[j]].kind == "exp2"]
                if js:
                    s = a.args[0]
                    for j in js:
                        s = fadd(s, ATOMS[l[j]].args[0])
                    l = [x for j, x in enumerate(l) if j != i and j not in js]
                    e = fexp2(s)
                    extra = e if extra is None else fmul(extra, e)
                    changed = True
                    break
    return tuple(l), extra


MAXTERMS = 20000
NAME_TERMS = [20000]    # products of two sums with more term pairs than this use names for the sums


def named(a):
    k, g = norm_scale(a)
    return fscale(atom_f(opaque("prod", (g,), *frange(g))), k)


def fmul(a, b):
    if type(a) is float:
        if type(b) is float:
            return a * b
        return fscale(b, a)
    if type(b) is float:
        return fscale(a, b)
    if len(a.m) > 6 and len(b.m) > 6 and len(a.m) * len(b.m) > NAME_TERMS[0]:
        a = named(a)
        b = named(b)
    if len(a.m) * len(b.m) > MAXTERMS:
        # keep the smaller factor opaque
        if len(a.m) > len(b.m):
            a, b = b, a
        if len(b.m) > MAXTERMS:
            raise Unsupported("polynomial too large")
        a = atom_f(opaque("prod", (a,), *frange(a)))
    acc = {}
    rest = []
    for m1, c1 in a.m.items():
        for m2, c2 in b.m.items():
            mo, ex = mono_mul(m1, m2)
            try:
                c = cmul(c1, c2)
            except Overflow:
                c1a = coef_atom(c1)
                t = fmul(F({(): c2}) if not m2 else F({m2: c2}), F({mono_mul(m1, (c1a.id,))[0]: 1.0}))
                rest.append(t)
                continue
            if type(c) is float and c == 0.0:
                continue
            if ex is not None:
                rest.append(fmul(F({mo: c}) if mo or type(c) is not float else c, ex))
                continue
            o = acc.get(mo)
            if o is None:
                acc[mo] = c
            else:
                r = cadd(o, c)
                if type(r) is float and r == 0.0:
                    del acc[mo]
                else:
                    acc[mo] = r
    r = simp(acc)
    for t in rest:
        r = fadd(r, t)
    return r


def coef_atom(c):
    """table coefficient -> opaque atom standing for it"""
    f = F({(): c})
    lo, hi = crange(c)
    return opaque("tabv", (f,), lo, hi)


_mw = {}
HUGE = 1e20         # sentinel magnitudes (FLT_MAX) do not count when scales are compared


def mono_weight(mo):
    """largest magnitude the monomial can take (0 when unbounded)"""
    if not mo:
        return 1.0
    r = _mw.get(mo)
    if r is None:
        lo, hi = mono_range(mo)
        r = max(abs(lo), abs(hi))
        if not r < HUGE:
            r = 0.0
        if len(_mw) < 2000000:
            _mw[mo] = r
    return r


def signature(f):
    """(structure, coefficients, allowed deviation of each coefficient): deviations are judged by what they can
    contribute to the value, so that terms of small coefficient but large range are not ignored"""
    if type(f) is float:
        return ("k",), np.array([f]), np.array([1e-6 * abs(f)])
    mx = ux = 0.0
    ws = {}
    for mo, c in f.m.items():
        w = ws[mo] = mono_weight(mo)
        x = cmag(c)
        if w:
            if x * w < HUGE:
                mx = max(mx, x * w)
        elif x < HUGE:
            ux = max(ux, x)
    sig = []
    vec = []
    tol = []
    for mo in sorted(f.m):
        c = f.m[mo]
        w = ws[mo]
        t = mx / w if w else ux
        if type(c) is float:
            if abs(c) < 1e-7 * t:
                continue
            sig.append(mo)
            vec.append(np.array([c]))
            tol.append(np.array([1e-6 * t]))
        else:
            ks = tuple(sorted(c.t))
            sig.append((mo, ks))
            vec.append(np.array([c.c]))
            n = 1
            for k in ks:
                vec.append(c.t[k])
                n += len(c.t[k])
            tol.append(np.full(n, 1e-6 * t))
    return tuple(sig), (np.concatenate(vec) if vec else np.zeros(0)), (np.concatenate(tol) if tol else np.zeros(0))


def vec_close(v, w, tv, tw):
    if v.shape != w.shape:
        return False
    return bool(np.array_equal(v, w) or (np.abs(v - w) <= np.maximum(tv, tw) + RTOL * np.abs(w)).all())


RTOL = 1e-5


def opaque(kind, args, lo=-INF, hi=INF, name=""):
    """atom kind(args), shared between occurrences whose arguments agree within RTOL"""
    sk = [kind]
    vecs = []
    for x in args:
        if isinstance(x, F):
            s, v, t = signature(x)
            sk.append(s)
            vecs.append((v, t))
        elif isinstance(x, BV):
            sk.append(("b", x.id))
        elif type(x) is float:
            sk.append("k")
            vecs.append((np.array([x]), np.array([1e-6 * abs(x)])))
        else:
            sk.append(x)
    sk = tuple(sk)
    lst = _atom_index.setdefault(sk, [])
    for aid, vv in lst:
        ok = True
        for (v, t), (w, u) in zip(vecs, vv):
            if not vec_close(v, w, t, u):
                ok = False
                break
        if ok:
            return ATOMS[aid]
    a = new_atom(kind, args, lo, hi, name, any(isinstance(x, (F, BV)) and x.und for x in args))
    lst.append((a.id, vecs))
    return a


def pure_table(f):
    """F with only a constant monomial and small joint support -> (vars, arr) or None"""
    if type(f) is float:
        return (), np.array([f])
    if len(f.m) != 1 or () not in f.m:
        return None
    c = f.m[()]
    if type(c) is float:
        return (), np.array([c])
    U = ()
    for v in c.t:
        U = union(U, v)
    if len(U) > KMAX:
        return None
    arr = np.full(1 << len(U), c.c)
    for v, t in c.t.items():
        arr = arr + t[align_idx(v, U)]
    return U, arr


def from_table(U, arr):
    c = table_coef(U, np.asarray(arr, dtype=np.float64))
    if type(c) is float:
        return c
    return F({(): c})


def indicator(c):
    """BV1 -> F with 0/1 value"""
    if isinstance(c, int):
        return float(c)
    return from_table(c.vars, c.tab.astype(np.float64))


def fite(c, a, b):
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    if type(a) is float and type(b) is float and a == b:
        return a
    for x in (a, b):
        if type(x) is float and (x != x or x in (INF, -INF)):
            return atom_f(opaque("fite", (c, a, b)))
    # numerically nearly equal coefficients are kept distinct: exact difference
    d = fsub_exact(a, b)
    if type(d) is float and d == 0.0:
        return a
    r = fadd(b, fmul(indicator(c), d))
    if type(r) is not float:
        rel = cond_rel(c)
        al, ah = range_under(a, rel, True)
        bl, bh = range_under(b, rel, False)
        lo, hi = frange(r)
        r._rng = (max(lo, min(al, bl)), min(hi, max(ah, bh)))
        if len(_ites) > 50000:
            _ites.clear()
        _ites[id(r)] = (r, a, b, (al, ah), (bl, bh))
    return r


_ites = {}


def cond_rel(c):
    """(p, negated) when c is the relation p < 0 (or p <= 0) or its negation, else None"""
    if not isinstance(c, BV) or c.tab is None or len(c.vars) != 1:
        return None
    v = VARS[c.vars[0]]
    if v.kind != "rel" or v.payload[0] not in ("lt", "le"):
        return None
    return v.payload[1], not int(c.tab[1])


def coef_peak(x):
    """(largest value, where) of a coefficient"""
    if type(x) is float:
        return x, None
    if x.c != 0.0:
        return x.c, None
    return max(((float(t[i]), (v, i)) for v, t in x.t.items() for i in (int(np.abs(t).argmax()),)), key=lambda q: abs(q[0]))


def coef_at(y, where):
    if where is None:
        return y if type(y) is float else y.c
    if type(y) is float or where[0] not in y.t:
        return None
    return float(y.t[where[0]][where[1]])


def range_under(f, rel, truth, depth=4):
    """range of f where the relation holds (truth) or does not: refined when f is affine in the compared term, or a
    conditional of such terms (clamps)"""
    if type(f) is float:
        return f, f
    lo, hi = frange(f)
    if rel is None or depth == 0:
        return lo, hi
    p, neg = rel
    t = _ites.get(id(f))
    if t is not None and t[0] is f:
        al, ah = range_under(t[1], rel, truth, depth - 1)
        bl, bh = range_under(t[2], rel, truth, depth - 1)
        return max(lo, min(max(al, t[3][0]), max(bl, t[4][0]))), min(hi, max(min(ah, t[3][1]), min(bh, t[4][1])))
    if len(p.m) > len(f.m) + 1 or len(f.m) > len(p.m) + 1 or len(f.m) > 3000:
        return lo, hi
    k = big = None
    for mo in p.m:
        if mo and mo in f.m:
            x = coef_peak(p.m[mo])
            if big is None or abs(x[0]) > big:
                y = coef_at(f.m[mo], x[1])
                if y is not None:
                    big = abs(x[0]); k = y / x[0]
    if k is None or k == 0.0:
        return lo, hi
    d = fsub(f, fscale(p, k))
    if type(d) is not float:            # equal up to the rounding of the coefficients
        d = simp({mo: x for mo, x in d.m.items() if not (mo and mo in p.m and mo in f.m and cmag(x) <= 1e-12 * cmag(f.m[mo]))})
    dl, dh = (d, d) if type(d) is float else frange(d)
    if not (dl > -1e30 and dh < 1e30):
        return lo, hi
    below = truth != neg                # p <= 0 here (else p >= 0)
    e = 1e-9 * max(abs(dl), abs(dh))
    if below == (k > 0):
        return lo, min(hi, dh + e)
    return max(lo, dl - e), hi


def fsub_exact(a, b):
    return fadd(a, fneg(b))


# relations ----------------------------------------------------------------
def rel_var(kind, p):
    """boolean atom  p < 0 ('lt'), p <= 0 ('le'), p == 0 ('eq') with p normalised (leading coefficient positive)"""
    s, v, t = signature(p)
    k = (kind, s)
    lst = _rel_index.setdefault(k, [])
    for vid, w, u in lst:
        if vec_close(v, w, t, u):
            return VARS[vid]
    x = new_var("rel", (kind, p), "%s%d" % (kind, len(VARS)), p.und)
    lst.append((x.id, v, t))
    return x


def fcmp(op, a, b):
    """op in lt le gt ge eq ne over reals -> BV1"""
    if type(a) is float and type(b) is float:
        return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op])
    for x, y, fl in ((a, b, False), (b, a, True)):
        if type(y) is float and (y in (INF, -INF) or y != y):
            if y != y:
                return int(op == "ne")
            less = (y == INF) != fl     # a<b ?
            return int({"lt": less, "le": less, "gt": not less, "ge": not less, "eq": False, "ne": True}[op])
    if op in ("gt", "ge"):
        return fcmp("lt" if op == "gt" else "le", b, a)
    if op == "ne":
        return bvnot1(fcmp("eq", a, b))
    d = fsub(a, b)
    if type(d) is float:
        return int({"lt": d < 0, "le": d <= 0, "eq": d == 0}[op])
    lo, hi = frange(d)
    al, ah = frange(a) if type(a) is not float else (a, a)
    bl, bh = frange(b) if type(b) is not float else (b, b)
    if al - bh > lo: lo = al - bh       # an operand's own range may be tighter than the difference's
    if ah - bl < hi: hi = ah - bl
    if op == "lt":
        if hi < 0: return 1
        if lo >= 0: return 0
    elif op == "le":
        if hi <= 0: return 1
        if lo > 0: return 0
    elif lo > 0 or hi < 0:
        return 0
    pt = pure_table(d)
    if pt is not None:
        U, arr = pt
        r = arr < 0 if op == "lt" else arr <= 0 if op == "le" else arr == 0
        return mk_tab(1, U, r.astype(U64))
    # normalise the sign/scale by the largest coefficient of the first non-constant monomial
    neg = False
    lead = None
    for mo in sorted(d.m):
        if mo:
            c = d.m[mo]
            lead = c if type(c) is float else (c.c if c.c != 0.0 else float(next(iter(sorted(c.t.items(), key=lambda kv: kv[0])))[1][-1]) or 1.0)
            break
    if lead is None or lead == 0.0:
        lead = 1.0
    p = fscale(d, 1.0 / lead)
    if lead < 0:
        # d < 0  <=>  p > 0 <=> not p <= 0
        if op == "lt":
            return bvnot1(var_bv(rel_var("le", p)))
        if op == "le":
            return bvnot1(var_bv(rel_var("lt", p)))
    return var_bv(rel_var(op, p))


# functions ----------------------------------------------------------------
def map_table(f, fn):
    pt = pure_table(f)
    if pt is None:
        return None
    U, arr = pt
    return from_table(U, np.array([fn(float(x)) for x in arr]))


def fexp2(f):
    if type(f) is float:
        return 2.0 ** f
    r = map_table(f, lambda x: 2.0 ** x)
    if r is not None:
        return r
    c = f.m.get((), 0.0)
    if type(c) is float:
        k, g = 2.0 ** c, fadd(f, -c)
    else:
        k, g = 2.0 ** c.c, fadd(f, -c.c)
    if len(g.m) == 1:
        (mo, cc), = g.m.items()
        if type(cc) is float and len(mo) == 1 and ATOMS[mo[0]].kind == "log2" and abs(cc - 1) < 1e-7:
            return fscale(ATOMS[mo[0]].args[0], k)
    lo, hi = frange(g)
    p2 = lambda x: 2.0 ** min(max(x, -1000), 1000)
    return fscale(atom_f(opaque("exp2", (g,), p2(lo) if lo > -INF else 0.0, p2(hi) if hi < INF else INF)), k)


def flog2(f):
    if type(f) is float:
        return math.log2(f) if f > 0 else (-INF if f == 0 else math.nan)
    r = map_table(f, lambda x: math.log2(x) if x > 0 else -1e9)
    if r is not None:
        return r
    if len(f.m) == 1:
        (mo, c), = f.m.items()
        if type(c) is float and c > 0 and len(mo) == 1:
            a = ATOMS[mo[0]]
            if a.kind == "exp2":
                return fadd(a.args[0], math.log2(c))
            lo, hi = a.lo, a.hi
            return fadd(atom_f(opaque("log2", (atom_f(a),), math.log2(lo) if lo > 0 else -INF, math.log2(hi) if 0 < hi < INF else INF)), math.log2(c))
    lo, hi = frange(f)
    return atom_f(opaque("log2", (f,), math.log2(lo) if lo > 0 else -INF, math.log2(hi) if 0 < hi < INF else INF))


def norm_scale(f):
    """F -> (k, g) with f = k*g, k > 0, largest |coefficient| of g equal to 1"""
    k = max(cmag(c) for c in f.m.values())
    return k, fscale(f, 1.0 / k)


def fsqrt(f):
    if type(f) is float:
        return math.sqrt(f) if f >= 0 else math.nan
    r = map_table(f, lambda x: math.sqrt(x) if x >= 0 else math.nan)
    if r is not None:
        return r
    if len(f.m) == 1:
        (mo, c), = f.m.items()
        if type(c) is float and c > 0 and len(mo) % 2 == 0 and all(mo[i] == mo[i + 1] for i in range(0, len(mo), 2)):
            h = tuple(mo[i] for i in range(0, len(mo), 2))
            if all(ATOMS[x].lo >= 0 for x in h):
                return F({h: math.sqrt(c)})
    k, g = norm_scale(f)
    lo, hi = frange(g)
    a = opaque("sqrt", (g,), math.sqrt(max(lo, 0.0)) if lo > -INF else 0.0, math.sqrt(hi) if 0 <= hi < INF else INF)
    return fscale(atom_f(a), math.sqrt(k))


def proportional(a, b):
    """k with a = k*b (tolerance), or None"""
    if type(a) is float or type(b) is float or a.m.keys() != b.m.keys():
        return None
    sa, va, ta = signature(a)
    sb, vb, tb = signature(b)
    if sa != sb:
        return None
    i = int(np.argmax(np.abs(vb)))
    k = va[i] / vb[i]
    if vec_close(va, k * vb, ta, abs(k) * tb):
        return float(k)
    return None


def fdiv(a, b):
    if type(b) is float:
        if type(a) is float:
            raise Unsupported("fdiv const")
        if b == 0.0:
            raise Unsupported("division by zero constant")
        return fscale(a, 1.0 / b)
    if type(a) is float and a == 0.0:
        return 0.0
    pt = pure_table(b)
    if pt is not None:
        U, arr = pt
        with np.errstate(all="ignore"):
            inv = 1.0 / arr
        if np.all(np.isfinite(inv)):
            return fmul(a, from_table(U, inv)) if True else None
        pa = pure_table(a)
        if pa is not None:
            U2 = union(U, pa[0])
            if len(U2) <= KMAX:
                with np.errstate(all="ignore"):
                    q = pa[1][align_idx(pa[0], U2)] / arr[align_idx(U, U2)]
                # rows with a zero divisor: value irrelevant unless reachable; keep finite placeholder
                q = np.where(np.isfinite(q), q, 1e30)
                return from_table(U2, q)
    k = proportional(a, b) if type(a) is not float else None
    if k is not None:
        return k
    return fmul(a, finv(b))


def finv(b):
    if type(b) is float:
        return 1.0 / b
    if len(b.m) == 1:
        (mo, c), = b.m.items()
        if type(c) is float and mo:
            r = 1.0 / c
            out = r
            for x in mo:
                ax = ATOMS[x]
                if ax.kind == "inv":
                    out = fmul(out, ax.args[0])
                elif ax.kind == "exp2":
                    out = fmul(out, fexp2(fneg(ax.args[0])))
                else:
                    lo, hi = ax.lo, ax.hi
                    il, ih = (1.0 / hi if hi != INF else 0.0, 1.0 / lo) if lo > 0 else ((1.0 / hi, 1.0 / lo if lo != -INF else 0.0) if hi < 0 else (-INF, INF))
                    if lo == 0:
                        il, ih = (1.0 / hi if hi != INF else 0.0), INF
                    out = fmul(out, atom_f(opaque("inv", (atom_f(ax),), il, ih)))
            return out
    k, g = norm_scale(b)
    lo, hi = frange(g)
    il, ih = -INF, INF
    if lo > 0: il, ih = (1.0 / hi if hi < INF else 0.0), 1.0 / lo
    elif hi < 0: il, ih = 1.0 / hi, (1.0 / lo if lo > -INF else 0.0)
    elif lo == 0: il, ih = (1.0 / hi if hi < INF else 0.0), INF
    return fscale(atom_f(opaque("inv", (g,), il, ih)), 1.0 / k)


TWO_PI = 2 * math.pi


def trig_parts(f):
    """f -> (constant part, symbolic part) with 2*pi-periodic wraps removed"""
    for _ in range(8):
        sub = None
        for mo, c in f.m.items():
            if len(mo) == 1 and type(c) is float and abs(c - round(c)) < 1e-6 * max(1.0, abs(c)):
                a = ATOMS[mo[0]]
                if a.kind == "fmod" and abs(a.args[1] - TWO_PI) < 1e-5:
                    sub = (mo, c, a)
                    break
                if a.kind == "wrap2pi":
                    sub = (mo, c, a)
                    break
        if sub is None:
            break
        mo, c, a = sub
        m = dict(f.m)
        del m[mo]
        f = fadd(simp(m), fscale(a.args[0], round(c)))
        if type(f) is float:
            return f, None
        # integer multiples of 2*pi*floor(...) disappear
    m = dict(f.m)
    for mo in list(m):
        c = m[mo]
        if len(mo) == 1 and type(c) is float and ATOMS[mo[0]].kind in ("floor", "ceil", "trunc_i", "itof") and ATOMS[mo[0]].kind != "itof_frac":
            q = c / TWO_PI
            if abs(q - round(q)) < 1e-5 and round(q) != 0:
                del m[mo]
    f = simp(m)
    if type(f) is float:
        return f, None
    k = f.m.get((), 0.0)
    if type(k) is float:
        return k, fadd(f, -k)
    return k.c, fadd(f, -k.c)


def fcossin(f):
    """-> (cos f, sin f)"""
    if type(f) is float:
        return math.cos(f), math.sin(f)
    pt = pure_table(f)
    if pt is not None:
        return from_table(pt[0], np.cos(pt[1])), from_table(pt[0], np.sin(pt[1]))
    k, s = trig_parts(f)
    if s is None:
        return math.cos(k), math.sin(k)
    pt = pure_table(s)
    if pt is not None:
        return from_table(pt[0], np.cos(pt[1] + k)), from_table(pt[0], np.sin(pt[1] + k))
    # canonical sign: the coefficient of the first monomial is positive
    c0 = s.m[sorted(s.m)[0]]
    neg = (c0 if type(c0) is float else float(sorted(c0.t.items())[0][1][-1])) < 0
    if neg:
        s = fneg(s)
    C = atom_f(opaque("cos", (s,), -1.0, 1.0))
    S = atom_f(opaque("sin", (s,), -1.0, 1.0))
    if neg:
        S = fneg(S)
    ck, sk = math.cos(k), math.sin(k)
    if abs(ck) < 1e-6: ck = 0.0
    if abs(sk) < 1e-6: sk = 0.0
    return fsub(fscale(C, ck), fscale(S, sk)), fadd(fscale(S, ck), fscale(C, sk))


def fabs_(f):
    if type(f) is float:
        return abs(f)
    lo, hi = frange(f)
    if lo >= 0: return f
    if hi <= 0: return fneg(f)
    return fite(fcmp("lt", f, 0.0), fneg(f), f)


def ffloor(f, kind="floor"):
    fn = math.floor if kind == "floor" else math.ceil if kind == "ceil" else math.trunc
    if type(f) is float:
        return float(fn(f))
    r = map_table(f, lambda x: float(fn(x)))
    if r is not None:
        return r
    lo, hi = frange(f)
    return atom_f(opaque(kind, (f,), float(fn(lo)) if lo > -INF else lo, float(fn(hi)) if hi < INF else hi))


def ffmod(a, b):
    if type(a) is float and type(b) is float:
        return math.fmod(a, b)
    if type(b) is not float:
        return atom_f(opaque("fmod2", (a, b)))
    r = map_table(a, lambda x: math.fmod(x, b))
    if r is not None:
        return r
    lo, hi = frange(a)
    return atom_f(opaque("fmod", (a, b), 0.0 if lo >= 0 else -abs(b), abs(b) if hi > 0 else 0.0))


def fptoint(w, f, signed):
    """truncation; the caller records the range obligation"""
    M = (1 << w) - 1
    if type(f) is float:
        return int(f) & M
    pt = pure_table(f)
    if pt is not None:
        return mk_tab(w, pt[0], np.array([int(x) & M if abs(x) < 1e18 else 0 for x in pt[1]], dtype=U64))
    if len(f.m) <= 2:
        k = f.m.get((), 0.0)
        rest = [(mo, c) for mo, c in f.m.items() if mo]
        if type(k) is float and k == int(k) and len(rest) == 1 and type(rest[0][1]) is float and rest[0][1] == 1.0 and len(rest[0][0]) == 1:
            a = ATOMS[rest[0][0][0]]
            if a.kind in ("itof",):
                x, sg = a.args
                xs = zext if sg == "u" else sext
                y = x if x.w == w else (xs(w, x.w, x) if x.w < w else trunc(w, x.w, x))
                return bvop("add", w, y, int(k) & M)
    lo, hi = frange(f)
    slo = int(lo) if lo > -1e18 else None
    shi = int(hi) if hi < 1e18 else None
    if slo is None or shi is None:
        slo = shi = None
    elif not signed and w < 64 and shi >= 1 << (w - 1):
        slo = shi = None
    return mk_node("fptosi" if signed else "fptoui", w, (f,), slo, shi)


def inttofp(w, x, signed):
    if isinstance(x, int):
        return float(sgn(x, w) if signed else x)
    if x.tab is not None:
        arr = sarr(x.tab, w).astype(np.float64) if signed else x.tab.astype(np.float64)
        return from_table(x.vars, arr)
    if x.op == "ite":
        return fite(x.args[0], inttofp(w, x.args[1], signed), inttofp(w, x.args[2], signed))
    if x.op == "add" and isinstance(x.args[1], int) and signed:
        k = sgn(x.args[1], w)
        if x.args[0].slo + k >= -(1 << (w - 1)) and x.args[0].shi + k < (1 << (w - 1)):
            return fadd(inttofp(w, x.args[0], True), float(k))
    if x.op in ("zext",):
        return inttofp(x.args[0].w, x.args[0], False)
    if x.op == "sext" and signed:
        return inttofp(x.args[0].w, x.args[0], True)
    if signed or x.slo >= 0:
        lo, hi, sg = x.slo, x.shi, ("u" if x.slo >= 0 else "s")
    else:
        lo, hi, sg = 0, (1 << w) - 1, "u"
    if x.op in ("fptosi", "fptoui"):
        # truncation of a real
        return atom_f(opaque("trunc_i", (x.args[0],), float(lo), float(hi)))
    return atom_f(opaque("itof", (x, sg), float(lo), float(hi)))


def fbits(w, f):
    if type(f) is float:
        import struct
        return int.from_bytes(struct.pack("<f" if w == 32 else "<d", f), "little")
    return mk_node("fbits", w, (f,))


def bits_to_f(w, x):
    """bit pattern -> float value"""
    if isinstance(x, int):
        import struct
        return struct.unpack("<f" if w == 32 else "<d", x.to_bytes(w // 8, "little"))[0]
    if x.tab is not None:
        import struct
        arr = np.array([struct.unpack("<f" if w == 32 else "<d", int(v).to_bytes(w // 8, "little"))[0] for v in x.tab])
        if np.all(np.isfinite(arr)):
            return from_table(x.vars, arr)
        raise Unsupported("bit pattern table with non-finite floats")
    if x.op == "fbits":
        return x.args[0]
    if x.op == "ite":
        return fite(x.args[0], bits_to_f(w, x.args[1]), bits_to_f(w, x.args[2]))
    return atom_f(opaque("ofbits", (x,)))


# ---------------------------------------------------------------------------------- numeric evaluation (for validation)
class Eval:
    """evaluate terms at a concrete input assignment: inputs[name] -> number, bits by VARS"""

    def __init__(self, bits, reals, wides):
        self.bits = bits      # var id -> 0/1 for input bits
        self.reals = reals    # atom id -> value for input atoms
        self.wides = wides    # name -> value for wide integer inputs
        self.vc = {}
        self.ac = {}
        self.nc = {}

    def var(self, i):
        r = self.vc.get(i)
        if r is None:
            v = VARS[i]
            if v.kind == "in":
                r = self.bits.get(i, 0)
            elif v.kind == "rel":
                k, p = v.payload
                x = self.f(p)
                r = int(x < 0 if k == "lt" else x <= 0 if k == "le" else x == 0)
            else:
                r = self.bv(v.payload)
            self.vc[i] = r
        return r

    def row(self, vars):
        r = 0
        for j, v in enumerate(vars):
            if self.var(v):
                r |= 1 << j
        return r

    def bv(self, x):
        if isinstance(x, int):
            return x
        r = self.nc.get(x.id)
        if r is not None:
            return r
        if x.tab is not None:
            r = int(x.tab[self.row(x.vars)])
        else:
            r = self.node(x)
        self.nc[x.id] = r
        return r

    def node(self, x):
        op, w, a = x.op, x.w, x.args
        M = (1 << w) - 1
        if op == "var": return self.wides.get(a[0], 0) & M
        if op == "ite": return self.bv(a[1]) if self.bv(a[0]) else self.bv(a[2])
        if op == "zext": return self.bv(a[0])
        if op == "sext": return sgn(self.bv(a[0]), a[0].w) & M
        if op == "trunc": return self.bv(a[0]) & M
        if op == "concat": return self.bv(a[0]) | self.bv(a[1]) << lo_w(x)
        if op == "lut": return dict(a[1]).get(self.bv(a[0]), 0) & M
        if op in ("eq", "slt", "ult"):
            ww = a[0].w if isinstance(a[0], BV) else a[1].w
            return icmp(op, ww, self.bv(a[0]), self.bv(a[1]))
        if op in ("fptosi", "fptoui"):
            v = self.f(a[0])
            return int(v) & M if v == v and abs(v) < 1e18 else 0
        if op == "fbits":
            import struct
            v = self.f(a[0])
            return int.from_bytes(struct.pack("<f" if w == 32 else "<d", v), "little")
        return _int_op(op, w, self.bv(a[0]), self.bv(a[1]))

    def coef(self, c):
        if type(c) is float:
            return c
        r = c.c
        for vs, t in c.t.items():
            r += float(t[self.row(vs)])
        return r

    def f(self, x):
        if isinstance(x, (int, float)):
            return float(x)
        r = 0.0
        for mo, c in x.m.items():
            v = self.coef(c)
            if v != 0.0:
                for a in mo:
                    v *= self.atom(a)
            r += v
        return r

    def atom(self, i):
        r = self.ac.get(i)
        if r is None:
            r = self.ac[i] = self._atom(ATOMS[i])
        return r

    def _atom(self, a):
        k = a.kind
        if k == "in": return self.reals.get(a.id, 0.0)
        if k in ("undef", "havoc"): return 0.0
        g = a.args
        if k == "itof":
            v = self.bv(g[0])
            return float(v if g[1] == "u" else sgn(v, g[0].w))
        if k == "fite": return self.f(g[1]) if self.bv(g[0]) else self.f(g[2])
        if k == "ofbits": return bits_to_f(g[0].w, self.bv(g[0]))
        x = self.f(g[0]) if g else 0.0
        try:
            if k in ("prod", "tabv"): return x
            if k == "exp2": return 2.0 ** x
            if k == "log2": return math.log2(x) if x > 0 else -INF
            if k == "sqrt": return math.sqrt(x) if x >= 0 else math.nan
            if k == "inv": return 1.0 / x if x != 0 else math.nan
            if k == "cos": return math.cos(x)
            if k == "sin": return math.sin(x)
            if k == "floor": return float(math.floor(x))
            if k == "ceil": return float(math.ceil(x))
            if k in ("trunc", "trunc_i"): return float(math.trunc(x))
            if k == "fmod": return math.fmod(x, g[1])
            if k == "fmod2": return math.fmod(x, self.f(g[1]))
            if k == "flut":
                return dict(g[1]).get(self.bv(g[0]), math.nan)
        except (OverflowError, ValueError):
            return math.nan
        raise Unsupported("eval " + k)
