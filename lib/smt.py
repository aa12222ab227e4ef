"""z3 encoding of the executor's terms.  Levels: 0 boolean structure and intervals, 1 adds the definitions of order
relations, bit-vector predicates and conversions, 2 adds nonlinear definitions (products, square roots, reciprocals)."""
import time
from fractions import Fraction
import numpy as np
import z3
import terms as T
from terms import BV, F, VARS, ATOMS, INF


def q(x):
    return z3.RealVal(str(Fraction(x)))


class Enc:
    def __init__(self, level):
        self.level = level
        self.vcache = {}; self.acache = {}; self.mcache = {}; self.bcache = {}; self.tcache = {}; self.ccache = {}
        self.cons = []          # definitions to assert
        self.todo = []

    # booleans -------------------------------------------------------------
    def var(self, i):
        r = self.vcache.get(i)
        if r is None:
            r = self.vcache[i] = z3.Bool("v%d" % i)
            v = VARS[i]
            if v.kind != "in" and self.level >= 1:
                self.todo.append(("v", i))
        return r

    def tree(self, vars, tab, leaf, ite, eqv):
        """decision tree with sharing"""
        memo = {}

        def go(k, arr):
            key = (k, arr.tobytes())
            r = memo.get(key)
            if r is not None:
                return r
            if k == 0 or (arr == arr[0]).all():
                r = leaf(arr[0])
            else:
                h = len(arr) // 2
                lo, hi = arr[:h], arr[h:]
                if np.array_equal(lo, hi):
                    r = go(k - 1, lo)
                else:
                    r = ite(self.var(vars[k - 1]), go(k - 1, hi), go(k - 1, lo))
            memo[key] = r
            return r
        return go(len(vars), tab)

    def b1(self, x):
        if isinstance(x, int):
            return z3.BoolVal(bool(x))
        if isinstance(x, tuple):        # ("range", node, lo, hi)
            e = self.bv(x[1]); w = x[1].w
            return z3.And(e >= z3.BitVecVal(x[2], w), e <= z3.BitVecVal(x[3], w))
        r = self.tcache.get(("b", x.id))
        if r is None:
            if x.tab is None:
                r = self.bv(x) == 1
            else:
                def mk(c, a, b):
                    if z3.is_true(a) and z3.is_false(b): return c
                    if z3.is_false(a) and z3.is_true(b): return z3.Not(c)
                    if z3.is_true(a): return z3.Or(c, b)
                    if z3.is_false(a): return z3.And(z3.Not(c), b)
                    if z3.is_true(b): return z3.Or(z3.Not(c), a)
                    if z3.is_false(b): return z3.And(c, a)
                    return z3.If(c, a, b)
                r = self.tree(x.vars, x.tab, lambda v: z3.BoolVal(bool(v)), mk, None)
            self.tcache[("b", x.id)] = r
        return r

    def bv(self, x, w=None):
        if isinstance(x, int):
            return z3.BitVecVal(x, w)
        r = self.bcache.get(x.id)
        if r is None:
            if x.tab is not None:
                r = self.tree(x.vars, x.tab, lambda v: z3.BitVecVal(int(v), x.w), z3.If, None)
            else:
                r = self.node(x)
            self.bcache[x.id] = r
        return r

    def node(self, x):
        op, w, a = x.op, x.w, x.args
        if op == "var":
            return z3.BitVec("w_%s" % a[0], w)
        if op == "ite":
            return z3.If(self.b1(a[0]), self.bv(a[1], w), self.bv(a[2], w))
        if op in ("zext", "sext"):
            e = self.bv(a[0]); k = w - a[0].w
            return z3.ZeroExt(k, e) if op == "zext" else z3.SignExt(k, e)
        if op == "trunc":
            return z3.Extract(w - 1, 0, self.bv(a[0]))
        if op == "concat":
            wl = T.lo_w(x)
            return z3.Concat(self.bv(a[1], w - wl), self.bv(a[0], wl))
        if op == "lut":
            ix = self.bv(a[0])
            e = z3.BitVec("lut%d" % -x.id, w)
            for k, v in a[1]:
                self.cons.append(z3.Implies(ix == z3.BitVecVal(k, a[0].w), e == z3.BitVecVal(v, w)))
            return e
        if op in ("eq", "slt", "ult"):
            ww = a[0].w if isinstance(a[0], BV) else a[1].w
            p, r = self.bv(a[0], ww), self.bv(a[1], ww)
            c = p == r if op == "eq" else p < r if op == "slt" else z3.ULT(p, r)
            return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op in ("fptosi", "fptoui"):
            e = z3.BitVec("fp%d" % -x.id, w)
            if x.slo > -(1 << (w - 1)) or x.shi < (1 << (w - 1)) - 1:
                self.cons.append(z3.And(e >= z3.BitVecVal(x.slo, w), e <= z3.BitVecVal(x.shi, w)))
            if self.level >= 1:
                self.todo.append(("fp", x))
            return e
        if op == "fbits":
            return z3.BitVec("fb%d" % -x.id, w)
        p, r = self.bv(a[0], w), self.bv(a[1], w)
        return {"add": lambda: p + r, "sub": lambda: p - r, "mul": lambda: p * r, "and": lambda: p & r, "or": lambda: p | r, "xor": lambda: p ^ r,
                "shl": lambda: p << r, "lshr": lambda: z3.LShR(p, r), "ashr": lambda: p >> r, "udiv": lambda: z3.UDiv(p, r),
                "urem": lambda: z3.URem(p, r), "sdiv": lambda: p / r, "srem": lambda: z3.SRem(p, r)}[op]()

    # reals ------------------------------------------------------------------
    def atom(self, i):
        r = self.acache.get(i)
        if r is None:
            r = self.acache[i] = z3.Real("a%d" % i)
            a = ATOMS[i]
            if a.lo > -INF: self.cons.append(r >= q(a.lo))
            if a.hi < INF: self.cons.append(r <= q(a.hi))
            if self.level >= 1 and a.kind not in ("in", "undef"):
                self.todo.append(("a", i))
        return r

    def mono(self, mo):
        if len(mo) == 1:
            return self.atom(mo[0])
        r = self.mcache.get(mo)
        if r is None:
            if self.level >= 2:
                r = self.atom(mo[0])
                for k in mo[1:]:
                    r = r * self.atom(k)
            else:
                for j, k in enumerate(mo):
                    a = ATOMS[k]
                    if a.kind == "tabv" and len(a.args[0].m) == 1 and () in a.args[0].m:    # exact: table value times the rest
                        rest = mo[:j] + mo[j + 1:]
                        r = self.coef_times(a.args[0].m[()], self.mono(rest))
                        self.mcache[mo] = r
                        return r
                r = z3.Real("m" + "_".join(map(str, mo)))
                lo, hi = T.mono_range(mo)
                if lo > -INF: self.cons.append(r >= q(lo))
                if hi < INF: self.cons.append(r <= q(hi))
            self.mcache[mo] = r
        return r

    def coef_times(self, c, m):
        """coefficient * monomial (m None for 1)"""
        if type(c) is float:
            return q(c) if m is None else q(c) * m
        parts = []
        if c.c != 0.0:
            parts.append(q(c.c) if m is None else q(c.c) * m)
        for vs, t in c.t.items():
            parts.append(self.tree(vs, t, lambda v: (q(float(v)) if m is None else q(float(v)) * m), z3.If, None))
        return z3.Sum(parts) if len(parts) > 1 else parts[0] if parts else q(0)

    def f(self, x):
        if type(x) is float or isinstance(x, int):
            return q(x)
        ps = [self.coef_times(c, self.mono(mo) if mo else None) for mo, c in x.m.items()]
        return z3.Sum(ps) if len(ps) > 1 else ps[0] if ps else q(0)

    def close_defs(self):
        """assert definitions of everything reached"""
        out = []
        while self.todo:
            t = self.todo.pop()
            if t[0] == "v":
                v = VARS[t[1]]
                e = self.var(t[1])
                if v.kind == "rel":
                    k, p = v.payload
                    x = self.f(p)
                    out.append(e == (x < 0 if k == "lt" else x <= 0 if k == "le" else x == 0))
                else:
                    out.append(e == (self.bv(v.payload) == 1))
            elif t[0] == "fp":
                x = t[1]
                if isinstance(x.args[0], float):
                    continue
                xi = z3.Int("fpi%d" % -x.id)
                r = self.f(x.args[0])
                e = self.bcache.get(x.id)
                if e is None:
                    e = z3.BitVec("fp%d" % -x.id, x.w)
                ri = z3.ToReal(xi)
                out.append(z3.If(r >= 0, z3.And(ri <= r, r < ri + 1), z3.And(ri >= r, r > ri - 1)))
                if x.shi - x.slo <= 512:
                    out.append(z3.Or([z3.And(xi == k, e == z3.BitVecVal(k, x.w)) for k in range(x.slo, x.shi + 1)]))
                else:
                    out.append(xi == z3.BV2Int(e, True))
            else:
                a = ATOMS[t[1]]
                e = self.atom(t[1])
                k, g = a.kind, a.args
                if k == "fite":
                    A = self.f(g[1]) if not (type(g[1]) is float and abs(g[1]) == INF or g[1] != g[1]) else None
                    B = self.f(g[2]) if not (type(g[2]) is float and abs(g[2]) == INF or g[2] != g[2]) else None
                    c = self.b1(g[0])
                    if A is not None: out.append(z3.Implies(c, e == A))
                    if B is not None: out.append(z3.Implies(z3.Not(c), e == B))
                elif k in ("tabv", "prod"):
                    if k == "tabv" or self.level >= 2 or len(g[0].m) <= 50:
                        out.append(e == self.f(g[0]))
                elif k == "itof":
                    x = g[0]
                    if isinstance(x, BV) and x.shi - x.slo <= 300:
                        b = self.bv(x)
                        out.append(z3.Or([z3.And(b == z3.BitVecVal(v & ((1 << x.w) - 1), x.w), e == v) for v in range(x.slo, x.shi + 1)]))
                    else:
                        out.append(e == z3.ToReal(z3.BV2Int(self.bv(x), g[1] == "s")))
                elif k in ("floor", "ceil", "trunc_i", "trunc"):
                    x = self.f(g[0])
                    n = z3.Int("n%d" % t[1])
                    out.append(e == z3.ToReal(n))
                    if k == "floor": out.append(z3.And(e <= x, x < e + 1))
                    elif k == "ceil": out.append(z3.And(e >= x, x > e - 1))
                    else: out.append(z3.If(x >= 0, z3.And(e <= x, x < e + 1), z3.And(e >= x, x > e - 1)))
                elif k == "fmod" and type(g[1]) is float:
                    x = self.f(g[0])
                    n = z3.Int("n%d" % t[1])
                    out.append(z3.And(x == e + z3.ToReal(n) * q(g[1])))
                    out.append(z3.If(x >= 0, z3.And(e >= 0, n >= 0), z3.And(e <= 0, n <= 0)))
                    out.append(z3.And(e < q(abs(g[1])), e > q(-abs(g[1]))))
                elif k == "flut":
                    x = g[0]
                    b = self.bv(x)
                    for kk, v in g[1]:
                        out.append(z3.Implies(b == z3.BitVecVal(kk, x.w), e == q(v)))
                elif k == "sqrt":
                    out.append(e >= 0)
                    x = self.f(g[0])
                    if self.level >= 2: out.append(z3.Implies(x >= 0, e * e == x))
                    out.append(z3.Implies(x > 0, e > 0))
                    out.append(z3.Implies(x == 0, e == 0))
                elif k == "inv":
                    x = self.f(g[0])
                    if self.level >= 2: out.append(z3.Implies(x != 0, e * x == 1))
                    out.append(z3.Implies(x > 0, e > 0)); out.append(z3.Implies(x < 0, e < 0))
                elif k == "exp2":
                    x = self.f(g[0])
                    out.append(e > 0)
                    out.append((x > 0) == (e > 1)); out.append((x < 0) == (e < 1))
                elif k == "log2":
                    x = self.f(g[0])
                    out.append(z3.Implies(x > 0, z3.And((x > 1) == (e > 0), (x < 1) == (e < 0))))
        return out

    def flush(self):
        while True:
            d = self.close_defs()
            c = self.cons
            self.cons = []
            if not d and not c:
                return
            for x in c: yield x
            for x in d: yield x


class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unsat = 0; self.sat = 0; self.unknown = 0


def check(assertions_fn, level, timeout_ms, stats, want_model=False):
    """assertions_fn(enc) -> list of z3 Bools.  -> ('unsat'|'sat'|'unknown', model, enc)"""
    enc = Enc(level)
    t0 = time.time()
    s = z3.SolverFor("QF_AUFLIRA") if False else z3.Solver()
    s.set("timeout", int(timeout_ms))
    fs = assertions_fn(enc)
    for x in fs:
        s.add(x)
    for x in enc.flush():
        s.add(x)
    r = str(s.check())
    stats.queries += 1
    stats.time += time.time() - t0
    if r == "unsat": stats.unsat += 1
    elif r == "sat": stats.sat += 1
    else: stats.unknown += 1
    return r, (s.model() if r == "sat" else None), enc


def model_inputs(model, enc, inputs):
    """values of harness inputs mentioned by the model"""
    out = {}
    for i, inp in enumerate(inputs):
        t = inp["term"]
        if inp["kind"] == "float":
            e = enc.acache.get(inp["atom"])
            if e is None:
                continue
            v = model.eval(e)
            if z3.is_rational_value(v):
                out[i] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[i] = float(v.approx(20).as_fraction())
        elif inp["vars"]:
            row = 0; known = False
            for j, vid in enumerate(inp["vars"]):
                e = enc.vcache.get(vid)
                if e is None:
                    continue
                v = model.eval(e)
                if z3.is_true(v) or z3.is_false(v):
                    known = True
                    if z3.is_true(v):
                        row |= 1 << j
            if known:
                out[i] = inp["lo"] + row
        else:
            e = enc.bcache.get(t.id) if isinstance(t, BV) else None
            if e is None:
                continue
            v = model.eval(e)
            if z3.is_bv_value(v):
                out[i] = v.as_signed_long() if inp["kind"] == "int" else v.as_long()
    return out
