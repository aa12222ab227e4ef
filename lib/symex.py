"""Symbolic executor over LLVM IR (see llir.py, terms.py).  Both sides of a symbolic branch are executed up to the
branch block's immediate post-dominator and merged there, so a run covers every path of the harness at once."""
import ctypes, math, re, sys
import numpy as np
import terms as T
from terms import BV, F, Unsupported
import llir

sys.setrecursionlimit(200000)
c_float = ctypes.c_float
INF = math.inf


def r32(x):
    return c_float(x).value


_libm = ctypes.CDLL("libm.so.6")
_mf = {}


def libm32(name, n=1):
    f = _mf.get((name, n))
    if f is None:
        f = getattr(_libm, name)
        f.restype = ctypes.c_float
        f.argtypes = [ctypes.c_float] * n
        _mf[(name, n)] = f
    return f


def libm64(name, n=1):
    f = _mf.get((name, n, 64))
    if f is None:
        f = getattr(_libm, name)
        f.restype = ctypes.c_double
        f.argtypes = [ctypes.c_double] * n
        _mf[(name, n, 64)] = f
    return f


class PathDead(Exception):
    pass


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.o, self.off)


class PSel:
    """pointer chosen by a condition"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b


class Obj:
    __slots__ = ("cells", "size", "default", "owner", "gran", "name", "const")

    def __init__(self, size, default, name, const=False):
        self.cells = {}
        self.size = size
        self.default = default      # None: uninitialised, 0: zero
        self.owner = None
        self.gran = None
        self.name = name
        self.const = const


class State:
    __slots__ = ("mem", "token", "pc", "fixed")

    def __init__(self):
        self.mem = {}
        self.token = object()
        self.pc = None          # linked list (parent, cond)
        self.fixed = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.fixed = dict(self.fixed)
        return s


def pc_list(pc):
    r = []
    while pc is not None:
        r.append(pc[1])
        pc = pc[0]
    r.reverse()
    return r


def restrict(c, fixed):
    """table under fixed boolean atoms"""
    if isinstance(c, int) or c.tab is None or not fixed:
        return c
    vs = c.vars
    hit = [v for v in vs if v in fixed]
    if not hit:
        return c
    rem = tuple(v for v in vs if v not in fixed)
    n = np.arange(1 << len(rem), dtype=np.int64)
    row = np.zeros(1 << len(rem), dtype=np.int64)
    for j, v in enumerate(vs):
        if v in fixed:
            if fixed[v]:
                row |= 1 << j
        else:
            row |= ((n >> rem.index(v)) & 1) << j
    return T.mk_tab(c.w, rem, np.ascontiguousarray(c.tab[row]))


class Fn:
    pass


TC = {"i": 0, "f": 1, "d": 2, "p": 3}
EXIT = "<exit>"


class Engine:
    def __init__(self, mod, ub=False, stubs=None, max_blocks=6000000, shared=None):
        """shared: names of the harness's own globals; every other writable non-thread-local global counts as shared"""
        self.mod = mod
        self.shared = set()
        self.ub = ub
        self.stubs = stubs or {}
        self.fns = {}
        self.obls = []
        self.inputs = []
        self.cases = []
        self.nobj = 0
        self.blocks = 0
        self.max_blocks = max_blocks
        self.ended = 0
        self.nund = 0
        self.calls = {}
        self.st0 = State()
        self.gp = {}
        self.undef_branches = []
        self.trivial = 0
        self.feas = None
        self.forks = 0
        for g in mod.globals.values():
            o = self.new_obj(self.st0, llir.sizeof(g.ty) if g.ty[0] != "st" or g.ty[1] else 8, 0 if not g.external else None, g.name, g.const)
            self.gp[g.name] = o
        for g in mod.globals.values():
            if g.init is not None:
                self.init_global(self.st0.mem[self.gp[g.name]], 0, g.ty, g.init)
        self.tls = {}
        for g in mod.globals.values():
            oid = self.gp[g.name]
            o = self.st0.mem[oid]
            if g.tls:
                o.owner = None
                self.tls[oid] = o
            elif not g.const and not g.external and shared is not None and g.name.lstrip("@") not in shared:
                o.owner = None          # the first write copies the object and is noticed in own()
                self.shared.add(oid)

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, default, name, const=False):
        self.nobj += 1
        o = Obj(size, default, name, const)
        o.owner = st.token
        st.mem[self.nobj] = o
        return self.nobj

    def init_global(self, o, off, ty, v):
        if v[0] == "agg":
            if ty[0] == "st":
                offs = llir.layout(ty)[0]
                for e, of, x in zip(ty[1], offs, v[1]):
                    self.init_global(o, off + of, e, x)
            else:
                es = llir.sizeof(ty[2])
                for i, x in enumerate(v[1]):
                    self.init_global(o, off + i * es, ty[2], x)
        elif v[0] == "c":
            x = v[1]
            if isinstance(x, bytes):
                for i, b in enumerate(x):
                    self.raw_store(o, off + i, 1, b)
            elif isinstance(x, tuple):
                return          # zero
            elif isinstance(x, list):
                es = llir.sizeof(ty[2])
                for i, e in enumerate(x):
                    self.raw_store(o, off + i * es, es, e)
            else:
                self.raw_store(o, off, llir.sizeof(ty), x)
        elif v[0] == "g":
            self.raw_store(o, off, 8, Ptr(self.gp[v[1]], v[2]))
        elif v[0] == "fn":
            self.raw_store(o, off, 8, ("fn", v[1]))

    def raw_store(self, o, off, size, v):
        if o.gran is None and not o.cells:
            o.gran = size if off % size == 0 else 0
        elif o.gran != size or off % size:
            if o.gran:
                o.gran = 0
            self.clear_range(o, off, size)
        o.cells[off] = (size, v)

    def clear_range(self, o, off, size):
        """drop/split cells overlapping [off, off+size)"""
        cells = o.cells
        for k in range(off - 15, off + size):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= off + size:
                del cells[k]
                continue
            # partial overlap: split into bytes
            bs = self.to_bytes(c[1], c[0])
            del cells[k]
            for j, b in enumerate(bs):
                if not (off <= k + j < off + size):
                    cells[k + j] = (1, b)

    def to_bytes(self, v, size):
        if isinstance(v, (float, F)):
            v = T.fbits(size * 8, v)
        if isinstance(v, int):
            return [(v >> (8 * j)) & 255 for j in range(size)]
        if isinstance(v, BV):
            return [T.trunc(8, size * 8, T.bvop("lshr", size * 8, v, 8 * j)) for j in range(size)]
        raise Unsupported("byte view of %r" % (v,))

    def own(self, st, oid):
        o = st.mem[oid]
        if o.owner is not st.token:
            if oid in self.shared:
                self.oblige(st, "shared", 0, "write to %s, which all threads share, in %s" % (o.name, self.where()))
            n = Obj(o.size, o.default, o.name, o.const)
            n.cells = dict(o.cells)
            n.gran = o.gran
            n.owner = st.token
            st.mem[oid] = n
            return n
        return o

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, cond, msg):
        if isinstance(cond, int) and cond:
            self.trivial += 1
            return
        cond = restrict(cond, st.fixed) if isinstance(cond, BV) else cond
        if isinstance(cond, int) and cond:
            self.trivial += 1
            return
        self.obls.append((kind, st.pc, cond, msg))

    def where(self):
        return getattr(self, "curfn", "?")

    # ------------------------------------------------------------ loads and stores
    def undef(self, tc, size):
        self.nund += 1
        nm = "undef%d" % self.nund
        if tc in (1, 2):
            return T.atom_f(T.new_atom("undef", (), name=nm, und=True))
        if tc == 3:
            raise Unsupported("load of an uninitialised pointer")
        t, c, vs = T.new_bvvar(size * 8, -(1 << (size * 8 - 1)), (1 << (size * 8 - 1)) - 1, nm, True)
        if vs:
            for v in vs:
                T.VARS[v].und = True
        return t

    def load(self, st, p, tc, size):
        if type(p) is Ptr and type(p.off) is int:
            o = st.mem[p.o]
            c = o.cells.get(p.off)
            if c is not None and c[0] == size:
                v = c[1]
                t = type(v)
                if tc == 0:
                    if t is int or t is BV:
                        return v
                elif tc < 3:
                    if t is float or t is F:
                        return v
                else:
                    return v
            return self.load_slow(st, p, tc, size)
        return self.load_sym(st, p, tc, size)

    def load_slow(self, st, p, tc, size):
        o = st.mem[p.o]
        off = p.off
        if off < 0 or off + size > o.size:
            self.oblige(st, "memory", 0, "out-of-bounds read of %d bytes at offset %d of %s (%d bytes) in %s" % (size, off, o.name, o.size, self.where()))
            raise PathDead()
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], tc, size)
        parts = [k for k in range(off - 15, off + size) if k in o.cells and k + o.cells[k][0] > off]
        if not parts:
            if o.default == 0:
                return 0.0 if tc in (1, 2) else 0
            v = self.undef(tc, size)
            o2 = self.own(st, p.o)
            self.raw_store(o2, off, size, v)
            return v
        # composite
        if size == 8 and parts == [off, off + 4] and o.cells[off][0] == 4 and o.cells[off + 4][0] == 4:
            lo = self.conv(o.cells[off][1], 0, 4)
            hi = self.conv(o.cells[off + 4][1], 0, 4)
            return self.conv(T.concat(64, lo, 32, hi, 32), tc, size)
        if size == 8 and all(o.cells[k][0] == 4 for k in parts):
            lo = self.load(st, Ptr(p.o, off), 0, 4)
            hi = self.load(st, Ptr(p.o, off + 4), 0, 4)
            return self.conv(T.concat(64, lo, 32, hi, 32), tc, size)
        if len(parts) == 1:
            k = parts[0]
            s, v = o.cells[k]
            if k <= off and k + s >= off + size:
                b = self.conv(v, 0, s)
                return self.conv(T.trunc(size * 8, s * 8, T.bvop("lshr", s * 8, b, 8 * (off - k))), tc, size)
        bs = []
        for j in range(size):
            b = self.load(st, Ptr(p.o, off + j), 0, 1) if off + j in o.cells and o.cells[off + j][0] == 1 else None
            if b is None:
                hit = [k for k in parts if k <= off + j < k + o.cells[k][0]]
                if hit:
                    s, v = o.cells[hit[0]]
                    b = self.to_bytes(v, s)[off + j - hit[0]]
                elif o.default == 0:
                    b = 0
                else:
                    b = self.undef(0, 1)
            bs.append(b)
        if all(isinstance(b, int) for b in bs):
            return self.conv(sum(b << (8 * j) for j, b in enumerate(bs)), tc, size)
        v = 0
        for j, b in enumerate(bs):
            v = T.bvop("or", size * 8, v, T.bvop("shl", size * 8, T.zext(size * 8, 8, b), 8 * j))
        return self.conv(v, tc, size)

    def conv(self, v, tc, size):
        if tc == 0:
            if isinstance(v, (float, F)):
                return T.fbits(size * 8, v)
            if isinstance(v, Ptr):
                return v
            return v
        if tc in (1, 2):
            if isinstance(v, (int, BV)):
                return T.bits_to_f(size * 8, v)
            return v
        return v

    def candidates(self, off, lo, hi, step):
        """possible values of a symbolic 64-bit offset"""
        if off.tab is not None:
            return sorted(set(int(x) for x in T.sarr(off.tab, 64)))
        lo = max(lo, off.slo); hi = min(hi, off.shi)
        if hi - lo > 70000:
            raise Unsupported("symbolic address range too large")
        mod = step
        base = self.offset_residue(off, step)
        if base is None:
            return list(range(lo, hi + 1))
        s = lo + ((base - lo) % step)
        return list(range(s, hi + 1, step))

    def offset_residue(self, off, step):
        if step == 1:
            return 0
        if isinstance(off, int):
            return off % step
        if off.tab is not None:
            s = set(int(x) % step for x in T.sarr(off.tab, 64))
            return s.pop() if len(s) == 1 else None
        if off.op == "add":
            a = self.offset_residue(off.args[0], step)
            b = self.offset_residue(off.args[1], step)
            return None if a is None or b is None else (a + b) % step
        if off.op == "mul" and isinstance(off.args[1], int) and off.args[1] % step == 0:
            return 0
        if off.op == "shl" and isinstance(off.args[1], int) and (1 << off.args[1]) % step == 0:
            return 0
        if off.op == "ite":
            a = self.offset_residue(off.args[1], step)
            b = self.offset_residue(off.args[2], step)
            return a if a == b else None
        return None

    def load_sym(self, st, p, tc, size):
        if type(p) is PSel:
            c = restrict(p.c, st.fixed)
            if isinstance(c, int):
                return self.load(st, p.a if c else p.b, tc, size)
            return self.merge_val(c, self.load(st, p.a, tc, size), self.load(st, p.b, tc, size), tc, size)
        if type(p) is not Ptr:
            self.oblige(st, "memory", 0, "read through an invalid pointer (%r) in %s" % (p, self.where()))
            raise PathDead()
        o = st.mem[p.o]
        off = restrict(p.off, st.fixed)
        if isinstance(off, int):
            return self.load(st, Ptr(p.o, T.sgn(off, 64)), tc, size)
        lim = o.size - size
        if off.slo < 0 or off.shi > lim:
            ok = T.bvand(1, T.icmp("sge", 64, off, 0), T.icmp("sle", 64, off, lim & ((1 << 64) - 1)))
            ok = restrict(ok, st.fixed)
            self.oblige(st, "memory", ok, "out-of-bounds read of %s (%d bytes) in %s" % (o.name, o.size, self.where()))
            if isinstance(ok, int) and not ok:
                raise PathDead()
        cand = [x for x in self.candidates(off, 0, lim, size) if 0 <= x <= lim]
        if not cand:
            raise PathDead()
        vals = [self.load(st, Ptr(p.o, x), tc, size) for x in cand]
        w = size * 8
        if off.tab is not None:
            if tc == 0 and all(isinstance(v, int) for v in vals):
                d = dict(zip(cand, vals))
                arr = np.array([d.get(int(x), 0) for x in T.sarr(off.tab, 64)], dtype=np.uint64)
                return T.mk_tab(w, off.vars, arr)
            if tc in (1, 2) and all(isinstance(v, float) for v in vals):
                d = dict(zip(cand, vals))
                arr = np.array([d.get(int(x), 0.0) for x in T.sarr(off.tab, 64)])
                return T.from_table(off.vars, arr)
            r = vals[-1]
            for x, v in zip(cand[-2::-1], vals[-2::-1]):
                r = self.merge_val(T.icmp("eq", 64, off, x), v, r, tc, size)
            return r
        if tc == 0 and all(isinstance(v, int) for v in vals):
            return T.lut(w, off, dict(zip(cand, vals)))
        if tc in (1, 2) and all(isinstance(v, float) for v in vals):
            return T.atom_f(T.opaque("flut", (off, tuple(zip(cand, vals))), min(vals), max(vals)))
        if len(cand) > 600:
            raise Unsupported("symbolic load over %d cells" % len(cand))
        r = vals[-1]
        for x, v in zip(cand[-2::-1], vals[-2::-1]):
            r = self.merge_val(T.icmp("eq", 64, off, x & ((1 << 64) - 1)), v, r, tc, size)
        return r

    def store(self, st, p, v, size):
        if type(p) is Ptr and type(p.off) is int:
            o = st.mem[p.o]
            off = p.off
            if off < 0 or off + size > o.size:
                self.oblige(st, "memory", 0, "out-of-bounds write of %d bytes at offset %d of %s (%d bytes) in %s" % (size, off, o.name, o.size, self.where()))
                raise PathDead()
            if o.const:
                self.oblige(st, "memory", 0, "write to constant %s in %s" % (o.name, self.where()))
                raise PathDead()
            if o.owner is not st.token:
                o = self.own(st, p.o)
            if o.gran == size and off % size == 0:
                o.cells[off] = (size, v)
            else:
                self.raw_store(o, off, size, v)
            return
        if type(p) is PSel:
            c = restrict(p.c, st.fixed)
            if isinstance(c, int):
                return self.store(st, p.a if c else p.b, v, size)
            tc = self.tc_of(v)
            for q, cc in ((p.a, c), (p.b, T.bvnot1(c))):
                if type(q) is not Ptr and type(q) is not PSel:
                    self.oblige(st, "memory", T.bvnot1(cc), "write through an invalid pointer in %s" % self.where())
                    continue
                old = self.load(st, q, tc, size)
                self.store(st, q, self.merge_val(cc, v, old, tc, size), size)
            return
        if type(p) is not Ptr:
            self.oblige(st, "memory", 0, "write through an invalid pointer (%r) in %s" % (p, self.where()))
            raise PathDead()
        o = st.mem[p.o]
        off = restrict(p.off, st.fixed)
        if isinstance(off, int):
            return self.store(st, Ptr(p.o, T.sgn(off, 64)), v, size)
        lim = o.size - size
        if off.slo < 0 or off.shi > lim:
            ok = T.bvand(1, T.icmp("sge", 64, off, 0), T.icmp("sle", 64, off, lim & ((1 << 64) - 1)))
            ok = restrict(ok, st.fixed)
            self.oblige(st, "memory", ok, "out-of-bounds write of %s (%d bytes) in %s" % (o.name, o.size, self.where()))
            if isinstance(ok, int) and not ok:
                raise PathDead()
        tc = self.tc_of(v)
        cand = [x for x in self.candidates(off, 0, lim, size) if 0 <= x <= lim]
        if len(cand) > 600:
            raise Unsupported("symbolic store over %d cells" % len(cand))
        for x in cand:
            q = Ptr(p.o, x)
            old = self.load(st, q, tc, size)
            self.store(st, q, self.merge_val(T.icmp("eq", 64, off, x), v, old, tc, size), size)

    def tc_of(self, v):
        return 1 if isinstance(v, (float, F)) else (3 if isinstance(v, (Ptr, PSel)) else 0)

    def merge_val(self, c, a, b, tc, size):
        if a is b:
            return a
        if isinstance(a, (float, F)) or isinstance(b, (float, F)):
            if isinstance(a, (int, BV)):
                a = T.bits_to_f(size * 8, a)
            if isinstance(b, (int, BV)):
                b = T.bits_to_f(size * 8, b)
            return T.fite(c, a, b)
        if isinstance(a, (Ptr, PSel)) or isinstance(b, (Ptr, PSel)):
            if type(a) is Ptr and type(b) is Ptr and a.o == b.o:
                if type(a.off) is int and type(b.off) is int and a.off == b.off:
                    return a
                M = (1 << 64) - 1
                return Ptr(a.o, T.ite(c, a.off & M if type(a.off) is int else a.off, b.off & M if type(b.off) is int else b.off, 64))
            return PSel(c, a, b)
        if isinstance(a, list):
            return [self.merge_val(c, x, y, tc, size // len(a)) for x, y in zip(a, b)]
        if isinstance(a, tuple) and a == b:
            return a
        if isinstance(a, tuple) or isinstance(b, tuple):
            return PSel(c, a, b)
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)):
            return T.ite(c, a, b, size * 8)
        raise Unsupported("merge %r %r" % (a, b))

    # ------------------------------------------------------------ path condition
    def add_pc(self, st, c):
        """False when the path becomes infeasible"""
        if isinstance(c, int):
            return bool(c)
        c = restrict(c, st.fixed)
        if isinstance(c, int):
            return bool(c)
        # joint feasibility with overlapping recorded conditions
        sup = c
        pc = st.pc
        n = 0
        while pc is not None and n < 40:
            d = pc[1]
            n += 1
            if isinstance(d, BV) and set(d.vars) & set(sup.vars):
                d = restrict(d, st.fixed)
                if isinstance(d, BV) and len(T.union(d.vars, sup.vars)) <= T.KMAX:
                    sup = T.bvop("and", 1, sup, d)
                    if isinstance(sup, int):
                        return bool(sup)
            pc = pc[0]
        st.pc = (st.pc, c)
        sat = np.nonzero(sup.tab)[0]
        for j, v in enumerate(sup.vars):
            b = (sat >> j) & 1
            if b[0] == 1 and b.all():
                st.fixed[v] = 1
            elif b[0] == 0 and not b.any():
                st.fixed[v] = 0
        return True

    def decide(self, st, c):
        """branch condition under the path condition: 0, 1 or the restricted term"""
        if isinstance(c, int):
            return c
        c = restrict(c, st.fixed)
        if isinstance(c, int):
            return c
        sup = None
        pc = st.pc
        n = 0
        while pc is not None and n < 40:
            d = pc[1]
            n += 1
            if isinstance(d, BV) and set(d.vars) & set(c.vars):
                d = restrict(d, st.fixed)
                if isinstance(d, BV) and len(T.union(d.vars, c.vars if sup is None else T.union(sup.vars, c.vars))) <= T.KMAX:
                    sup = d if sup is None else T.bvop("and", 1, sup, d)
                    if isinstance(sup, int):
                        break
            pc = pc[0]
        if isinstance(sup, BV):
            a = T.bvop("and", 1, sup, c)
            if isinstance(a, int) and a == 0:
                return 0
            if a is sup:
                return 1
        return c

    # ------------------------------------------------------------ functions
    def get_fn(self, name):
        f = self.fns.get(name)
        if f is None:
            cache = self.mod.__dict__.setdefault("fncache", {})
            f = cache.get((name, self.ub))
            if f is None:
                f = cache[(name, self.ub)] = compile_fn(self, self.mod.functions[name])
            self.fns[name] = f
        return f

    def call_ind(self, st, f, args):
        if isinstance(f, tuple) and f[0] == "fn":
            return self.call(st, f[1], args)
        raise Unsupported("indirect call through %s" % type(f).__name__)

    def call(self, st, name, args):
        if name == "sv_thread":         # run args[0] with a new thread's copy of every thread-local variable
            saved = {}
            for oid, o in self.tls.items():
                saved[oid] = st.mem[oid]
                st.mem[oid] = o
            r, st = self.call_ind(st, args[0], [])
            st.mem.update(saved)
            return r, st
        s = self.stubs.get(name)
        if s is not None:
            return s(self, st, args)
        if name in self.mod.functions:
            fn = self.get_fn(name)
            self.calls[name] = self.calls.get(name, 0) + 1
            E = [None] * fn.nslots
            for i, a in enumerate(args[:fn.nparams]):
                E[i] = a
            saved = getattr(self, "curfn", None)
            self.curfn = name
            st = self.run(fn, E, st, fn.entry, EXIT, {})
            self.curfn = saved
            if st is None:
                raise PathDead()
            return E[fn.retslot], st
        i = INTRINSICS.get(name)
        if i is None:
            m = name.split(".")
            for k in range(len(m), 1, -1):
                i = INTRINSICS.get(".".join(m[:k]))
                if i:
                    break
        if i is None:
            raise Unsupported("call to external function %s" % name)
        return i(self, st, args), st

    def run(self, fn, E, st, blk, stop, forkc):
        code = fn.code
        while blk is not stop:
            self.blocks += 1
            if self.blocks > self.max_blocks:
                raise Budget("block budget exceeded in %s" % fn.name)
            st, t = code[blk](self, E, st)
            if type(t) is str:
                mv = fn.edges[blk].get(t)
                if mv:
                    mv(E)
                blk = t
                continue
            # symbolic multi-way branch: list of (cond, target)
            saved = self.curfn
            ip = fn.ipdom[blk]
            alts = t
            st = self.fork(fn, E, st, blk, ip, alts, forkc)
            self.curfn = saved
            if st is None:
                return None
            blk = ip
        return st

    def fork(self, fn, E, st, blk, ip, alts, forkc):
        """alts: [(cond, target)...], the last with cond None (otherwise)"""
        (c, tgt) = alts[0]
        c = self.decide(st, c)
        if not isinstance(c, int) and forkc.get(blk, 0) >= 2 and self.feas is not None:
            c = self.feas(st, c)
        rest = alts[1:]

        def go(s, E2, target, fc):
            mv = fn.edges[blk].get(target)
            if mv:
                mv(E2)
            return self.run(fn, E2, s, target, ip, fc)

        if isinstance(c, int):
            if c:
                return go(st, E, tgt, forkc)
            if len(rest) == 1:
                return go(st, E, rest[0][1], forkc)
            return self.fork(fn, E, st, blk, ip, rest, forkc)
        if c.und:
            self.undef_branches.append((st.pc, c, "branch depends on uninitialised memory in %s" % fn.name))
        self.forks += 1
        fc = dict(forkc)
        fc[blk] = fc.get(blk, 0) + 1
        sa, sb = st.fork(), st.fork()
        EA, EB = list(E), list(E)
        ra = rb = None
        cur = self.curfn
        if self.add_pc(sa, c):
            try:
                ra = go(sa, EA, tgt, fc)
            except PathDead:
                ra = None
        self.curfn = cur
        if self.add_pc(sb, T.bvnot1(c)):
            try:
                if len(rest) == 1:
                    rb = go(sb, EB, rest[0][1], fc)
                else:
                    rb = self.fork(fn, EB, sb, blk, ip, rest, fc)
            except PathDead:
                rb = None
        self.curfn = cur
        if ra is None and rb is None:
            return None
        if ra is None:
            E[:] = EB
            return rb
        if rb is None:
            E[:] = EA
            return ra
        # merge
        m = State()
        m.pc = st.pc
        m.fixed = st.fixed
        tys = fn.slot_ty
        live = fn.live.get(ip, (fn.retslot,))
        for i in range(len(E)):
            a, b = EA[i], EB[i]
            if a is b:
                E[i] = a
            elif i not in live:
                E[i] = None         # never read again before being assigned
            elif a is None:
                E[i] = b
            elif b is None:
                E[i] = a
            else:
                E[i] = self.merge_ty(c, a, b, tys[i])
        mem = {}
        ma, mb = ra.mem, rb.mem
        for k, oa in ma.items():
            ob = mb.get(k)
            if ob is None or oa is ob:
                mem[k] = oa
            else:
                mem[k] = self.merge_obj(c, oa, ob, m)
        for k, ob in mb.items():
            if k not in ma:
                mem[k] = ob
        m.mem = mem
        return m

    def merge_ty(self, c, a, b, ty):
        if ty[0] == "i":
            if isinstance(a, (Ptr, PSel)) or isinstance(b, (Ptr, PSel)):
                return self.merge_val(c, a, b, 3, 8)
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            return T.ite(c, a, b, ty[1])
        if ty[0] in ("f", "d"):
            return T.fite(c, a, b)
        if ty[0] == "p":
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            return self.merge_val(c, a, b, 3, 8)
        if ty[0] == "vec":
            return [self.merge_ty(c, x, y, ty[2]) for x, y in zip(a, b)]
        if ty[0] == "st":
            return [self.merge_ty(c, x, y, t) for x, y, t in zip(a, b, ty[1])]
        raise Unsupported("merge type %r" % (ty,))

    def merge_obj(self, c, oa, ob, st):
        n = Obj(oa.size, oa.default, oa.name, oa.const)
        n.owner = st.token
        n.gran = oa.gran if oa.gran == ob.gran else 0
        ca, cb = oa.cells, ob.cells
        if ca.keys() != cb.keys() and (oa.gran != ob.gran or not oa.gran):
            # mixed granularity: bring both to a common layout
            ca, cb = self.align_cells(oa, ob)
        cells = n.cells
        for k, va in ca.items():
            vb = cb.get(k)
            if vb is va:
                cells[k] = va
                continue
            if vb is None:
                vb = (va[0], self.default_val(ob, va))
            if va[0] != vb[0]:
                raise Unsupported("merge of cells with different sizes in %s" % oa.name)
            cells[k] = (va[0], self.merge_val(c, va[1], vb[1], 0, va[0]))
        for k, vb in cb.items():
            if k not in ca:
                cells[k] = (vb[0], self.merge_val(c, self.default_val(oa, vb), vb[1], 0, vb[0]))
        return n

    def align_cells(self, oa, ob):
        ca, cb = dict(oa.cells), dict(ob.cells)
        keys = sorted(set(ca) | set(cb))
        for k in keys:
            a, b = ca.get(k), cb.get(k)
            if a is not None and b is not None and a[0] != b[0]:
                big, sm = (ca, cb) if a[0] > b[0] else (cb, ca)
                s, v = big[k]
                t = sm[k][0]
                v = self.conv(v, 0, s)
                del big[k]
                for j in range(0, s, t):
                    big[k + j] = (t, T.trunc(t * 8, s * 8, T.bvop("lshr", s * 8, v, 8 * j)))
        return ca, cb

    def default_val(self, o, like):
        s, v = like
        if o.default == 0:
            return 0.0 if isinstance(v, (float, F)) else 0
        if isinstance(v, (Ptr, PSel)):
            return 0
        return self.undef(1 if isinstance(v, (float, F)) else 0, s)

    # ------------------------------------------------------------ ub helpers
    def nsw(self, st, op, w, a, b, unsigned=False):
        if isinstance(a, int) and isinstance(b, int):
            x, y = T.sgn(a, w), T.sgn(b, w)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                self.oblige(st, "overflow", 0, "signed overflow (%s) in %s" % (op, self.where()))
            return T._int_op(op, w, a, b)
        if isinstance(a, (Ptr, PSel)) or isinstance(b, (Ptr, PSel)):
            return self.ptr_arith(st, op, a, b)
        al, ah = T.rng(a, w); bl, bh = T.rng(b, w)
        if op == "add": lo, hi = al + bl, ah + bh
        elif op == "sub": lo, hi = al - bh, ah - bl
        else:
            ps = (al * bl, al * bh, ah * bl, ah * bh)
            lo, hi = min(ps), max(ps)
        if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
            w2 = w * 2 if w < 64 else 64
            if w2 <= 64 and w < 64:
                x, y = T.sext(w2, w, a), T.sext(w2, w, b)
                r = T.bvop(op, w2, x, y)
                ok = T.bvand(1, T.icmp("sge", w2, r, (-(1 << (w - 1))) & ((1 << w2) - 1)), T.icmp("sle", w2, r, (1 << (w - 1)) - 1))
                self.oblige(st, "overflow", ok, "signed overflow (%s) in %s" % (op, self.where()))
        return T.bvop(op, w, a, b)

    def dimcheck(self, st, w, i, lim):
        if isinstance(i, int):
            if not 0 <= T.sgn(i, w) <= lim:
                self.oblige(st, "memory", 0, "array index %d outside 0..%d in %s" % (T.sgn(i, w), lim, self.where()))
            return
        if not isinstance(i, BV):
            return
        if i.slo < 0 or i.shi > lim:
            ok = T.bvand(1, T.icmp("sge", w, i, 0), T.icmp("sle", w, i, lim))
            self.oblige(st, "memory", ok, "array index outside 0..%d in %s" % (lim, self.where()))

    def shiftcheck(self, st, w, b):
        if isinstance(b, int):
            if b >= w:
                self.oblige(st, "shift", 0, "shift by %d bits in %s" % (b, self.where()))
        elif b.slo < 0 or b.shi >= w:
            self.oblige(st, "shift", T.icmp("ult", w, b, w), "shift amount out of range in %s" % self.where())

    def divcheck(self, st, w, b):
        if isinstance(b, int):
            if b == 0:
                self.oblige(st, "div", 0, "division by zero in %s" % self.where())
                raise PathDead()
        elif b.slo <= 0 <= b.shi:
            self.oblige(st, "div", T.icmp("ne", w, b, 0), "division by zero in %s" % self.where())

    def fptoi(self, st, w, f, signed):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if type(f) is float:
            if f != f or not lo - 1 < f < hi + 1:
                self.oblige(st, "fptoint", 0, "float-to-integer conversion of %r out of range in %s" % (f, self.where()))
                return 0 if f != f or abs(f) > 1e18 else int(f) & ((1 << w) - 1)
            return int(f) & ((1 << w) - 1)
        a, b = T.frange(f)
        if not (a > lo - 1 and b < hi + 1):
            ok = T.bvand(1, T.fcmp("gt", f, float(lo - 1)), T.fcmp("lt", f, float(hi + 1)))
            self.oblige(st, "fptoint", ok, "float-to-integer conversion out of range in %s" % self.where())
        return T.fptoint(w, f, signed)

    # ------------------------------------------------------------ pointers
    def padd(self, p, k):
        if type(p) is Ptr:
            if type(p.off) is int:
                return Ptr(p.o, p.off + k)
            return Ptr(p.o, T.bvop("add", 64, p.off, k & ((1 << 64) - 1)))
        if type(p) is PSel:
            return PSel(p.c, self.padd(p.a, k), self.padd(p.b, k))
        if isinstance(p, int):
            return (p + k) & ((1 << 64) - 1)
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def padds(self, p, idx, w, scale):
        """p + idx*scale with a possibly symbolic index of width w"""
        if type(idx) is int:
            return self.padd(p, T.sgn(idx, w) * scale)
        i64 = T.sext(64, w, idx)
        d = T.bvop("mul", 64, i64, scale)
        if type(p) is PSel:
            return PSel(p.c, self.padds(p.a, idx, w, scale), self.padds(p.b, idx, w, scale))
        if type(p) is Ptr:
            base = p.off & ((1 << 64) - 1) if type(p.off) is int else p.off
            off = T.bvop("add", 64, d, base)
            return Ptr(p.o, T.sgn(off, 64) if isinstance(off, int) else off)
        raise Unsupported("symbolic index on %r" % (p,))

    BASE = 1 << 40

    def ptrtoint(self, p):
        if type(p) is Ptr:
            if type(p.off) is int:
                return (p.o * self.BASE + p.off) & ((1 << 64) - 1)
            return T.bvop("add", 64, p.off, p.o * self.BASE)
        if type(p) is PSel:
            return T.ite(p.c, self.ptrtoint(p.a), self.ptrtoint(p.b), 64)
        return p

    def inttoptr(self, v):
        if isinstance(v, int):
            if v < self.BASE:
                return v
            o = (v + (1 << 30)) // self.BASE
            return Ptr(o, v - o * self.BASE)
        raise Unsupported("symbolic integer to pointer")

    def pcmp(self, pred, a, b):
        if type(a) is PSel:
            return T.ite(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b), 1)
        if type(b) is PSel:
            return T.ite(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b), 1)
        if type(a) is Ptr and type(b) is Ptr and a.o == b.o:
            x = a.off & ((1 << 64) - 1) if type(a.off) is int else a.off
            y = b.off & ((1 << 64) - 1) if type(b.off) is int else b.off
            return T.icmp(pred, 64, x, y)
        if pred in ("eq", "ne"):
            same = isinstance(a, (int, tuple)) and a == b
            return int(same == (pred == "eq"))
        return T.icmp(pred, 64, self.ptrtoint(a), self.ptrtoint(b))


# ---------------------------------------------------------------------------------- instruction helpers
def f_bin(op, a, b, dbl):
    if type(a) is float and type(b) is float:
        if op == "fdiv":
            if b == 0.0:
                if a == 0.0 or a != a:
                    return math.nan
                return math.copysign(INF, a) * math.copysign(1.0, b)
            r = a / b
        elif op == "fadd": r = a + b
        elif op == "fsub": r = a - b
        elif op == "fmul": r = a * b
        else: r = math.fmod(a, b)
        return r if dbl else r32(r)
    if op == "fadd": return T.fadd(a, b)
    if op == "fsub": return T.fsub(a, b)
    if op == "fmul": return T.fmul(a, b)
    if op == "fdiv": return T.fdiv(a, b)
    if op == "frem": return T.ffmod(a, b)
    raise Unsupported(op)


FPRED = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "lt", "ult": "lt", "ole": "le", "ule": "le", "ogt": "gt", "ugt": "gt", "oge": "ge", "uge": "ge"}


def f_cmp(pred, a, b):
    if pred in ("ord", "uno"):
        nan = (type(a) is float and a != a) or (type(b) is float and b != b)
        return int(nan == (pred == "uno"))
    if type(a) is float and type(b) is float:
        if a != a or b != b:
            return int(pred[0] == "u")
    return T.fcmp(FPRED[pred], a, b)


def vbitcast(v, t1, t2):
    """bitcast between vectors / scalars"""
    def lanes(v, t):
        if t[0] == "vec":
            return list(v), t[2]
        return [v], t
    ls, e1 = lanes(v, t1)
    s1 = llir.sizeof(e1) * 8
    e2 = t2[2] if t2[0] == "vec" else t2
    s2 = llir.sizeof(e2) * 8
    ints = [T.fbits(s1, x) if e1[0] in ("f", "d") else x for x in ls]
    if s1 < s2:
        k = s2 // s1
        out = []
        for i in range(0, len(ints), k):
            x = ints[i]
            w = s1
            for j in range(1, k):
                x = T.concat(w + s1, x, w, ints[i + j], s1)
                w += s1
            out.append(x)
        ints = out
    elif s1 > s2:
        k = s1 // s2
        out = []
        for x in ints:
            for j in range(k):
                out.append(T.trunc(s2, s1, T.bvop("lshr", s1, x, s2 * j)))
        ints = out
    res = [T.bits_to_f(s2, x) if e2[0] in ("f", "d") else x for x in ints]
    return res if t2[0] == "vec" else res[0]


def i_cmp(eng, pred, w, a, b):
    if isinstance(a, (Ptr, PSel)) or isinstance(b, (Ptr, PSel)):
        return eng.pcmp(pred, a, b)
    return T.icmp(pred, w, a, b)


def sel(eng, c, a, b, ty):
    if isinstance(c, int):
        return a if c else b
    return eng.merge_ty(c, a, b, ty)


# ---------------------------------------------------------------------------------- compilation of a function
def operand(ctx, o, ty):
    k = o[0]
    if k == "l":
        return "E[%d]" % ctx.slot(o[1])
    if k == "c":
        v = o[1]
        if isinstance(v, int):
            return repr(v)
        if isinstance(v, float):
            if v != v or v in (INF, -INF):
                return ctx.const(v)
            return repr(v)
        if isinstance(v, list):
            v = [ctx.lane(x, ty) for x in v]
        return ctx.const(v)
    if k == "g":
        return ctx.const(Ptr(ctx.eng.gp[o[1]], o[2]))
    if k == "fn":
        return ctx.const(("fn", o[1]))
    if k == "undef":
        return ctx.const(undef_const(o[1]))
    if k == "agg":
        raise Unsupported("aggregate operand")
    raise Unsupported("operand %r" % (o,))


def undef_const(ty):
    k = ty[0]
    if k in ("i", "p"): return 0
    if k in ("f", "d"): return 0.0
    if k == "vec": return [undef_const(ty[2])] * ty[1]
    if k == "st": return [undef_const(t) for t in ty[1]]
    raise Unsupported("undef %r" % (ty,))


class Ctx:
    def __init__(self, eng, f):
        self.eng = eng
        self.f = f
        self.slots = {}
        self.tys = []
        self.consts = []

    def slot(self, n, ty=None):
        i = self.slots.get(n)
        if i is None:
            i = self.slots[n] = len(self.tys)
            self.tys.append(ty)
        elif ty is not None and self.tys[i] is None:
            self.tys[i] = ty
        return i

    def const(self, v):
        self.consts.append(v)
        return "K[%d]" % (len(self.consts) - 1)

    def lane(self, x, ty):
        if isinstance(x, tuple) and x[0] == "undef":
            return undef_const(x[1])
        return x


CMPS = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}


def compile_fn(eng, f):
    cx = Ctx(eng, f)
    cx.deref = set()
    if eng.ub:
        for b in f.order:
            for ins in f.blocks[b]:
                q = ins[3] if ins[1] == "load" else ins[4] if ins[1] == "store" else None
                if q is not None and q[0] == "l":
                    cx.deref.add(q[1])
    for n, t in f.params:
        cx.slot(n, t)
    nparams = len(f.params)
    for b in f.order:
        for ins in f.blocks[b]:
            if ins[0]:
                cx.slot(ins[0], result_type(ins))
    retslot = cx.slot("<ret>", f.ret)
    src = []
    edges = {}
    succ = {}
    for bi, b in enumerate(f.order):
        src.append("def b%d(G, E, st):" % bi)
        succ[b] = []
        n0 = len(src)
        for ins in f.blocks[b]:
            emit(eng, cx, f, b, ins, src, succ, retslot)
        if len(src) == n0:
            src.append("    pass")
    # phi moves
    labels = {b: i for i, b in enumerate(f.order)}
    for b in f.order:
        for ins in f.blocks[b]:
            if ins[1] != "phi":
                break
            for v, pred in ins[3]:
                edges.setdefault(pred, {}).setdefault(b, []).append((cx.slot(ins[0]), operand(cx, v, ins[2])))
    edefs = {}
    n = 0
    for pred in f.order:
        edefs[pred] = {}
    for pred, d in edges.items():
        for b, mv in d.items():
            src.append("def e%d(E):" % n)
            if len(mv) == 1:
                src.append("    E[%d] = %s" % mv[0])
            else:
                src.append("    %s = %s" % (", ".join("E[%d]" % m[0] for m in mv), ", ".join(m[1] for m in mv)))
            edefs[pred][b] = "e%d" % n
            n += 1
    ns = {"K": cx.consts, "T": T, "bvop": T.bvop, "BV": BV, "F": F, "r32": r32, "f_bin": f_bin, "f_cmp": f_cmp, "i_cmp": i_cmp, "sel": sel,
          "vbitcast": vbitcast, "Ptr": Ptr, "PathDead": PathDead, "zext": T.zext, "sext": T.sext, "trunc": T.trunc, "llir": llir, "math": math}
    code = compile("\n".join(src), "<%s>" % f.name, "exec")
    exec(code, ns)
    fn = Fn()
    fn.name = f.name
    fn.nslots = len(cx.tys)
    fn.nparams = nparams
    fn.retslot = retslot
    fn.slot_ty = cx.tys
    fn.entry = f.entry
    fn.code = {b: ns["b%d" % i] for i, b in enumerate(f.order)}
    # intern labels so that identity comparison works
    fn.edges = {p: {b: ns[e] for b, e in d.items()} for p, d in edefs.items()}
    fn.ipdom = ipdoms(f, succ)
    fn.succ = succ
    fn.live = liveness(f, cx, src, edges, succ, retslot)
    return fn


_use = re.compile(r"E\[(\d+)\]")
_tgt = re.compile(r"^\s*(?:(?:if|elif|else)\b.*:\s+)?E\[(\d+)\] = ")


def liveness(f, cx, src, edges, succ, retslot):
    """block -> slots read later (the phi slots of a block are assigned on its incoming edges)"""
    use, dfn, phi = {}, {}, {}
    cur = None
    bi = -1
    for l in src:
        if l.startswith("def b"):
            bi += 1
            cur = f.order[bi]
            use[cur] = set()
            dfn[cur] = {cx.slot(i[0]) for i in f.blocks[cur] if i[0] and i[1] != "phi"}
            phi[cur] = {cx.slot(i[0]) for i in f.blocks[cur] if i[0] and i[1] == "phi"}
        elif l.startswith("def e"):
            break
        else:
            m = _tgt.match(l)
            t = [int(x) for x in _use.findall(l)]
            if m:
                t.remove(int(m.group(1)))
            use[cur].update(t)
    live = {b: use[b] - dfn[b] for b in f.order}
    eu = {p: {b: {int(x) for _, o in mv for x in _use.findall(str(o))} for b, mv in d.items()} for p, d in edges.items()}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            out = set()
            for s in succ[b]:
                if s in live:
                    out |= (live[s] - phi[s]) | eu.get(b, {}).get(s, set())
            n = live[b] | (out - dfn[b])
            if len(n) != len(live[b]):
                live[b] = n
                ch = True
    for b in live:
        live[b] = live[b] | {retslot}
    return live


def ipdoms(f, succ):
    order = list(f.order)
    # reverse graph dataflow over sets, small functions only
    nodes = order + [EXIT]
    idx = {n: i for i, n in enumerate(nodes)}
    full = (1 << len(nodes)) - 1
    pd = {n: full for n in nodes}
    pd[EXIT] = 1 << idx[EXIT]
    # blocks that cannot reach exit: ignore in the meet
    reach = {EXIT}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b not in reach and any(s in reach for s in succ[b]):
                reach.add(b)
                ch = True
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            ss = [s for s in succ[b] if s in reach]
            if not ss:
                continue
            v = full
            for s in ss:
                v &= pd[s]
            v |= 1 << idx[b]
            if v != pd[b]:
                pd[b] = v
                ch = True
    ip = {}
    for b in order:
        if b not in reach:
            ip[b] = EXIT
            continue
        cand = pd[b] & ~(1 << idx[b])
        # the immediate one is post-dominated by every other candidate
        best = None
        for i, n in enumerate(nodes):
            if cand >> i & 1 and pd[n] & ~(1 << idx[b]) & full == cand & full:
                best = n
                break
        ip[b] = best if best is not None else EXIT
    return ip


def result_type(ins):
    op = ins[1]
    if op in ("icmp", "fcmp"):
        t = ins[3]
        return ("vec", t[1], ("i", 1)) if t[0] == "vec" else ("i", 1)
    if op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
        return ins[4]
    if op == "select":
        return ins[4]
    if op in ("alloca", "getelementptr"):
        return ("p",)
    if op == "extractelement":
        return ins[2][2]
    if op == "shufflevector":
        return ("vec", ins[5][1], ins[2][2])
    if op == "extractvalue":
        return ins[2][1][ins[4]]
    if op == "atomicrmw":
        return ins[3]
    if op == "cmpxchg":
        return ("st", (ins[2], ("i", 1)), False)
    return ins[2]


def emit(eng, cx, f, b, ins, src, succ, retslot):
    dst, op = ins[0], ins[1]
    A = src.append
    d = "E[%d]" % cx.slot(dst) if dst else None
    ub = eng.ub

    def opn(o, t):
        return operand(cx, o, t)

    if op == "phi":
        return
    if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
        t, a, bb, fl = ins[2], opn(ins[3], ins[2]), opn(ins[4], ins[2]), ins[5]
        if t[0] == "vec":
            A("    %s = [bvop(%r, %d, x, y) for x, y in zip(%s, %s)]" % (d, op, t[2][1], a, bb))
            return
        w = t[1]
        M = (1 << w) - 1
        A("    a = %s; b = %s" % (a, bb))
        if op in ("udiv", "sdiv", "urem", "srem"):
            A("    G.divcheck(st, %d, b)" % w)
            A("    %s = bvop(%r, %d, a, b)" % (d, op, w))
        elif op in ("shl", "lshr", "ashr"):
            if ub:
                A("    G.shiftcheck(st, %d, b)" % w)
            A("    %s = bvop(%r, %d, a, b)" % (d, op, w))
        elif "nsw" in fl and ub:
            A("    %s = G.nsw(st, %r, %d, a, b)" % (d, op, w))
        else:
            sym = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}[op]
            A("    if type(a) is int and type(b) is int: %s = (a %s b) & %d" % (d, sym, M))
            if w == 64:
                A("    elif type(a) is int or type(b) is int or (type(a) is BV and type(b) is BV): %s = bvop(%r, %d, a, b) if (type(a) is not Ptr and type(b) is not Ptr) else G.ptr_arith(st, %r, a, b)" % (d, op, w, op))
                A("    else: %s = G.ptr_arith(st, %r, a, b)" % (d, op))
            else:
                A("    else: %s = bvop(%r, %d, a, b)" % (d, op, w))
        return
    if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
        t, a, bb = ins[2], opn(ins[3], ins[2]), opn(ins[4], ins[2])
        if t[0] == "vec":
            A("    %s = [f_bin(%r, x, y, %r) for x, y in zip(%s, %s)]" % (d, op, t[2][0] == "d", a, bb))
            return
        dbl = t[0] == "d"
        if op in ("fadd", "fsub", "fmul"):
            sym = {"fadd": "+", "fsub": "-", "fmul": "*"}[op]
            A("    a = %s; b = %s" % (a, bb))
            A("    if type(a) is float and type(b) is float: %s = %s" % (d, ("a %s b" if dbl else "r32(a %s b)") % sym))
            A("    else: %s = T.%s(a, b)" % (d, op))
        else:
            A("    %s = f_bin(%r, %s, %s, %r)" % (d, op, a, bb, dbl))
        return
    if op == "fneg":
        a = opn(ins[3], ins[2])
        if ins[2][0] == "vec":
            A("    %s = [T.fneg(x) for x in %s]" % (d, a))
        else:
            A("    %s = T.fneg(%s)" % (d, a))
        return
    if op == "icmp":
        pred, t, a, bb = ins[2], ins[3], opn(ins[4], ins[3]), opn(ins[5], ins[3])
        if t[0] == "vec":
            A("    %s = [i_cmp(G, %r, %d, x, y) for x, y in zip(%s, %s)]" % (d, pred, t[2][1], a, bb))
            return
        w = 64 if t[0] == "p" else t[1]
        h = 1 << (w - 1)
        A("    a = %s; b = %s" % (a, bb))
        if pred[0] == "s":
            A("    %s = (1 if (a ^ %d) %s (b ^ %d) else 0) if type(a) is int and type(b) is int else i_cmp(G, %r, %d, a, b)" % (d, h, CMPS[pred], h, pred, w))
        else:
            A("    %s = (1 if a %s b else 0) if type(a) is int and type(b) is int else i_cmp(G, %r, %d, a, b)" % (d, CMPS[pred], pred, w))
        return
    if op == "fcmp":
        pred, t, a, bb = ins[2], ins[3], opn(ins[4], ins[3]), opn(ins[5], ins[3])
        if pred in ("true", "false"):
            A("    %s = %d" % (d, pred == "true"))
        elif t[0] == "vec":
            A("    %s = [f_cmp(%r, x, y) for x, y in zip(%s, %s)]" % (d, pred, a, bb))
        else:
            A("    %s = f_cmp(%r, %s, %s)" % (d, pred, a, bb))
        return
    if op in ("zext", "sext", "trunc"):
        t, a, t2 = ins[2], opn(ins[3], ins[2]), ins[4]
        if t[0] == "vec":
            A("    %s = [%s(%d, %d, x) for x in %s]" % (d, op, t2[2][1], t[2][1], a))
            return
        w, w2 = t[1], t2[1]
        if op == "zext":
            A("    a = %s" % a)
            A("    %s = a if type(a) is int else zext(%d, %d, a)" % (d, w2, w))
        elif op == "sext":
            A("    a = %s" % a)
            A("    %s = ((a ^ %d) - %d) & %d if type(a) is int else sext(%d, %d, a)" % (d, 1 << (w - 1), 1 << (w - 1), (1 << w2) - 1, w2, w))
        else:
            A("    a = %s" % a)
            A("    %s = a & %d if type(a) is int else trunc(%d, %d, a)" % (d, (1 << w2) - 1, w2, w))
        return
    if op in ("fptosi", "fptoui"):
        t, a, t2 = ins[2], opn(ins[3], ins[2]), ins[4]
        A("    %s = G.fptoi(st, %d, %s, %r)" % (d, t2[1], a, op == "fptosi"))
        return
    if op in ("sitofp", "uitofp"):
        t, a, t2 = ins[2], opn(ins[3], ins[2]), ins[4]
        if t[0] == "vec":
            A("    %s = [T.inttofp(%d, x, %r) for x in %s]" % (d, t[2][1], op == "sitofp", a))
        else:
            A("    a = T.inttofp(%d, %s, %r)" % (t[1], a, op == "sitofp"))
            A("    %s = %s" % (d, "a" if t2[0] == "d" else "r32(a) if type(a) is float else a"))
        return
    if op in ("fpext",):
        A("    %s = %s" % (d, opn(ins[3], ins[2])))
        return
    if op == "fptrunc":
        A("    a = %s" % opn(ins[3], ins[2]))
        A("    %s = r32(a) if type(a) is float else a" % d)
        return
    if op == "bitcast":
        t, a, t2 = ins[2], opn(ins[3], ins[2]), ins[4]
        A("    %s = vbitcast(%s, %s, %s)" % (d, a, cx.const(t), cx.const(t2)))
        return
    if op == "ptrtoint":
        A("    %s = G.ptrtoint(%s)" % (d, opn(ins[3], ins[2])))
        return
    if op == "inttoptr":
        A("    %s = G.inttoptr(%s)" % (d, opn(ins[3], ins[2])))
        return
    if op == "select":
        ct, c, t, a, bb = ins[2], opn(ins[3], ins[2]), ins[4], opn(ins[5], ins[4]), opn(ins[6], ins[4])
        if ct[0] == "vec":
            A("    %s = [sel(G, c, x, y, %s) for c, x, y in zip(%s, %s, %s)]" % (d, cx.const(t[2]), c, a, bb))
        else:
            A("    %s = sel(G, %s, %s, %s, %s)" % (d, c, a, bb, cx.const(t)))
        return
    if op == "alloca":
        t, n = ins[2], opn(ins[3], ("i", 64))
        A("    %s = Ptr(G.new_obj(st, %d * %s, None, %r), 0)" % (d, llir.sizeof(t), n, "%s:%s" % (f.name, dst)))
        return
    if op == "load":
        t, p = ins[2], opn(ins[3], ("p",))
        if t[0] == "vec":
            es = llir.sizeof(t[2])
            A("    p = %s" % p)
            A("    %s = [G.load(st, G.padd(p, i * %d), %d, %d) for i in range(%d)]" % (d, es, TC[t[2][0]], es, t[1]))
            return
        if t[0] == "i" and t[1] not in (8, 16, 32, 64):
            A("    %s = trunc(%d, %d, G.load(st, %s, 0, %d))" % (d, t[1], llir.sizeof(t) * 8, p, llir.sizeof(t)))
            return
        A("    %s = G.load(st, %s, %d, %d)" % (d, p, TC[t[0]], llir.sizeof(t)))
        return
    if op == "store":
        t, v, p = ins[2], opn(ins[3], ins[2]), opn(ins[4], ("p",))
        if t[0] == "vec":
            es = llir.sizeof(t[2])
            A("    p = %s" % p)
            A("    for i, x in enumerate(%s): G.store(st, G.padd(p, i * %d), x, %d)" % (v, es, es))
            return
        if t[0] == "i" and t[1] not in (8, 16, 32, 64):
            A("    G.store(st, %s, zext(%d, %d, %s), %d)" % (p, llir.sizeof(t) * 8, t[1], v, llir.sizeof(t)))
            return
        A("    G.store(st, %s, %s, %d)" % (p, v, llir.sizeof(t)))
        return
    if op == "getelementptr":
        t, p, idx = ins[2], opn(ins[3], ("p",)), ins[4]
        k = 0
        dyn = []
        cur = t
        if ub:
            c2 = t
            for j, (it, v) in enumerate(idx):
                if j == 0:
                    continue
                if c2[0] == "st":
                    c2 = c2[1][v[1]]
                    continue
                if c2[0] == "arr" and c2[1] > 0:
                    lim = c2[1] if j == len(idx) - 1 and dst not in cx.deref else c2[1] - 1
                    if v[0] != "c" or not 0 <= T.sgn(v[1], it[1]) <= lim:
                        A("    G.dimcheck(st, %d, %s, %d)" % (it[1], opn(v, it), lim))
                c2 = c2[2]
        for j, (it, v) in enumerate(idx):
            if j == 0:
                sc = llir.sizeof(t)
            elif cur[0] == "st":
                i = v[1]
                k += llir.layout(cur)[0][i]
                cur = cur[1][i]
                continue
            else:
                cur = cur[2]
                sc = llir.sizeof(cur)
            if v[0] == "c":
                k += T.sgn(v[1], it[1]) * sc
            else:
                dyn.append((opn(v, it), it[1], sc))
        A("    p = %s" % p)
        if len(dyn) == 0:
            A("    %s = Ptr(p.o, p.off + %d) if type(p) is Ptr and type(p.off) is int else G.padd(p, %d)" % (d, k, k))
        else:
            if len(dyn) == 1:
                v, w, sc = dyn[0]
                h = 1 << (w - 1)
                A("    i = %s" % v)
                A("    if type(i) is int and type(p) is Ptr and type(p.off) is int: %s = Ptr(p.o, p.off + %d + ((i ^ %d) - %d) * %d)" % (d, k, h, h, sc))
                A("    else: %s = G.padds(%s, i, %d, %d)" % (d, "G.padd(p, %d)" % k if k else "p", w, sc))
            else:
                if k:
                    A("    p = G.padd(p, %d)" % k)
                for v, w, sc in dyn:
                    A("    p = G.padds(p, %s, %d, %d)" % (v, w, sc))
                A("    %s = p" % d)
        return
    if op == "br":
        succ[b].append(ins[2])
        A("    return st, %s" % cx.const(label(f, ins[2])))
        return
    if op == "cbr":
        succ[b] += [ins[3], ins[4]]
        t, e = cx.const(label(f, ins[3])), cx.const(label(f, ins[4]))
        A("    c = %s" % opn(ins[2], ("i", 1)))
        if ins[3] == ins[4]:
            A("    return st, %s" % t)
            return
        A("    if type(c) is int: return st, (%s if c else %s)" % (t, e))
        A("    return st, [(c, %s), (None, %s)]" % (t, e))
        return
    if op == "switch":
        t, v, dflt, cases = ins[2], opn(ins[3], ins[2]), ins[4], ins[5]
        succ[b] += [dflt] + [c[1] for c in cases]
        tab = cx.const({k: label(f, l) for k, l in cases})
        dl = cx.const(label(f, dflt))
        A("    v = %s" % v)
        A("    if type(v) is int: return st, %s.get(v, %s)" % (tab, dl))
        A("    d = {}")
        A("    for k, l in %s.items():" % tab)
        A("        d.setdefault(l, []).append(k)")
        A("    alts = []")
        A("    for l, ks in d.items():")
        A("        c = 0")
        A("        for k in ks: c = bvop('or', 1, c, T.icmp('eq', %d, v, k))" % t[1])
        A("        alts.append((c, l))")
        A("    alts.append((None, %s))" % dl)
        A("    return st, alts")
        return
    if op == "ret":
        succ[b].append(EXIT)
        if ins[3] is not None:
            A("    E[%d] = %s" % (retslot, opn(ins[3], ins[2])))
        A("    return st, %s" % cx.const(EXIT))
        return
    if op == "unreachable":
        A("    raise PathDead()")
        return
    if op == "fence":
        return
    if op == "call":
        t, callee, args = ins[2], ins[3], ins[4]
        if callee.startswith("%"):
            al = ", ".join(opn(v, at) for at, v in args)
            A("    r, st = G.call_ind(st, E[%d], [%s])" % (cx.slot(callee), al))
            if d:
                A("    %s = r" % d)
            return
        name = callee[1:]
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name in ("llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.va_start", "llvm.va_end", "llvm.stackrestore", "llvm.stackrestore.p0"):
            return
        al = ", ".join(opn(v, at) for at, v in args)
        if name.startswith("llvm.threadlocal.address"):
            A("    %s = %s" % (d, al))
            return
        if name.startswith("llvm.stacksave"):
            A("    %s = 0" % d)
            return
        A("    r, st = G.call(st, %r, [%s])" % (name, al))
        if d:
            A("    %s = r" % d)
        return
    if op == "extractelement":
        A("    %s = %s[%s]" % (d, opn(ins[3], ins[2]), opn(ins[4], ("i", 32))))
        return
    if op == "insertelement":
        A("    v = list(%s)" % opn(ins[3], ins[2]))
        A("    v[%s] = %s" % (opn(ins[5], ("i", 32)), opn(ins[4], ins[2][2])))
        A("    %s = v" % d)
        return
    if op == "shufflevector":
        m = ins[6]
        mask = [0] * ins[5][1] if m[0] == "undef" else [x if isinstance(x, int) else 0 for x in m[1]]
        A("    v = list(%s) + list(%s)" % (opn(ins[3], ins[2]), opn(ins[4], ins[2])))
        A("    %s = [%s]" % (d, ", ".join("v[%d]" % i for i in mask)))
        return
    if op == "extractvalue":
        A("    %s = %s[%d]" % (d, opn(ins[3], ins[2]), ins[4]))
        return
    if op == "insertvalue":
        A("    v = list(%s)" % opn(ins[3], ins[2]))
        A("    v[%d] = %s" % (ins[5], opn(ins[4], None)))
        A("    %s = v" % d)
        return
    if op == "freeze":
        A("    %s = %s" % (d, opn(ins[3], ins[2])))
        return
    if op == "atomicrmw":
        rop, t, p, v = ins[2], ins[3], opn(ins[4], ("p",)), opn(ins[5], ins[3])
        sz = llir.sizeof(t)
        A("    a = G.load(st, %s, %d, %d)" % (p, TC[t[0]], sz))
        A("    G.store(st, %s, %s, %d)" % (p, v if rop == "xchg" else "bvop(%r, %d, a, %s)" % (rop, t[1], v), sz))
        A("    %s = a" % d)
        return
    if op == "cmpxchg":
        t, p, a, bb = ins[2], opn(ins[3], ("p",)), opn(ins[4], ins[2]), opn(ins[5], ins[2])
        sz = llir.sizeof(t)
        A("    o = G.load(st, %s, %d, %d)" % (p, TC[t[0]], sz))
        A("    c = i_cmp(G, 'eq', %d, o, %s)" % (sz * 8, a))
        A("    G.store(st, %s, sel(G, c, %s, o, %s), %d)" % (p, bb, cx.const(t), sz))
        A("    %s = [o, c]" % d)
        return
    raise Unsupported("instruction %s" % op)


def label(f, l):
    """the very string object used as block key (identity comparisons)"""
    d = getattr(f, "_lab", None) if hasattr(f, "_lab") else None
    for k in f.order:
        if k == l:
            return k
    raise Unsupported("label " + l)


def ptr_arith(self, st, op, a, b):
    if op in ("add", "sub") and type(a) is Ptr and type(b) is Ptr and op == "sub" and a.o == b.o:
        x = a.off & ((1 << 64) - 1) if type(a.off) is int else a.off
        y = b.off & ((1 << 64) - 1) if type(b.off) is int else b.off
        return T.bvop("sub", 64, x, y)
    return T.bvop(op, 64, self.ptrtoint(a), self.ptrtoint(b))


Engine.ptr_arith = ptr_arith


# ---------------------------------------------------------------------------------- intrinsics
INTRINSICS = {}


def intr(*names):
    def deco(fn):
        for n in names:
            INTRINSICS[n] = fn
        return fn
    return deco


def un(fs, n32, n64, *names):
    def h(eng, st, a):
        x = a[0]
        if isinstance(x, list):
            return [h(eng, st, [e]) for e in x]
        if type(x) is float:
            return (libm32(n32) if h.is32 else libm64(n64))(x)
        return fs(x)
    return h


def reg_un(base, fs):
    """base e.g. 'sqrt': llvm.sqrt.f32, sqrtf, llvm.sqrt.f64, sqrt"""
    def mk(is32):
        def h(eng, st, a):
            x = a[0]
            if isinstance(x, list):
                return [h(eng, st, [e]) for e in x]
            if type(x) is float:
                return (libm32(base + "f") if is32 else libm64(base))(x)
            return fs(x)
        return h
    INTRINSICS["llvm.%s.f32" % base] = INTRINSICS[base + "f"] = mk(True)
    INTRINSICS["llvm.%s.f64" % base] = INTRINSICS[base] = mk(False)
    INTRINSICS["llvm.%s.v4f32" % base] = mk(True)


LOG2E = 1.4426950408889634
reg_un("sqrt", T.fsqrt)
reg_un("exp2", T.fexp2)
reg_un("log2", T.flog2)
reg_un("exp", lambda x: T.fexp2(T.fscale(x, LOG2E)))
reg_un("log", lambda x: T.fscale(T.flog2(x), 1 / LOG2E))
reg_un("log10", lambda x: T.fscale(T.flog2(x), math.log10(2)))
reg_un("cos", lambda x: T.fcossin(x)[0])
reg_un("sin", lambda x: T.fcossin(x)[1])
reg_un("fabs", T.fabs_)
reg_un("floor", lambda x: T.ffloor(x, "floor"))
reg_un("ceil", lambda x: T.ffloor(x, "ceil"))
reg_un("trunc", lambda x: T.ffloor(x, "trunc"))
reg_un("rint", lambda x: T.ffloor(T.fadd(x, 0.5), "floor"))
reg_un("nearbyint", lambda x: T.ffloor(T.fadd(x, 0.5), "floor"))
reg_un("round", lambda x: T.fite(T.fcmp("ge", x, 0.0), T.ffloor(T.fadd(x, 0.5), "floor"), T.ffloor(T.fadd(x, -0.5), "ceil")))
INTRINSICS["llvm.fabs"] = INTRINSICS["llvm.fabs.f32"]


def reg_bin(base, fs, names32, names64):
    def mk(is32):
        def h(eng, st, a):
            x, y = a[0], a[1]
            if isinstance(x, list):
                return [h(eng, st, [p, q]) for p, q in zip(x, y)]
            if type(x) is float and type(y) is float:
                return (libm32(base + "f", 2) if is32 else libm64(base, 2))(x, y)
            return fs(x, y)
        return h
    for n in names32: INTRINSICS[n] = mk(True)
    for n in names64: INTRINSICS[n] = mk(False)


def fpow(x, y):
    if type(y) is float:
        if y == 0.5: return T.fsqrt(x)
        if y == 0.25: return T.fsqrt(T.fsqrt(x))
        if y == int(y) and 0 < y <= 8:
            r = x
            for _ in range(int(y) - 1):
                r = T.fmul(r, x)
            return r
    if type(x) is float and x > 0:
        return T.fexp2(T.fscale(y, math.log2(x)))
    return T.fexp2(T.fmul(T.flog2(x), y))


def fmin_(x, y):
    return T.fite(T.fcmp("lt", x, y), x, y)


def fmax_(x, y):
    return T.fite(T.fcmp("gt", x, y), x, y)


reg_bin("fmod", T.ffmod, ["fmodf"], ["fmod"])
reg_bin("pow", fpow, ["powf", "llvm.pow.f32"], ["pow", "llvm.pow.f64"])
reg_bin("fmin", fmin_, ["fminf", "llvm.minnum.f32"], ["fmin", "llvm.minnum.f64"])
reg_bin("fmax", fmax_, ["fmaxf", "llvm.maxnum.f32"], ["fmax", "llvm.maxnum.f64"])
reg_bin("atan2", lambda x, y: T.atom_f(T.opaque("atan2", (x, y), -4, 4)), ["atan2f"], ["atan2"])


@intr("ldexpf", "llvm.ldexp.f32.i32")
def _ldexp(eng, st, a):
    if isinstance(a[1], int):
        k = 2.0 ** T.sgn(a[1], 32)
        return r32(a[0] * k) if type(a[0]) is float else T.fscale(a[0], k)
    return T.fmul(a[0], T.fexp2(T.inttofp(32, a[1], True)))


@intr("llvm.fmuladd", "fmaf", "fma", "llvm.fma")
def _fma(eng, st, a):
    if all(type(x) is float for x in a):
        return r32(a[0] * a[1] + a[2])
    return T.fadd(T.fmul(a[0], a[1]), a[2])


@intr("llvm.copysign")
def _copysign(eng, st, a):
    if type(a[0]) is float and type(a[1]) is float:
        return math.copysign(a[0], a[1])
    m = T.fabs_(a[0])
    return T.fite(T.fcmp("lt", a[1], 0.0), T.fneg(m), m)


@intr("llvm.is.fpclass")
def _fpclass(eng, st, a):
    x, m = a[0], a[1]
    if type(x) is float:
        if x != x: k = 0x3
        elif x == -INF: k = 0x4
        elif x == INF: k = 0x200
        elif x == 0: k = 0x60
        elif x < 0: k = 0x8 | 0x10
        else: k = 0x100 | 0x80
        return int(bool(m & k))
    if m & 0x1f8 == 0x1f8:
        return 1
    if m & 0x1f8 == 0:
        return 0
    raise Unsupported("is.fpclass mask %x" % m)


def libc_finite(eng, st, a):
    x = a[0]
    return 1 if type(x) is not float else int(x == x and abs(x) != INF)


INTRINSICS["finitef"] = INTRINSICS["finite"] = INTRINSICS["__finitef"] = INTRINSICS["__finite"] = libc_finite


def reg_mm(name, pred):
    def h(eng, st, a):
        w = h.w
        return T.ite(T.icmp(pred, w, a[0], a[1]), a[0], a[1], w)
    return h


for _w in (8, 16, 32, 64):
    for _n, _p in (("smin", "slt"), ("smax", "sgt"), ("umin", "ult"), ("umax", "ugt")):
        def _h(eng, st, a, w=_w, p=_p):
            return T.ite(T.icmp(p, w, a[0], a[1]), a[0], a[1], w)
        INTRINSICS["llvm.%s.i%d" % (_n, _w)] = _h

    def _abs(eng, st, a, w=_w):
        return T.ite(T.icmp("slt", w, a[0], 0), T.bvop("sub", w, 0, a[0]), a[0], w)
    INTRINSICS["llvm.abs.i%d" % _w] = _abs

    def _bswap(eng, st, a, w=_w):
        r = 0
        for j in range(w // 8):
            r = T.bvop("or", w, r, T.bvop("shl", w, T.bvop("and", w, T.bvop("lshr", w, a[0], 8 * j), 255), w - 8 - 8 * j))
        return r

    def _ctpop(eng, st, a, w=_w):
        r = 0
        for j in range(w):
            r = T.bvop("add", w, r, T.bvop("and", w, T.bvop("lshr", w, a[0], j), 1))
        return r
    INTRINSICS["llvm.ctpop.i%d" % _w] = _ctpop

    def _fshl(eng, st, a, w=_w):
        if not isinstance(a[2], int):
            raise Unsupported("fshl")
        s = a[2] % w
        if s == 0:
            return a[0]
        return T.bvop("or", w, T.bvop("shl", w, a[0], s), T.bvop("lshr", w, a[1], w - s))
    INTRINSICS["llvm.fshl.i%d" % _w] = _fshl

INTRINSICS["abs"] = INTRINSICS["llvm.abs.i32"]


@intr("llvm.sadd.sat", "llvm.expect", "llvm.expect.i64", "llvm.expect.i1")
def _expect(eng, st, a):
    return a[0]


@intr("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")
def _memcpy(eng, st, a):
    d, s, n = a[0], a[1], a[2]
    if not isinstance(n, int):
        n = restrict(n, st.fixed)
        if not isinstance(n, int):
            raise Unsupported("memcpy with symbolic length")
    if n == 0:
        return d
    if type(d) is PSel:
        raise Unsupported("memcpy to a symbolic pointer")
    if type(s) is PSel:
        c = restrict(s.c, st.fixed)
        if isinstance(c, int):
            return _memcpy(eng, st, [d, s.a if c else s.b, n])
        # copy cell by cell through the selection
        i = 0
        o = st.mem[s.a.o if type(s.a) is Ptr else s.b.o]
        step = 4 if n % 4 == 0 else 1
        for k in range(0, n, step):
            tc = 0
            v = eng.load(st, eng.padd(s, k), tc, step)
            eng.store(st, eng.padd(d, k), v, step)
        return d
    for p, w in ((s, "read"), (d, "write")):
        if type(p) is not Ptr or type(p.off) is not int:
            eng.oblige(st, "memory", 0, "memcpy %s through invalid pointer in %s" % (w, eng.where()))
            raise PathDead()
        o = st.mem[p.o]
        if p.off < 0 or p.off + n > o.size:
            eng.oblige(st, "memory", 0, "memcpy %s of %d bytes at offset %d of %s (%d bytes) in %s" % (w, n, p.off, o.name, o.size, eng.where()))
            raise PathDead()
    so = st.mem[s.o]
    items = []
    covered = 0
    for k, (sz, v) in so.cells.items():
        if k + sz <= s.off or k >= s.off + n:
            continue
        if k >= s.off and k + sz <= s.off + n:
            items.append((k - s.off, sz, v))
            covered += sz
        else:
            for j, b in enumerate(eng.to_bytes(v, sz)):
                if s.off <= k + j < s.off + n:
                    items.append((k + j - s.off, 1, b))
                    covered += 1
    do = eng.own(st, d.o)
    if covered < n:
        have = set()
        for k, sz, v in items:
            have.update(range(k, k + sz))
        if so.default == 0:
            step = 4 if s.off % 4 == 0 and d.off % 4 == 0 and n % 4 == 0 and all(sz % 4 == 0 for _, sz, _ in items) else 1
            for k in range(0, n, step):
                if k not in have:
                    items.append((k, step, 0))
        else:
            # uninitialised source bytes: destination becomes uninitialised
            if do.default == 0:
                step = 4 if n % 4 == 0 else 1
                for k in range(0, n, step):
                    if k not in have:
                        items.append((k, step, eng.undef(0, step)))
            eng.clear_range(do, d.off, n)
    elif do.gran and all(sz == do.gran for _, sz, _ in items) and d.off % do.gran == 0:
        pass
    else:
        eng.clear_range(do, d.off, n)
    for k, sz, v in items:
        if do.gran == sz and (d.off + k) % sz == 0:
            do.cells[d.off + k] = (sz, v)
        else:
            eng.raw_store(do, d.off + k, sz, v)
    return d


@intr("llvm.memset", "memset")
def _memset(eng, st, a):
    d, b, n = a[0], a[1], a[2]
    if not isinstance(n, int):
        n = restrict(n, st.fixed)
        if not isinstance(n, int):
            raise Unsupported("memset with symbolic length")
    if n == 0:
        return d
    if type(d) is not Ptr or type(d.off) is not int:
        eng.oblige(st, "memory", 0, "memset through invalid pointer in %s" % eng.where())
        raise PathDead()
    o = eng.own(st, d.o)
    if d.off < 0 or d.off + n > o.size:
        eng.oblige(st, "memory", 0, "memset of %d bytes at offset %d of %s (%d bytes) in %s" % (n, d.off, o.name, o.size, eng.where()))
        raise PathDead()
    b = b & 255 if isinstance(b, int) else T.trunc(8, 32, b) if b.w == 32 else b
    step = o.gran or 1
    if o.gran is None and not o.cells:
        step = 4 if n % 4 == 0 and d.off % 4 == 0 and o.size % 4 == 0 else 1
    if d.off % step or n % step:
        step = 1
    if isinstance(b, int):
        v = int.from_bytes(bytes([b]) * step, "little")
    else:
        step = 1
        v = b
    if step != o.gran:
        eng.clear_range(o, d.off, n)
        if o.gran is None and not o.cells:
            o.gran = step
        elif o.gran != step:
            o.gran = 0
    for k in range(d.off, d.off + n, step):
        o.cells[k] = (step, v)
    return d


@intr("malloc")
def _malloc(eng, st, a):
    if not isinstance(a[0], int):
        raise Unsupported("symbolic malloc")
    return Ptr(eng.new_obj(st, a[0], None, "malloc%d" % eng.nobj), 0)


@intr("calloc")
def _calloc(eng, st, a):
    return Ptr(eng.new_obj(st, a[0] * a[1], 0, "calloc%d" % eng.nobj), 0)


@intr("pffft_aligned_malloc", "aligned_alloc")
def _amalloc(eng, st, a):
    return Ptr(eng.new_obj(st, a[-1], None, "amalloc%d" % eng.nobj), 0)


@intr("free", "pffft_aligned_free", "fprintf", "printf", "fputs", "puts", "fputc", "fwrite", "fflush", "putchar")
def _nop(eng, st, a):
    return 0


@intr("pthread_once", "pthread_key_create", "pthread_setspecific", "__cxa_thread_atexit_impl", "pthread_mutex_lock", "pthread_mutex_unlock")
def _pth(eng, st, a):
    if len(a) == 2 and isinstance(a[1], tuple) and a[1][0] == "fn":
        try:
            eng.call(st, a[1][1], [])
        except PathDead:
            pass
    return 0


@intr("pthread_getspecific")
def _pgs(eng, st, a):
    return 0


@intr("__assert_fail", "abort", "exit")
def _abort(eng, st, a):
    eng.oblige(st, "abort", 0, "assertion failure or abort reached in %s" % eng.where())
    raise PathDead()


@intr("strtol")
def _strtol(eng, st, a):
    p, base = a[0], a[2]
    if base not in (2, 10):
        raise Unsupported("strtol base %r" % (base,))
    v = 0
    for i in range(70):
        ch = eng.load(st, eng.padd(p, i), 0, 1)
        if isinstance(ch, int):
            if 48 <= ch < 48 + base:
                dg = ch - 48
            else:
                break
        else:
            if isinstance(ch, BV) and ch.tab is not None:
                s = set(int(x) for x in ch.tab)
            elif ch.slo >= 48 and ch.shi < 48 + base:
                s = set(range(ch.slo, ch.shi + 1))
            else:
                s = {0}
            if not s <= set(range(48, 48 + base)):
                # a character that may or may not be a digit: outside the supported input domain
                ch2 = restrict(ch, st.fixed)
                if isinstance(ch2, BV):
                    isd = T.bvand(1, T.icmp("uge", 8, ch2, 48), T.icmp("ult", 8, ch2, 48 + base))
                    eng.oblige(st, "abort", isd, "digit string holds a non-digit in %s" % eng.where())
            dg = T.bvop("sub", 64, T.zext(64, 8, ch), 48)
        v = T.bvop("add", 64, T.bvop("mul", 64, v, base), dg)
    if a[1] != 0 and type(a[1]) is Ptr:
        eng.store(st, a[1], eng.padd(p, i), 8)
    return v


@intr("strlen")
def _strlen(eng, st, a):
    for i in range(100000):
        ch = eng.load(st, eng.padd(a[0], i), 0, 1)
        if isinstance(ch, BV):
            ch = restrict(ch, st.fixed)
        if not isinstance(ch, int):
            if ch.slo > 0 or ch.shi < 0 or (ch.tab is not None and not (ch.tab == 0).any()):
                continue
            raise Unsupported("strlen over symbolic terminator")
        if ch == 0:
            return i


@intr("snprintf")
def _snprintf(eng, st, a):
    buf, n, fmt = a[0], a[1], a[2]
    s = bytearray()
    i = 0
    while True:
        ch = eng.load(st, eng.padd(fmt, i), 0, 1)
        if ch == 0:
            break
        s.append(ch)
        i += 1
    out = bytearray()
    args = list(a[3:])
    j = 0
    while j < len(s):
        if s[j] == 37:
            k = s[j + 1]
            j += 2
            if k == ord("s"):
                p = args.pop(0)
                q = 0
                while True:
                    ch = eng.load(st, eng.padd(p, q), 0, 1)
                    if ch == 0:
                        break
                    out.append(ch)
                    q += 1
            elif k in (ord("d"), ord("i"), ord("u")):
                v = args.pop(0)
                out += str(T.sgn(v, 32)).encode()
            else:
                raise Unsupported("snprintf format")
        else:
            out.append(s[j])
            j += 1
    if isinstance(n, int) and n > 0:
        for q, ch in enumerate(out[:n - 1] + b"\0"):
            eng.store(st, eng.padd(buf, q), ch, 1)
    return len(out)


# SSE2 intrinsics -----------------------------------------------------------
@intr("llvm.x86.sse.min.ps")
def _minps(eng, st, a):
    return [T.fite(f_cmp("olt", x, y), x, y) for x, y in zip(a[0], a[1])]


@intr("llvm.x86.sse.max.ps")
def _maxps(eng, st, a):
    return [T.fite(f_cmp("ogt", x, y), x, y) for x, y in zip(a[0], a[1])]


@intr("llvm.x86.sse2.cvttps2dq")
def _cvtt(eng, st, a):
    return [eng.fptoi(st, 32, x, True) for x in a[0]]


@intr("llvm.x86.sse2.packssdw.128")
def _packss(eng, st, a):
    out = []
    for x in list(a[0]) + list(a[1]):
        lo = T.icmp("slt", 32, x, (-32768) & 0xffffffff)
        hi = T.icmp("sgt", 32, x, 32767)
        out.append(T.trunc(16, 32, T.ite(lo, (-32768) & 0xffffffff, T.ite(hi, 32767, x, 32), 32)))
    return out


@intr("llvm.x86.sse.sqrt.ps", "llvm.sqrt.v4f32")
def _sqrtps(eng, st, a):
    return [r32(math.sqrt(x)) if type(x) is float else T.fsqrt(x) for x in a[0]]


# harness interface ----------------------------------------------------------
def add_input(eng, st, kind, term, lo, hi, vars=None, atom=None):
    eng.inputs.append({"kind": kind, "term": term, "lo": lo, "hi": hi, "vars": vars, "atom": atom})


@intr("sv_case")
def _case(eng, st, a):
    return eng.cases[a[0]] & 0xffffffff


@intr("sv_bit")
def _bit(eng, st, a):
    n = len(eng.inputs)
    v = T.new_var("in", (n, 0), "b%d" % n)
    t = T.mk_tab(32, (v.id,), np.array([0, 1], dtype=np.uint64), False)
    add_input(eng, st, "int", t, 0, 1, (v.id,))
    return t


@intr("sv_int")
def _svint(eng, st, a):
    n = len(eng.inputs)
    lo, hi = T.sgn(a[0], 32), T.sgn(a[1], 32)
    t, c, vs = T.new_bvvar(32, lo, hi, "i%d" % n)
    add_input(eng, st, "int", t, lo, hi, vs)
    if isinstance(c, BV):
        if not eng.add_pc(st, c):
            raise PathDead()
    elif c is not None:
        st.pc = (st.pc, c)
    return t


@intr("sv_uint")
def _svuint(eng, st, a):
    n = len(eng.inputs)
    t = T.mk_node("var", 32, ("u%d" % n,))
    add_input(eng, st, "uint", t, 0, (1 << 32) - 1)
    return t


@intr("sv_u48")
def _svu48(eng, st, a):
    n = len(eng.inputs)
    t = T.mk_node("var", 64, ("u%d" % n,), 0, (1 << 48) - 1)
    add_input(eng, st, "u64", t, 0, (1 << 48) - 1)
    st.pc = (st.pc, ("range", t, 0, (1 << 48) - 1))
    return t


@intr("sv_float")
def _svfloat(eng, st, a):
    n = len(eng.inputs)
    at = T.new_atom("in", (n,), a[0], a[1], "x%d" % n)
    f = T.atom_f(at)
    add_input(eng, st, "float", f, a[0], a[1], None, at.id)
    return f


@intr("sv_assume")
def _assume(eng, st, a):
    c = a[0]
    c = T.icmp("ne", 32, c, 0)
    if not eng.add_pc(st, c):
        raise PathDead()
    return 0


def cstr(eng, st, p):
    s = bytearray()
    while True:
        ch = eng.load(st, eng.padd(p, len(s)), 0, 1)
        if ch == 0:
            return s.decode()
        s.append(ch)


@intr("sv_check")
def _check(eng, st, a):
    eng.oblige(st, "check", T.icmp("ne", 32, a[0], 0), cstr(eng, st, a[1]))
    return 0


@intr("sv_close")
def _close(eng, st, a):
    x, y, tol = a[0], a[1], a[2]
    eng.obls.append(("close", st.pc, (x, y, tol), cstr(eng, st, a[3])))
    return 0


@intr("sv_same")
def _same(eng, st, a):
    x, y = a[0], a[1]
    if x is y or (type(x) is float and type(y) is float and (x == y or (x != x and y != y))):
        eng.trivial += 1
        return 0
    eng.obls.append(("close", st.pc, (x, y, 0.0), cstr(eng, st, a[2])))
    return 0


@intr("sv_end")
def _end(eng, st, a):
    eng.ended += 1
    eng.end_pc = st.pc
    return 0


@intr("sv_undef")
def _svundef(eng, st, a):
    p, n = a[0], a[1]
    o = eng.own(st, p.o)
    eng.clear_range(o, p.off, n) if n < 64 else [o.cells.pop(k) for k in list(o.cells) if p.off <= k < p.off + n]
    if o.default == 0:
        if p.off != 0 or n < o.size:
            raise Unsupported("sv_undef on part of a zero-initialised object")
        o.default = None
    return 0
