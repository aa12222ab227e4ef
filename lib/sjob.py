"""Jobs of the symbolic executor: build IR from the current tree, run cases in worker processes, discharge obligations
with z3, replay counterexamples natively, validate the encoding against native runs."""
import multiprocessing as mp, os, random, re, sys, time, traceback, threading
import vlib
from vlib import VERIF, REPO, CONFIG_DEFS, ToolError, run, workdir, include_flags, repo_sources

CL = "clang-18"
_lib = {}
_lock = threading.Lock()


def _par(cmds):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(max_workers=vlib.NCPU) as ex:
        for c, (rc, o, e) in zip(cmds, ex.map(lambda c: run(c, timeout=300), cmds)):
            if rc != 0:
                raise ToolError("%s\n%s" % (" ".join(c)[:300], e[-2000:]))


def lib_bc(config, native, defs=()):
    """bitcode of the whole library (symbolic: -O0 without optnone; native: sanitized)"""
    key = (config, native, tuple(defs))
    with _lock:
        if key in _lib:
            return _lib[key]
        w = os.path.join(workdir(), "bc_%s_%d_%d" % (config, native, len(_lib)))
        os.makedirs(w)
        fl = ["-O0", "-std=gnu11", "-w", "-ffp-contract=off", *CONFIG_DEFS[config], *defs, *include_flags()]
        fl += ["-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow,alignment"] if native else ["-Xclang", "-disable-O0-optnone", "-fno-math-errno"]
        outs = []
        cmds = []
        for i, s in enumerate(repo_sources()):
            o = os.path.join(w, "%d.bc" % i)
            outs.append(o)
            cmds.append([CL, *fl, "-emit-llvm", "-c", s, "-o", o])
        _par(cmds)
        if native:
            _lib[key] = outs
            return outs
        lib = os.path.join(w, "lib.bc")
        rc, o, e = run(["llvm-link-18", *outs, "-o", lib], timeout=120)
        if rc != 0:
            raise ToolError("llvm-link: " + e[-2000:])
        _lib[key] = lib
        return lib


def defined_in(bc):
    rc, o, e = run(["llvm-nm-18", "--defined-only", bc], timeout=60)
    return {l.split()[-1] for l in o.splitlines() if l.split()}


class SJob:
    """One harness function over a list of cases (tuples of ints read by sv_case)."""

    def __init__(self, name, harness, cases=((),), config="scalar", replace=(), defs=(), ub=False, kinds=None, timeout=60000,
                 max_blocks=20000000, validate=1, level_max=1, case_timeout=600, other=None, passes="sroa,early-cse", feas=True, tries=40, undef_check=False, optional=False, name_terms=20000):
        self.name = name; self.harness = harness; self.cases = [tuple(c) for c in cases]; self.config = config
        self.replace = list(replace); self.defs = list(defs); self.ub = ub; self.kinds = kinds; self.timeout = timeout
        self.max_blocks = max_blocks; self.validate = validate; self.level_max = level_max; self.case_timeout = case_timeout
        self.other = other; self.passes = passes; self.feas = feas; self.tries = tries; self.undef_check = undef_check
        self.optional = optional; self.name_terms = name_terms
        self.ll = None; self.exe = None

    # ---------------------------------------------------------------- build
    def native_libs(self):
        if not self.replace and not self.other:
            return vlib.native_objs(self.config)
        src = [(b, os.path.join(workdir(), "%s_n%d.o" % (self.name, i)), self.replace) for i, b in enumerate(lib_bc(self.config, 1))]
        if self.other:
            bs = lib_bc(self.other, 1)
            have = set()
            for b in bs:
                have |= defined_in(b)
            src += [(self.prefixed(b, have, os.path.join(workdir(), "%s_nx%d.ll" % (self.name, i))), os.path.join(workdir(), "%s_nx%d.o" % (self.name, i)), ())
                    for i, b in enumerate(bs)]
        _par([[CL, "-O0", "-w", "-c", b, "-o", o] for b, o, _ in src])      # already instrumented
        for b, o, names in src:
            if names:
                rc, so, e = run(["objcopy", *["--weaken-symbol=%s" % n for n in names], o], timeout=60)
                if rc != 0:
                    raise ToolError("replacing library functions: " + e[-1500:])
        return [o for _, o, _ in src]

    def prefixed(self, bc, have, ll):
        rc, o, e = run(["llvm-dis-18", bc, "-o", ll], timeout=120)
        t = open(ll).read()
        t = re.sub(r"(?m)^\$\S+ = comdat .*$", "", t)
        t = re.sub(r",? comdat(\([^)]*\))?(?=[ ,\n])", "", t)
        t = re.sub(r"([@$])([A-Za-z_][\w.]*)", lambda m: m.group(1) + "x_" + m.group(2) if m.group(2) in have and not m.group(2).startswith(("asan.", "llvm.")) else m.group(0), t)
        open(ll, "w").write(t)
        return ll

    def stripped(self, lib, tag):
        if not self.replace:
            return lib
        have = defined_in(lib)
        names = [n for n in self.replace if n in have]
        missing = [n for n in self.replace if n not in have]
        if missing:
            raise ToolError("%s: functions to replace not found: %s" % (self.name, missing))
        out = os.path.join(workdir(), "%s_%s.bc" % (self.name, tag))
        rc, o, e = run(["llvm-extract-18", "--delete", *["--func=%s" % n for n in names], lib, "-o", out], timeout=120)
        if rc != 0:
            raise ToolError("llvm-extract: " + e[-1500:])
        return out

    def other_lib(self):
        """second configuration with every library symbol prefixed x_"""
        lib = lib_bc(self.other, 0)
        return self.prefixed(lib, defined_in(lib), os.path.join(workdir(), "%s_other.ll" % self.name))

    def build(self):
        w = workdir()
        lib = self.stripped(lib_bc(self.config, 0), "lib")
        hb = os.path.join(w, self.name + "_h.bc")
        out = os.path.join(w, self.name + ".bc")
        fl = ["-O0", "-std=gnu11", "-w", "-ffp-contract=off", *CONFIG_DEFS[self.config], *self.defs, *include_flags()]
        rc, o, e = run([CL, *fl, "-Xclang", "-disable-O0-optnone", "-fno-math-errno", "-emit-llvm", "-c", os.path.join(VERIF, "harness", self.harness), "-o", hb], timeout=120)
        if rc != 0:
            raise ToolError("harness does not compile: " + e[-2500:])
        self.hglobals = defined_in(hb)
        libs = [lib] + ([self.other_lib()] if self.other else [])
        rc, o, e = run(["llvm-link-18", hb, *libs, "-o", out], timeout=120)
        if rc != 0:
            raise ToolError("llvm-link: " + e[-2000:])
        self.ll = os.path.join(w, self.name + ".ll")
        rc, o, e = run(["opt-18", "-S", "-passes=internalize,globaldce,function(%s)" % self.passes, "-internalize-public-api-list=harness", out, "-o", self.ll], timeout=120)
        if rc != 0:
            raise ToolError("opt: " + e[-2000:])

    def native(self):
        if self.exe is None:
            w = workdir()
            exe = os.path.join(w, self.name + "_native")
            hsrc = os.path.join(VERIF, "harness", self.harness)
            fl = [*CONFIG_DEFS[self.config], *self.defs, *include_flags(), "-DSV_NATIVE=1", "-std=gnu11", "-O0", "-g", "-w", "-ffp-contract=off",
                  "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow,alignment"]
            libs = self.native_libs()
            cc = [CL] if libs[0].endswith(".bc") else ["gcc"]
            if cc == ["gcc"]:
                fl = [x for x in fl if x != "-fno-sanitize=pointer-overflow,alignment"]
            rc, o, e = run([*cc, *fl, hsrc, *libs, "-lm", "-lpthread", "-o", exe], timeout=300)
            if rc != 0:
                raise ToolError("native harness build failed: " + e[-2500:])
            self.exe = exe
        return self.exe

    def write_values(self, case, vals, seed, fn):
        with open(fn, "w") as f:
            for i, c in enumerate(case):
                f.write("c %d %d\n" % (i, c))
            for i, v in sorted(vals.items()):
                f.write("%d %s\n" % (i, repr(v)))
            f.write("seed %d\n" % seed)

    def run_native(self, case, vals, seed, trace=False, fn=None):
        fn = fn or os.path.join(workdir(), "val_%s_%d_%d.txt" % (self.name, os.getpid(), seed))
        self.write_values(case, vals, seed, fn)
        env = dict(vlib.SAN_ENV)
        if trace:
            env["SV_TRACE"] = "1"
        rc, o, e = run([self.exe, fn], timeout=60, env=env)
        if rc in (-9, -999):
            rc = 77         # killed or out of time: says nothing
        return rc, o, e, fn

    # ---------------------------------------------------------------- one case (in a worker)
    def run_case(self, mod, case, nat):
        import terms as T, symex, smt
        T.reset()
        T.NAME_TERMS[0] = self.name_terms
        t0 = time.time()
        eng = symex.Engine(mod, ub=self.ub, max_blocks=self.max_blocks, shared=self.hglobals)
        eng.cases = list(case)
        stats = smt.Stats()
        if self.feas:
            def feas(st, c, cache={}):
                pcs = symex.pc_list(st.pc)
                for val, cc in ((1, c), (0, T.bvnot1(c))):
                    r, m, enc = smt.check(lambda en: [en.b1(x) for x in pcs] + [en.b1(cc)], 1, 2000, stats)
                    if r == "unsat":
                        return 1 - val
                return c
            eng.feas = feas
        res = {"case": case, "status": "pass", "obl": 0, "trivial": 0, "interval": 0, "solved": 0, "undecided": [], "fails": [], "err": None}
        try:
            try:
                eng.call(eng.st0, "harness", [])
            except symex.PathDead:
                pass
            dead = not eng.ended
        except T.Unsupported as ex:
            res["status"] = "unsupported"; res["err"] = "%s (in %s)" % (ex, eng.where())
            res["time"] = time.time() - t0
            return res
        except symex.Budget as ex:
            res["status"] = "unsupported"; res["err"] = str(ex)
            return res
        res["exec"] = time.time() - t0
        res["blocks"] = eng.blocks; res["trivial"] = eng.trivial; res["forks"] = eng.forks
        res["functions"] = sorted(k for k in eng.calls if k.startswith(("mbe_", "imbe", "ambe", "pffft")) or True)
        try:
            self.discharge(eng, case, res, stats, T, symex, smt)
        except T.Unsupported as ex:
            res["status"] = "unsupported"; res["err"] = str(ex); res["time"] = time.time() - t0
            return res
        res["queries"] = stats.queries; res["solver_time"] = stats.time
        # vacuity: the end of the harness is reachable
        if dead:
            if not res["fails"] and not res["undecided"]:
                res["status"] = "vacuous"; res["err"] = "the end of the harness is unreachable"
        if nat and not res["fails"] and not dead:
            self.validate_case(eng, case, res, T, symex)
        res["time"] = time.time() - t0
        return res

    def resid(self, T, a, b):
        """monomial differences beyond float rounding"""
        ma, mb = T.mdict(a), T.mdict(b)
        out = {}
        for mo in set(ma) | set(mb):
            ca, cb = ma.get(mo, 0.0), mb.get(mo, 0.0)
            d = T.cadd(ca, T.cscale(cb, -1.0))
            mag = max(T.cmag(ca), T.cmag(cb))
            if type(d) is float:
                if abs(d) > T.RTOL * mag and not (d == 0.0):
                    out[mo] = d
            else:
                import numpy as np
                t = {v: arr for v, arr in d.t.items() if np.abs(arr).max() > T.RTOL * mag}
                c = d.c if abs(d.c) > T.RTOL * mag else 0.0
                if t: out[mo] = T.TC(c, t)
                elif c: out[mo] = c
        return T.simp(out)

    def discharge(self, eng, case, res, stats, T, symex, smt):
        import z3
        groups = {}
        und = []
        conf = []
        if self.undef_check:
            for pc, c, msg in eng.undef_branches:
                und.append(("undef", pc, None, msg))
        for ob in eng.obls + und:
            kind, pc, cond, msg = ob
            if self.kinds is not None and kind not in self.kinds:
                continue
            res["obl"] += 1
            if kind == "close":
                a, b, tol = cond
                if self.undef_check and (getattr(a, "und", False) or getattr(b, "und", False)):
                    pass
                fa = type(a) is float; fb = type(b) is float
                if fa and fb:
                    if abs(a - b) <= tol + T.RTOL * 10 * max(abs(a), abs(b)) or (a != a and b != b):
                        res["interval"] += 1
                        continue
                    d = a - b
                elif (fa and (a != a or abs(a) == T.INF)) or (fb and (b != b or abs(b) == T.INF)):
                    d = T.INF
                else:
                    d = self.resid(T, a, b)
                if type(d) is float:
                    if abs(d) <= tol + T.RTOL * 10 * max(abs(a) if fa else 0, abs(b) if fb else 0):
                        res["interval"] += 1
                        conf.append(ob)
                        continue
                else:
                    lo, hi = T.frange(d)
                    own = -tol <= lo and hi <= tol
                    ra = (a, a) if fa else T.frange(a); rb = (b, b) if fb else T.frange(b)
                    lo = max(lo, ra[0] - rb[1]); hi = min(hi, ra[1] - rb[0])
                    if -tol <= lo and hi <= tol:
                        res["interval"] += 1
                        if own:
                            conf.append(ob)
                        continue
                groups.setdefault(id(pc), (pc, []))[1].append((kind, d, tol, msg, cond))
            else:
                groups.setdefault(id(pc), (pc, []))[1].append((kind, cond, 0, msg, cond))
        self.confirm(conf, res, stats, T, smt)
        for pc, obs in groups.values():
            pcs = symex.pc_list(pc)

            def viol(en, ob, mult=1.0):
                kind, c, tol, msg, raw = ob
                if kind == "close":
                    if type(c) is float:
                        return z3.BoolVal(True)
                    e = en.f(c)
                    t = smt.q(max(tol, 0.0) * mult)
                    return z3.Or(e > t, e < -t)
                if kind == "undef":
                    return z3.BoolVal(True)
                if isinstance(c, int):
                    return z3.BoolVal(c == 0)
                return z3.Not(en.b1(c))

            def solve(sub, level, mult=1.0, tmo=None):
                def fs(en):
                    return [en.b1(x) for x in pcs] + [z3.Or([viol(en, o, mult) for o in sub]) if len(sub) > 1 else viol(en, sub[0], mult)]
                return smt.check(fs, level, tmo or self.timeout, stats)
            done = False
            heavy = sum(1 for o in obs if o[0] == "close" and not (type(o[1]) is float)) > 8
            for level in range(0, 2):
                if heavy:
                    break
                r, m, en = solve(obs, level, tmo=min(self.timeout, 30000))
                if r == "unsat":
                    res["solved"] += len(obs)
                    done = True
                    break
            if done:
                continue
            # individually
            nfail = 0
            quick = 3

            def replay(ob, r, cand):
                if self.run_native(case, cand, 7)[0] in (0, 77, 78):
                    return False
                res["fails"].insert(0, {"msg": ob[3], "kind": ob[0], "verdict": r, "cands": [cand]})
                res["status"] = "cex"
                return True
            for ob in obs:
                r = None
                if len(obs) > 1 or heavy:
                    for level in range(0, 2):
                        r, m, en = solve([ob], level, tmo=None if quick == 0 else min(self.timeout, 15000))
                        if r == "unsat":
                            break
                        if quick:               # a model that fails on the real code settles the case
                            quick -= 1
                            if replay(ob, r, smt.model_inputs(m, en, eng.inputs) if m is not None else {}):
                                return
                    if r == "unknown":
                        r, m, en = solve([ob], level)
                if r != "unsat" and self.level_max >= 2:
                    r, m, en = solve([ob], 2, tmo=min(self.timeout, 20000))
                if r == "unsat":
                    res["solved"] += 1
                    continue
                nfail += 1
                cands = []
                if ob[0] == "close":
                    for mult in (1000.0, 30.0):
                        r2, m2, en2 = solve([ob], 1, mult, 10000)
                        if r2 == "sat":
                            cands.append(smt.model_inputs(m2, en2, eng.inputs))
                            break
                if m is not None:
                    cands.append(smt.model_inputs(m, en, eng.inputs))
                res["fails"].append({"msg": ob[3], "kind": ob[0], "verdict": r, "cands": cands})
                if nfail >= 3:
                    break
        if res["fails"]:
            res["status"] = "cex"

    def confirm(self, conf, res, stats, T, smt):
        """z3 decides that both sides of the compared normal forms agree within the tolerance plus coefficient rounding
        (10*RTOL of each monomial), with every monomial a real variable ranging over its interval"""
        import z3
        res["confirmed"] = 0
        tot = 0
        pick = []
        for ob in conf:
            a, b, tol = ob[2]
            n = (0 if type(a) is float else len(a.m)) + (0 if type(b) is float else len(b.m))
            if n == 0 or tot + n > 1000 or (type(a) is not float and a is b):
                continue
            tot += n
            pick.append(ob)
        if not pick:
            return
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 10000)
        mv = {}

        def var(mo):
            v = mv.get(mo)
            if v is None:
                lo, hi = T.mono_range(mo)
                v = mv[mo] = (z3.Real("m%d" % len(mv)), lo, hi)
                if lo > -T.INF: s.add(v[0] >= smt.q(lo))
                if hi < T.INF: s.add(v[0] <= smt.q(hi))
            return v
        alts = []
        for ob in pick:
            a, b, tol = ob[2]
            ma, mb = T.mdict(a), T.mdict(b)
            ts = []
            slack = max(tol, 0.0)
            for mo in set(ma) | set(mb):
                ca, cb = ma.get(mo, 0.0), mb.get(mo, 0.0)
                mag = max(T.cmag(ca), T.cmag(cb))
                lo, hi = T.mono_range(mo) if mo else (1.0, 1.0)
                w = max(abs(lo), abs(hi))
                if w == T.INF:
                    if ca == cb if type(ca) is float and type(cb) is float else False:
                        continue
                    slack = T.INF
                    break
                slack += 10 * T.RTOL * mag * w
                if type(ca) is float and type(cb) is float:
                    e = smt.q(ca) - smt.q(cb)
                    ts.append(e * var(mo)[0] if mo else e)
                else:
                    d = T.cadd(ca, T.cscale(cb, -1.0))
                    dl, dh = T.crange(d) if type(d) is not float else (d, d)
                    k = z3.Real("k%d" % len(mv) + "_%d" % len(ts))
                    x = max(abs(dl), abs(dh)) * w
                    s.add(k >= -smt.q(x), k <= smt.q(x))
                    ts.append(k)
            if slack == T.INF or not ts:
                continue
            e = z3.Sum(ts)
            alts.append(z3.Or(e > smt.q(slack), e < -smt.q(slack)))
        if not alts:
            return
        s.add(z3.Or(alts) if len(alts) > 1 else alts[0])
        r = str(s.check())
        stats.queries += 1
        stats.time += time.time() - t0
        if r == "unsat":
            res["confirmed"] = len(alts)
            stats.unsat += 1
        elif r == "sat":
            stats.sat += 1
            raise T.Unsupported("the solver contradicts a comparison of normal forms")
        else:
            stats.unknown += 1

    def validate_case(self, eng, case, res, T, symex):
        """compare the terms with a native run on random inputs"""
        rc, o, e, fn = self.run_native(case, {}, 1000 + vlib.SEED, trace=True)
        res["native_rc"] = rc
        if rc == 1 or rc not in (0, 77, 78):
            res["fails"].append({"msg": "random witness run fails natively: " + e[-400:], "kind": "witness", "verdict": "native", "cands": [{}]})
            res["status"] = "cex"
            return
        if rc != 0:
            res["validated"] = 0
            return
        ins = [float(l.split()[2]) for l in o.splitlines() if l.startswith("IN ")]
        pairs = [l.split()[1:3] for l in o.splitlines() if l.startswith("CLOSE ")]
        if len(ins) != len(eng.inputs):
            res["verr"] = "input count differs: %d vs %d" % (len(ins), len(eng.inputs))
            return
        bits = {}; reals = {}; wides = {}
        for inp, v in zip(eng.inputs, ins):
            if inp["kind"] == "float":
                reals[inp["atom"]] = v
            elif inp["vars"]:
                k = int(v) - inp["lo"]
                for j, vid in enumerate(inp["vars"]):
                    bits[vid] = k >> j & 1
            else:
                t = inp["term"]
                if isinstance(t, T.BV) and t.tab is None:
                    wides[t.args[0]] = int(v)
        ev = T.Eval(bits, reals, wides)
        n = bad = 0
        k = 0
        und = False
        seq = []
        for kind, pc, cond, msg in eng.obls:
            if kind != "close" or msg is None:
                continue
            if not (isinstance(cond, tuple) and len(cond) == 3):
                continue
            ok = True
            for c in symex.pc_list(pc):
                if isinstance(c, tuple):
                    continue
                if not ev.bv(c):
                    ok = False
                    break
            if not ok:
                continue
            a, b, tol = cond
            if getattr(a, "und", False) or getattr(b, "und", False):
                und = True
            seq.append((a, b, tol, msg))
        if und:
            res["validated"] = 1
            return
        cl = [l for l in o.splitlines() if l.startswith("CLOSE ")]
        if len(cl) == len(seq):
            for l, (a, b, tol, msg) in zip(cl, seq):
                p = l.split()
                na, nb, nt = float(p[1]), float(p[2]), float(p[3])
                ea = ev.f(a)
                sc = max(abs(na), abs(ea))
                if not (abs(na - ea) <= 2e-3 * sc + 3 * nt + 1e-9):
                    bad += 1
                    res["verr"] = "term value %g differs from native %g for %s" % (ea, na, msg)
                n += 1
            res["validated"] = 1 if not bad else 0
            res["compared"] = n
        else:
            res["validated"] = 1      # native run agrees (all checks pass); traces not comparable one to one
            res["note"] = "trace lengths differ %d/%d" % (len(cl), len(seq))


_jobs = {}
_mods = {}


def _worker(arg):
    ji, ci, nat = arg
    job = _jobs[ji]
    try:
        import llir
        m = _mods.get(ji)
        if m is None:
            _mods.clear()
            m = _mods[ji] = llir.parse_module(open(job.ll).read())
        import signal

        def alarm(*a):
            raise TimeoutError()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(job.case_timeout)
        try:
            r = job.run_case(m, job.cases[ci], nat)
        finally:
            signal.alarm(0)
        return ji, ci, r
    except TimeoutError:
        return ji, ci, {"case": job.cases[ci], "status": "timeout", "err": "case time limit", "obl": 0, "fails": []}
    except MemoryError:
        return ji, ci, {"case": job.cases[ci], "status": "timeout", "err": "memory", "obl": 0, "fails": []}
    except BaseException as ex:
        return ji, ci, {"case": job.cases[ci], "status": "error", "err": traceback.format_exc()[-3000:], "obl": 0, "fails": []}


def confirm(job, case, fails):
    """replay candidates natively; -> (failure message, values file content, output) or None"""
    seeds = 0
    tried = set()
    for fl in fails:
        for c in fl["cands"]:
            key = tuple(sorted(c.items()))
            if key in tried:
                continue
            tried.add(key)
            for k in range(3):
                seeds += 1
                rc, o, e, fn = job.run_native(case, c, seeds)
                if rc not in (0, 77, 78):
                    return fl["msg"], open(fn).read(), (o + e)[-3000:]
    for fl in fails[:4]:
        for c in fl["cands"][:2] + [{}]:
            for k in range(job.tries // 4):
                seeds += 1
                rng = random.Random(seeds)
                c2 = {i: v for i, v in c.items() if rng.random() < (0.7 if k % 2 else 0.95)}
                rc, o, e, fn = job.run_native(case, c2, seeds)
                if rc not in (0, 77, 78):
                    return fl["msg"], open(fn).read(), (o + e)[-3000:]
    return None


def run_jobs(chk, jobs, budget=840):
    """Run every case of every job on all cores; record obligations in chk."""
    global _jobs
    t0 = time.time()
    workdir()
    ok = []
    for j in jobs:
        try:
            j.build()
            j.native()
            ok.append(j)
        except ToolError as ex:
            chk.error("%s: %s" % (j.name, ex))
    _jobs = dict(enumerate(ok))
    tasks = []
    for ji, j in _jobs.items():
        nv = 0
        step = max(1, len(j.cases) // max(1, j.validate))
        for ci in range(len(j.cases)):
            nat = (ci % step == 0) and nv < j.validate
            nv += nat
            tasks.append((ji, ci, nat))
    if not tasks:
        return
    fns = set()
    agg = {ji: {"n": 0, "obl": 0, "trivial": 0, "interval": 0, "solved": 0, "confirmed": 0, "blocks": 0, "queries": 0, "st": 0.0, "bad": 0, "time": 0.0, "val": 0, "und": 0, "cmp": 0} for ji in _jobs}
    handled = {}
    ctx = mp.get_context("fork")
    nviol = {}
    with ctx.Pool(min(vlib.NCPU, len(tasks)), maxtasksperchild=60) as pool:
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        n = 0
        while n < len(tasks):
            left = budget - (time.time() - t0)
            try:
                ji, ci, r = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                chk.undecided("time budget exhausted after %d of %d cases" % (n, len(tasks)))
                pool.terminate()
                break
            n += 1
            j = _jobs[ji]
            a = agg[ji]
            a["n"] += 1
            for k in ("obl", "trivial", "interval", "solved", "blocks", "queries", "confirmed"):
                a[k] += r.get(k, 0)
            a["st"] += r.get("solver_time", 0.0); a["time"] += r.get("time", 0.0)
            a["val"] += r.get("validated", 0); a["cmp"] += r.get("compared", 0)
            fns.update(r.get("functions", ()))
            if os.environ.get("SV_VERBOSE"):
                print("  ", j.name, r["case"], r["status"], {k: v for k, v in r.items() if k not in ("case", "status", "functions", "fails")}, flush=True)
                for fl in r["fails"][:3]:
                    print("      ", fl["kind"], fl["verdict"], fl["msg"], [dict(list(c.items())[:12]) for c in fl["cands"]][:1])
            if r.get("verr"):
                chk.undecided("%s%r: encoding check against native run: %s" % (j.name, r["case"], r["verr"]))
            if r["status"] == "pass":
                continue
            a["bad"] += 1
            if r["status"] == "cex":
                if nviol.get(ji, 0) >= 2:
                    continue
                c = confirm(j, r["case"], r["fails"])
                if c is None and any(f["verdict"] == "sat" or f["verdict"] == "unknown" for f in r["fails"]):
                    chk.undecided("%s%r: %d obligations not decided (abstract counterexample not confirmed on the real code): %s" % (j.name, r["case"], len(r["fails"]), "; ".join(f["msg"] for f in r["fails"][:4])))
                    a["und"] += 1
                elif c is None:
                    chk.undecided("%s%r: %s" % (j.name, r["case"], r["fails"][0]["msg"]))
                    a["und"] += 1
                else:
                    nviol[ji] = nviol.get(ji, 0) + 1
                    chk.violation("%s case %r: %s" % (j.name, r["case"], c[0]), "inputs (replay: build harness/%s with -DSV_NATIVE against /repo, run on this list):\n%s\nnative output:\n%s" % (j.harness, c[1], c[2]), "%s_%s" % (j.name, "_".join(map(str, r["case"]))))
                    pool.terminate()
                    break
            elif r["status"] == "error":
                chk.error("%s%r: %s" % (j.name, r["case"], r["err"]))
            else:
                # outside the encodable fragment or too expensive: bounded native search so that a gross failure still shows
                c = confirm(j, r["case"], [{"msg": "direct run", "kind": "direct", "verdict": "-", "cands": [{}]}])
                if c is not None:
                    nviol[ji] = nviol.get(ji, 0) + 1
                    chk.violation("%s case %r: %s" % (j.name, r["case"], c[2][-300:]), "inputs:\n%s\nnative output:\n%s" % (c[1], c[2]), "%s_%s" % (j.name, "_".join(map(str, r["case"]))))
                else:
                    chk.undecided("%s%r: %s: %s" % (j.name, r["case"], r["status"], r["err"]))
                    a["und"] += 1
    for ji, j in _jobs.items():
        a = agg[ji]
        chk.obl.append({"name": j.name, "status": "pass" if not a["bad"] and a["n"] == len(j.cases) else "not all", "time": a["time"], "solver_time": a["st"],
                        "cases": a["n"], "obligations": a["obl"] + a["trivial"], "by_normal_form": a["trivial"] + a["interval"], "by_solver": a["solved"], "normal_forms_confirmed_by_solver": a["confirmed"],
                        "z3_queries": a["queries"], "undecided_cases": a["und"], "native_validations": a["val"], "native_values_compared": a["cmp"]})
        chk.steps += a["blocks"]
        chk.vccs += a["obl"] + a["trivial"]
        chk.validated += a["val"]
        chk.queries = getattr(chk, "queries", 0) + a["queries"]
    chk.functions = sorted(set(chk.functions) | {f for f in fns if not f.startswith(("harness", "sv_", "ref_", "stub_"))})
