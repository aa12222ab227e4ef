"""Shared driver for the checks: source configurations, CBMC jobs, native replay, evidence, verdicts."""
import atexit, concurrent.futures as cf, json, threading, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NCPU = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

SRC = {
    "ecc": "src/ecc/ecc.c", "eccc": "src/ecc/ecc_const.c",
    "i72": "src/imbe/imbe7200x4400.c", "i71": "src/imbe/imbe7100x4400.c",
    "a24": "src/ambe/ambe3600x2400.c", "a25": "src/ambe/ambe3600x2450.c", "ac": "src/ambe/ambe_common.c",
    "core": "src/core/mbelib.c", "ad": "src/core/mbe_adaptive.c", "uv": "src/core/mbe_unvoiced_fft.c",
    "pffft": "src/external/pffft/pffft.c",
}
CONFIG_DEFS = {
    "scalar": ["-DPFFFT_SIMD_DISABLE=1", "-DMBE_BUILDING=1"],
    "simd": ["-DMBELIB_ENABLE_SIMD=1", "-DMBE_BUILDING=1"],
    "notones": ["-DPFFFT_SIMD_DISABLE=1", "-DMBE_BUILDING=1", "-DDISABLE_AMBE_TONES=1"],
}


def repo_sources():
    """Every library .c file of the current tree (new files a change adds are picked up too)."""
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith(".c"):
                out.append(os.path.join(root, f))
    return sorted(out)


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif_")
        pid = os.getpid()

        def _rm(path=_work, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_rm)
        inc = os.path.join(_work, "inc", "mbelib-neo")
        os.makedirs(inc)
        make_version_h(os.path.join(inc, "version.h"))
    return _work


def make_version_h(dst):
    tmpl = open(os.path.join(REPO, "include/mbelib-neo/version.h.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", cm, re.S)
    ver = m.group(1) if m else "0.0.0"
    parts = (ver.split(".") + ["0", "0", "0"])[:3]
    def sub(mm):
        k = mm.group(1)
        if k.endswith("VERSION_MAJOR"): return parts[0]
        if k.endswith("VERSION_MINOR"): return parts[1]
        if k.endswith("VERSION_PATCH"): return parts[2]
        if k.endswith("VERSION"): return ver
        return ""
    open(dst, "w").write(re.sub(r"@([A-Za-z_]+)@", sub, tmpl))


def include_flags():
    w = workdir()
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/internal"),
            "-I" + os.path.join(REPO, "src/external/pffft"), "-I" + os.path.join(w, "inc"),
            "-I" + os.path.join(VERIF, "harness")]


class ToolError(Exception):
    pass


def run(cmd, timeout=None, mem_gb=None, cwd=None, env=None, input=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input else subprocess.DEVNULL,
                         text=True, errors="replace", preexec_fn=pre, cwd=cwd, env=env)
    try:
        o, e = p.communicate(input=input, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -999, o, e


# ------------------------------------------------------------------ native builds (replay, validation)
def native_build(name, extra_sources, config="scalar", flags=(), repo_srcs=None, cc="gcc", sanitize=True, opt="-O1"):
    """Compile real /repo sources plus extra C files into a native executable."""
    w = workdir()
    exe = os.path.join(w, name)
    srcs = repo_sources() if repo_srcs is None else repo_srcs
    san = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"] if sanitize else []
    cmd = [cc, "-std=gnu11", opt, "-g", "-w", "-ffp-contract=off", *san, *CONFIG_DEFS[config], *include_flags(), *flags, *extra_sources, *srcs, "-lm", "-lpthread", "-o", exe]
    rc, o, e = run(cmd, timeout=300)
    if rc != 0:
        raise ToolError("native build failed: %s\n%s" % (" ".join(cmd), e[-3000:]))
    return exe


_exe_lock = threading.Lock()
_exe_locks = {}
_exe_cache = {}
_obj_cache = {}
_obj_lock = threading.Lock()


def native_objs(config):
    """Sanitized object files of all library sources, compiled once per run and configuration."""
    with _obj_lock:
        if config not in _obj_cache:
            w = os.path.join(workdir(), "obj_" + config)
            os.makedirs(w, exist_ok=True)
            jobs = []
            for i, s in enumerate(repo_sources()):
                o = os.path.join(w, "%d.o" % i)
                cmd = ["gcc", "-std=gnu11", "-O1", "-g", "-w", "-ffp-contract=off", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                       *CONFIG_DEFS[config], *include_flags(), "-c", s, "-o", o]
                jobs.append((cmd, o))
            with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
                for (cmd, o), (rc, so, se) in zip(jobs, ex.map(lambda j: run(j[0], timeout=300), jobs)):
                    if rc != 0:
                        raise ToolError("native build failed: %s" % se[-2000:])
            _obj_cache[config] = [o for _, o in jobs]
        return _obj_cache[config]


SAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:halt_on_error=1", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")


# ------------------------------------------------------------------ CBMC
_goto_cache = {}


def goto_objs(config, shim=False):
    """Every library source of the current tree as a goto object, compiled once per run and configuration."""
    with _obj_lock:
        key = (config, bool(shim))
        if key not in _goto_cache:
            w = os.path.join(workdir(), "goto_%s_%d" % key)
            os.makedirs(w, exist_ok=True)
            incs = include_flags()
            if shim:
                incs = ["-I" + os.path.join(VERIF, "harness", "shim")] + incs
            jobs = []
            for i, s in enumerate(repo_sources()):
                o = os.path.join(w, "%d.gb" % i)
                jobs.append((["goto-cc", "-DVH_CBMC=1", "-std=gnu11", *CONFIG_DEFS[config], *incs, "-c", s, "-o", o], o))
            with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
                for (cmd, o), (rc, so, se) in zip(jobs, ex.map(lambda j: run(j[0], timeout=300), jobs)):
                    if rc != 0:
                        raise ToolError("goto-cc failed: %s %s" % (so[-1000:], se[-2000:]))
            _goto_cache[key] = [o for _, o in jobs]
        return _goto_cache[key]


class Cbmc:
    """One CBMC obligation: a harness (main = `entry`) over a set of real sources.

    The harness uses harness/vh.h: VH_* inputs, CHECK, ASSUME, VH_END (reachability witness).
    """

    def __init__(self, name, harness, sources=(), entry="harness", defs=(), config="scalar", unwind=260, unwindset=(),
                 flags=(), std_checks=False, timeout=300, mem_gb=6, remove_bodies=(), shim=False, solver=(), replay_defs=(),
                 native_config=None, slice=False, validate=True):
        self.__dict__.update(locals())

    # -- build goto binary
    def build(self):
        w = workdir()
        out = os.path.join(w, re.sub(r"[^A-Za-z0-9_]", "_", self.name) + ".gb")
        incs = include_flags()
        if self.shim:
            incs = ["-I" + os.path.join(VERIF, "harness", "shim")] + incs
        defs = [d if d.startswith("-") else "-D" + d for d in self.defs]
        srcs = [os.path.join(VERIF, "harness", self.harness)]
        cmd = ["goto-cc", "-DVH_CBMC=1", "-std=gnu11", *CONFIG_DEFS[self.config], *incs, *defs, "-o", out, *srcs, *goto_objs(self.config, self.shim)]
        rc, o, e = run(cmd, timeout=120)
        if rc != 0 or not os.path.exists(out):
            raise ToolError("goto-cc failed for %s: %s %s" % (self.name, o[-1500:], e[-1500:]))
        return out

    def cmd(self, gb):
        c = ["cbmc", gb, "--function", self.entry, "--json-ui", "--verbosity", "8", "--trace", "--drop-unused-functions", "--unwinding-assertions",
             "--no-malloc-may-fail", "--object-bits", "10"] + ([] if "--sat-solver" in self.solver else ["--sat-solver", "cadical"])
        if not self.std_checks:
            c += ["--no-standard-checks"]
        if self.unwind:
            c += ["--unwind", str(self.unwind)]
        for u in self.unwindset:
            c += ["--unwindset", u]
        if self.slice:
            c += ["--slice-formula"]
        c += list(self.solver) + list(self.flags)
        return c

    def solve(self):
        t0 = time.time()
        r = {"name": self.name, "status": "error", "failures": [], "detail": "", "values": {}}
        try:
            gb = self.build()
        except ToolError as ex:
            r["detail"] = str(ex)
            r["time"] = time.time() - t0
            return r
        rc, o, e = run(self.cmd(gb), timeout=self.timeout, mem_gb=self.mem_gb)
        r["time"] = time.time() - t0
        try:
            os.unlink(gb)
        except OSError:
            pass
        if rc == -999:
            r["status"] = "timeout"
            return r
        try:
            js = json.loads(o)
        except Exception:
            r["detail"] = "unparsable output rc=%d %s %s" % (rc, o[-800:], e[-400:])
            return r
        props = None
        msgs = []
        for item in js:
            if "result" in item:
                props = item["result"]
            if "messageText" in item:
                msgs.append(item["messageText"])
        r["solver_time"] = sum(float(m.group(1)) for m in (re.search(r"Runtime Solver: ([0-9.e+-]+)s", x) for x in msgs) if m)
        for x in msgs:
            mm = re.search(r"size of program expression: (\d+) steps", x)
            if mm:
                r["steps"] = int(mm.group(1))
            mm = re.search(r"Generated (\d+) VCC", x)
            if mm:
                r["vccs"] = int(mm.group(1))
        m = [re.search(r"(\d+) variables, (\d+) clauses", x) for x in msgs]
        m = [x for x in m if x]
        if m:
            r["clauses"] = int(m[-1].group(2))
        if props is None:
            r["detail"] = "no result: " + " | ".join(msgs[-4:])
            return r
        r["assertions"] = len(props) - 1
        reach = None
        for p in props:
            d = p.get("description", "")
            if d == "VH_REACH":
                if p["status"] == "FAILURE":
                    reach = True
                    r["witness"] = trace_values(p.get("trace", []))
                elif reach is None:
                    reach = False
            elif p["status"] == "FAILURE":
                r["failures"].append({"property": p.get("property"), "description": d, "values": trace_values(p.get("trace", [])),
                                      "location": p.get("sourceLocation", {})})
            elif p["status"] != "SUCCESS":
                r["detail"] = "property %s: %s" % (d, p["status"])
                return r
        r["reach"] = reach
        if r["failures"]:
            r["status"] = "fail"
        elif reach is True:
            r["status"] = "pass"
        else:
            r["status"] = "vacuous"
            r["detail"] = "reachability witness not violated (reach=%s)" % reach
        return r

    def native_exe(self):
        defs = [d if d.startswith("-") else "-D" + d for d in list(self.defs) + list(self.replay_defs)]
        key = (self.harness, self.entry, tuple(defs), self.native_config or self.config)
        with _exe_lock:
            lk = _exe_locks.setdefault(key, threading.Lock())
        with lk:
            if key not in _exe_cache:
                name = "replay_%d" % (abs(hash(key)) % (1 << 40))
                _exe_cache[key] = native_build(name, [os.path.join(VERIF, "harness", self.harness)], config=self.native_config or self.config,
                                               flags=["-DVH_ENTRY=%s" % self.entry, *defs], repo_srcs=native_objs(self.native_config or self.config))
            return _exe_cache[key]

    # -- replay a failure natively
    def replay(self, failure, tag):
        """Returns (reproduced, path, output)."""
        w = workdir()
        vals = os.path.join(w, "vals_%s.txt" % tag)
        with open(vals, "w") as f:
            for k in sorted(failure["values"]):
                f.write("%d %d\n" % (k, failure["values"][k]))
        exe = self.native_exe()
        rc, o, e = run([exe, vals], timeout=60, env=SAN_ENV)
        return rc not in (0, 77), vals, (o[-2000:] + e[-3000:])


def trace_values(trace):
    vals = {}
    for st in trace:
        if st.get("stepType") != "assignment":
            continue
        m = re.match(r"vh_vals\[(\d+)[lu]*\]$", str(st.get("lhs", "")))
        if not m:
            continue
        v = st.get("value", {})
        data = v.get("binary")
        if data is not None and re.fullmatch(r"[01]+", data):
            x = int(data, 2)
            if x >= 1 << (len(data) - 1):
                x -= 1 << len(data)
            vals[int(m.group(1))] = x
        elif "data" in v:
            mm = re.match(r"-?\d+", str(v["data"]))
            if mm:
                vals[int(m.group(1))] = int(mm.group(0))
    return vals


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    res.append(d)
    return res


# ------------------------------------------------------------------ a check run
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.obl = []          # obligations: dicts name,status,time,...
        self.violations = []   # (what, replay path)
        self.errors = []
        self.notes = []
        self.assumptions = []
        self.functions = []
        self.bounds = []
        self.samples = []
        self.steps = self.vccs = 0
        self.validated = 0     # encoding-vs-real-code comparisons that ran
        self.extra = {}
        self.undec = []

    def save_replay(self, tag, content):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s.txt" % (self.prop, re.sub(r"[^A-Za-z0-9_]", "_", tag)[:60]))
        with open(p, "w") as f:
            f.write(content)
        return p

    def violation(self, what, content, tag=None):
        p = self.save_replay(tag or str(len(self.violations)), what + "\n" + content)
        self.violations.append((what, p))
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        print("  " + what.replace("\n", "\n  ")[:1500], flush=True)

    def error(self, msg):
        self.errors.append(msg)
        print("ERROR %s: %s" % (self.prop, msg[:3000]), flush=True)

    def run_cbmc(self, jobs):
        """Solve jobs in parallel; replay failures; record obligations."""
        workdir()
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            futs = {ex.submit(j.solve): j for j in jobs}
            for f in cf.as_completed(futs):
                j = futs[f]
                r = f.result()
                self.obl.append({k: r.get(k) for k in ("name", "status", "time", "solver_time", "assertions", "clauses")})
                if r["status"] == "pass":
                    self.steps += r.get("steps", 0)
                    self.vccs += r.get("vccs", 0)
                    if j.validate:
                        try:
                            rep, vals, out = j.replay({"values": r.get("witness", {})}, "%s_%s_wit" % (self.prop, j.name))
                        except ToolError as ex2:
                            self.error(str(ex2))
                            continue
                        if rep:
                            self.error("%s: witness run disagrees with the encoding on the real build: %s" % (j.name, out))
                        else:
                            self.validated += 1
                            if len(self.samples) < 3:
                                self.samples.append({"obligation": j.name, "witness_inputs": dict(list(r.get("witness", {}).items())[:40])})
                    continue
                if r["status"] == "fail":
                    seen = set()
                    rep = False
                    for i, fl in enumerate(r["failures"]):
                        if "unwinding assertion" in fl["description"]:
                            self.error("%s: unwinding bound too small at %s" % (j.name, fl["location"]))
                            rep = True
                            continue
                        key = tuple(sorted(fl["values"].items()))
                        if key in seen:
                            continue
                        seen.add(key)
                        try:
                            ok, vals, out = j.replay(fl, "%s_%s_%d" % (self.prop, j.name, i))
                        except ToolError as ex2:
                            self.error(str(ex2))
                            continue
                        if ok:
                            rep = True
                            self.violation("%s: %s [%s]" % (j.name, fl["description"], fl["property"]),
                                           "inputs (index value):\n%s\nharness %s entry %s defs %s\nnative replay output:\n%s" % (open(vals).read(), j.harness, j.entry, j.defs, out), j.name)
                            break
                    if not rep:
                        self.error("%s: counterexample did not reproduce on the real build: %s" % (j.name, [x["description"] for x in r["failures"]][:5]))
                else:
                    self.error("%s: %s %s" % (j.name, r["status"], r["detail"]))

    def undecided(self, msg):
        """an obligation neither proved nor refuted on the real code: recorded, not an alarm"""
        self.undec.append(msg)
        if len(self.undec) <= 20:
            print("UNDECIDED %s: %s" % (self.prop, msg[:600]), flush=True)

    def add(self, name, status, t, **kw):
        self.obl.append(dict(name=name, status=status, time=t, **kw))

    def finish(self):
        ndis = sum(1 for o in self.obl if o["status"] == "pass")
        for kf in known_findings(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kf["what"]))
        cov = {
            "functions_encoded": self.functions, "bounds": self.bounds,
            "queries": len(self.obl), "queries_discharged": ndis,
            "solver_time_s": round(sum((o.get("solver_time") or 0) for o in self.obl), 2),
            "obligation_wall_s": round(sum((o.get("time") or 0) for o in self.obl), 2),
            "obligation_list": self.obl[:60],
            "samples": self.samples or [o["name"] for o in self.obl[:5]],
        }
        if self.level == "proof":
            cov.update(obligations=len(self.obl), discharged=ndis)
        elif self.level == "model_checking":
            cov.update(states=self.steps, transitions=self.vccs, states_are="symbolic execution steps (SSA assignments) encoded", transitions_are="verification conditions generated",
                       traces_validated_against_impl=self.validated)
        elif self.level == "other":
            cov.setdefault("explanation", "")
        cov.update(self.extra)
        if self.errors:
            cov["errors"] = [x[:500] for x in self.errors[:20]]
        if self.undec:
            cov["undecided"] = self.undec[:40]
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d violations, %d errors, %.1fs" % (self.prop, len(self.obl), ndis, len(self.violations), len(self.errors), time.time() - self.t0))
        if self.violations:
            return 1
        # an obligation that could not be decided (or a tool failure) is reported above and in the evidence; the run only
        # counts as broken when nothing at all was decided
        some = ndis or any(o.get("by_normal_form", 0) + o.get("by_solver", 0) for o in self.obl)
        if not some:
            return 2
        return 0
