#!/usr/bin/env python3
"""Development helper (no check uses it): plant one bug in /repo, confirm that it builds, passes the tests and is shown by
its demonstration, and store it under seeded/.  Usage: mkseed.py SPEC.py   (SPEC defines id, prop, needs, breaks, edits, demo[, config])"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken.  Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
mkdir -p "$T/inc/mbelib-neo"
sed 's/@[A-Za-z_]*@/1/g' include/mbelib-neo/version.h.in > "$T/inc/mbelib-neo/version.h"
gcc -std=gnu11 -O1 -w -ffp-contract=off %(flags)s -DMBE_BUILDING=1 -Iinclude -Isrc/internal -Isrc/external/pffft -I"$T/inc" \\
    "$D/demo.c" $(find src -name '*.c') -lm -lpthread -o "$T/demo" || exit 99
timeout 200 "$T/demo"
'''


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo not clean"
    d = os.path.join(V, "seeded", g["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.c"), "w").write(g["demo"])
    fl = g.get("flags", "-DPFFFT_SIMD_DISABLE=1")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % {"flags": fl})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("cd %s && bash %s/demo.sh" % (R, d))
    print("clean demo rc", r.returncode, r.stdout[-300:], r.stderr[-300:])
    ok = r.returncode == 0
    try:
        for f, old, new in g["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) >= 1, (f, old)
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % R).stdout)
        r = sh("bash /opt/vp/build.sh")
        print("build rc", r.returncode)
        ok &= r.returncode == 0
        r = sh("bash /opt/vp/test.sh /tmp/seed_out.json | tail -1")
        print(r.stdout.strip())
        ok &= " 0 failed" in r.stdout
        r = sh("cd %s && bash %s/demo.sh" % (R, d))
        print("patched demo rc", r.returncode, (r.stdout + r.stderr)[-300:])
        ok &= r.returncode not in (0, 99)
    finally:
        sh("git -C %s checkout -- ." % R)
        sh("bash /opt/vp/build.sh")
    print("SEED", g["id"], "OK" if ok else "BAD")


main(sys.argv[1])
