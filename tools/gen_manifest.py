#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every checks/cNN.py, the rest of properties.jsonl as not applicable with a reason."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
meta = json.load(open(os.path.join(V, "tools", "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    m = meta.get(i)
    f = "checks/%s.py" % i.lower()
    if m and os.path.exists(os.path.join(V, f)) and not m.get("not_applicable"):
        c = {"property": i, "quick_cmd": "python3-vt %s" % f, "thorough_cmd": "python3-vt %s%s" % (f, " --thorough" if "--thorough" in open(os.path.join(V, f)).read() else ""), "technique": m["technique"], "level": m["level"], "level_note": m["note"]}
        checks.append(c)
    else:
        na.append({"property": i, "reason": (m or {}).get("not_applicable", "check under construction: not claimed until its solver obligations are discharged on the current tree")})
man = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
