#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed properties are those with a checks/cNN.py."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
D = {}; exec(open(os.path.join(V, "tools", "design", "notes.py")).read())
checks = []; na = []
for p in props:
    f = "checks/%s.py" % p["id"].lower()
    if os.path.exists(os.path.join(V, f)) and p["id"] in T:
        t = T[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 " + f, "thorough_cmd": "python3 " + f,
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": t[0], "level": t[2] if len(t) > 2 else "exploration", "level_note": t[1]})
    else:
        na.append({"property": p["id"], "reason": NOT.get(p["id"], "no check yet (work in progress)")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": HOOKS, "checks": checks, "not_applicable": na,
     "notes": "Every check builds /repo's working tree natively (gcc/clang, shims in native/shim) and monitors real runs of the assembler; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
