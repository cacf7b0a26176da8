#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*, techniques, findings and planted bugs."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); R = lambda f: open(os.path.join(V, f)).read()
T = {}; exec(R("tools/techniques.py")); exec(R("tools/design/notes.py"))
K = [json.loads(l) for l in R("known_findings.jsonl").split("\n") if l.strip()]
out = [R("tools/design/head.md")]; S = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")): m = json.load(open(f)); S.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
caught = dict(l.split(None, 1) for l in R("tools/design/caught.txt").split("\n") if l.strip())
nf = os.path.join(V, "known_forms.jsonl"); forms = sum(1 for _ in open(nf)) if os.path.exists(nf) else 0
for l in R("properties.jsonl").split("\n"):
    if not l.strip(): continue
    p = json.loads(l); i = p["id"]; out.append("### %s %s\n" % (i, p["title"]))
    if i not in T: out.append("Not claimed: %s\n" % NOT.get(i, "no check yet.")); continue
    d = D.get(i, ("", "", "none")); out.append("*Technique*: %s.\n" % T[i][0]); out.append("*Decided by*: %s\n" % d[0])
    out.append("*Bounds and trust*: %s\n" % T[i][1])
    if d[1]: out.append("*Beyond tests*: %s\n" % d[1])
    if d[2] != "none": out.append("*Not reported because right (false alarms corrected)*: %s\n" % d[2])
    fx = [k["what"].split(" ", 2)[2] for k in K if k["property"] == i and k["status"] == "fixed"]; kn = [k for k in K if k["property"] == i and k["status"] == "known"]
    if fx: out.append("*Defects repaired*:\n" + "\n".join("- " + x for x in fx) + "\n")
    if kn: out.append("*Known findings*:\n" + "\n".join("- `%s`: %s" % (k["key"], k["what"]) for k in kn) + "\n")
    if i in ("C01", "C03") and forms: out.append("Individually listed wrong forms are in known_forms.jsonl.\n")
    if i in S: out.append("*Planted bugs*:\n" + "\n".join("- %s: needs %s; %s (%s)" % (n, m["needs"], m["what_it_breaks"], caught.get(n, "caught by %s" % i)) for n, m in S[i]) + "\n")
fx = [k for k in K if k["status"] == "fixed" and k["property"] not in T]
if fx: out.append("## Repairs of properties not claimed\n\n" + "\n".join("- " + k["what"] for k in fx) + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(sum(map(len, out)), "characters")
