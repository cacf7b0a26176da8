#!/usr/bin/env python3
"""Lists the instruction forms that are wrong on the present tree (a finding
per mnemonic): writes known_forms.jsonl.  Usage: mkknown.py TAG:REPS ...
Run by hand only; no check writes this file."""
import collections, json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, insn, encode
exe = vf.build("plain")
CAND = ("DN", "H8", "H16", "M8", "BP", "NB", "V16", "SX", "P5", "BPX")
GLOB = ("D8", "NB", "R23")
out = []
for arg in sys.argv[1:]:
    tag, reps = arg.split(":"); reps = int(reps); mode = int(tag.rstrip("e")); ev = tag[-1] == "e"
    F = [f for f in insn.load(os.path.join(vf.VERIF, "data/forms.txt")) if f[0] == tag]
    tot = collections.Counter(); without = collections.defaultdict(collections.Counter); bad = collections.defaultdict(list)
    for rep in range(reps):
        rng = random.Random("known%d" % rep)
        items = [(f, encode.instance(rng, tag, f)) for f in F]
        items = [(f, p, set(encode.traits(tag, f, p[1]).split(","))) for f, p in items]
        items = [x for x in items if not (ev and x[2] & set(GLOB))]
        ch = [items[i:i + 1500] for i in range(0, len(items), 1500)]
        for c, rs in zip(ch, vf.pmap(lambda c: encode.judge(exe, tag, [x[1] for x in c]), ch)):
            for (f, p, t), (v, d) in zip(c, rs):
                if v == 'skip': continue
                tot[f] += 1
                for q in CAND:
                    if q not in t: without[f][q] += 1
                if v in ("bad", "reject"): bad[f].append((t, p, d))
        print(tag, rep, len(bad), sum(map(len, bad.values())), flush=True)
    groups = collections.defaultdict(list)
    for f, l in bad.items():
        common = set.intersection(*[t for t, p, d in l]) - {""}
        need = ""
        c = sorted((without[f][q], q) for q in CAND if q in common and without[f][q] >= 4)
        if len(l) >= 2 and c: need = c[-1][1]
        elif len(l) >= 2 and len(l) < .8 * tot[f] and all({"H8", "H16"} & t for t, p, d in l): need = "H"
        groups[(encode.prop_of(f), f[1], need)].append((f, l))
    for (prop, mn, need), l in sorted(groups.items()):
        forms = sorted({",".join(f[2]) + "|" + f[3] for f, _ in l})
        key = "%s:%s:(?:%s):" % (tag, mn, "|".join(re.escape(x) for x in forms))
        key += {"": ".*", "H": ".*\\bH(?:8|16)\\b.*"}.get(need, ".*\\b%s\\b.*" % need)
        f, b = l[0]
        t, p, d = b[0]
        out.append({"property": prop, "status": "known", "key": key,
                    "what": "%s-bit%s %s: %d operand form(s) wrong%s, e.g. `%s`: %s" % (mode, " EVEX" if ev else "", mn, len(forms),
                       {"": "", "H": " with registers 8 and up", "H8": " with registers 8-15", "H16": " with registers 16-31", "NB": " without base register", "DN": " with a displacement", "BP": " with base bp and no displacement", "M8": " with r8-r15 in the address"}.get(need, " when the operands have feature " + need), p[0], d[:140])})
with open(os.path.join(vf.VERIF, "known_forms.jsonl.new"), "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
print(len(out), "entries")
