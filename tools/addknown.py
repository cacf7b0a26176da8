#!/usr/bin/env python3
"""Adds to known_forms.jsonl.new the wrong forms that known_forms.jsonl does not
list yet, found in more random repetitions.  Run by hand only.
Usage: addknown.py REPS SEEDPREFIX"""
import collections, json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, insn, encode
exe = vf.build("plain"); reps = int(sys.argv[1]); pre = sys.argv[2]
known = [re.compile(k["key"]) for k in vf.load_known()]
F = insn.load(os.path.join(vf.VERIF, "data/forms.txt"))
groups = collections.defaultdict(list)
for rep in range(reps):
    jobs = []
    for tag in ("64", "32", "16", "64e", "32e"):
        fs = [f for f in F if f[0] == tag]; rng = random.Random("%s%d%s" % (pre, rep, tag)); rng.shuffle(fs)
        for i in range(0, len(fs), 1200): jobs.append((tag, fs[i:i + 1200], random.Random(rng.getrandbits(64))))
    def job(j):
        tag, fs, rng = j
        ps = [encode.instance(rng, tag, f) for f in fs]
        return tag, fs, ps, encode.judge(exe, tag, ps)
    new = 0
    for tag, fs, ps, vs in vf.pmap(job, jobs):
        for f, p, (v, d) in zip(fs, ps, vs):
            if v in ("ok", "skip"): continue
            k = encode.key_of(f, p[1])
            if any(r.fullmatch(k) for r in known): continue
            t = set(encode.traits(tag, f, p[1]).split(","))
            need = "DN" if "DN" in t else "V16" if "V16" in t else "H" if t & {"H8", "H16"} else "M8" if "M8" in t else ""
            groups[(encode.prop_of(f), tag, f[1], need)].append((f, p, d)); new += 1
    print(rep, new, len(groups), flush=True)
    if rep % 10 == 9 or rep == reps - 1:
        with open(os.path.join(vf.VERIF, "known_forms.jsonl.add"), "w") as o:
            for (prop, tag, mn, need), l in sorted(groups.items()):
                forms = sorted({",".join(f[2]) + "|" + f[3] for f, _, _ in l})
                rx = "|".join(re.escape(x) for x in forms)
                if need == "DN" and any("m" in x for x in forms):   # disp8*N goes by mnemonic, not by decoration
                    rx = "|".join(sorted({re.escape(x.split("|")[0]) + "\\|[^:]*" for x in forms}))
                key = "%s:%s:(?:%s):" % (tag, mn, rx)
                key += {"": "[^H]*", "H": ".*\\bH(?:8|16)\\b.*"}.get(need, ".*\\b%s\\b.*" % need)
                f, p, d = l[0]
                o.write(json.dumps({"property": prop, "status": "known", "key": key, "what": "%s-bit%s %s: %d operand form(s) wrong%s, e.g. `%s`: %s" % (
                    tag.rstrip("e"), " EVEX" if tag[-1] == "e" else "", mn, len(forms), {"": "", "H": " with registers 8 and up", "DN": " with a displacement", "M8": " with r8-r15 in the address", "V16": " with a vector index 16+"}[need], p[0], d[:140])}) + "\n")
