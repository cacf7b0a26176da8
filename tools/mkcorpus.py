#!/usr/bin/env python3
"""From the accepted-and-valid forms found by mkforms.py, builds the corpus of
instruction templates data/forms.txt: MODE[e] MNEMONIC KINDS[|DECO] ...
A form is kept when GNU as accepts it too, i.e. it is architecturally valid."""
import json, os, random, re, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, x86, insn
from mkforms import uasm_accepts
D = sys.argv[1]; OUT = sys.argv[2]
exe = vf.build("plain")
def excluded(tag, mn, ops):
    return (re.match(r"(cmps|movs|lods|stos|scas|ins|outs)[bwdq]?$", mn) and ops    # operands only documentary; in the special list
            and not (mn == "movsd" and "x" in ops or mn == "cmpsd" and "x" in ops)
            or mn == "bextr" and any(o in ("i16", "i32", "in", "i8", "i1") for o in ops)   # AMD TBM form, not supported
            or "m48" in ops and (mn.startswith(("prefetch", "clflush")) or tag == "16")
            or mn in ("retd", "retw", "retfd", "retfw", "pushf", "popf", "iret", "pushd", "pushw", "fsetpm", "push", "pop") and tag == "16"
            or mn in ("retd", "retw", "pushf", "popf", "iret", "fsetpm")
            or mn == "vcvttps2dq" and ops == ["x", "m256"])
forms = []
seen = collections.defaultdict(set)
for tag in ("64", "32", "16"):
    for l in open("%s/f%s" % (D, tag)):
        mn, ops = json.loads(l)[:2]
        if "lab" in ops or excluded(tag, mn, ops): continue
        seen[tag].add((mn, tuple(ops), ""))
BN = {"z": {"m32": "16", "m64": "8"}, "y": {"m32": "8", "m64": "4"}, "x": {"m32": "4", "m64": "2"}}
for tag in ("64e", "32e"):
    cand = []
    for l in open("%s/f%s" % (D, tag)):
        mn, ops, ul, uh, gh = json.loads(l)[:5]
        ops = tuple(ops)
        if not (uh.startswith("62") or gh.startswith("62") or mn[0] == 'k' or any(o in 'xyz' for o in ops)): continue
        if "lab" in ops: continue
        evex = uh.startswith("62") or gh.startswith("62")
        if evex or mn[0] == 'k': cand.append((mn, ops, ""))
        if mn[0] == 'k': continue
        bs = [""]
        if any(o in ("m", "m32", "m64", "m128", "m256", "m512") for o in ops):
            if "m" in ops: bs += ["b2", "b4", "b8", "b16"]
        elif ops and not any(o[0] == "v" for o in ops): bs += ["sae", "rn", "rd", "ru", "rz"]
        for b in bs:
            for k in ("", "km", "kz"):
                d = ",".join(x for x in (k, b) if x)
                if d: cand.append((mn, ops, d))
    # which candidates are valid for GNU as and accepted by UASM (3 tries with different registers)
    cand = list(dict.fromkeys(cand))
    mode = int(tag[:-1])
    rng = random.Random(5)
    def job(chunk):
        ok = set()
        pr = [insn.insn(rng, mode, mn, ops, True, d) for mn, ops, d in chunk]
        g = x86.gas(mode, [p[1] for p in pr])
        live = [i for i in range(len(chunk)) if g[i] is not None]
        acc, code, err = uasm_accepts(exe, mode, [pr[i][0] for i in live], True)
        if err: print("!!", err)
        for a in acc: ok.add(chunk[live[a]])
        return ok, {chunk[i]: pr[i][0] for i in live}
    chunks = [cand[i:i + 1500] for i in range(0, len(cand), 1500)]
    nv = 0; rej = {}
    for ok, valid in vf.pmap(job, chunks):
        seen[tag] |= ok; nv += len(valid)
        for v in valid:
            if v not in ok: rej[v] = valid[v]
    print(tag, "candidates", len(cand), "valid", nv, "accepted", len(seen[tag]))
    with open("%s/rej%s" % (D, tag), "w") as f:
        for v, t in rej.items(): f.write(repr(v) + "\t" + t + "\n")
with open(OUT, "w") as f:
    for tag in ("64", "32", "16", "64e", "32e"):
        by = collections.defaultdict(list)
        for mn, ops, d in sorted(seen[tag]): by[mn].append(",".join(ops) + ("|" + d if d else ""))
        for mn in sorted(by): f.write("%s %s %s\n" % (tag, mn, " ".join(x or "-" for x in by[mn])))
print({t: len(s) for t, s in seen.items()})
