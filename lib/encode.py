"""Shared engine of C01, C02 and C03: random instances of valid instruction
forms, assembled by UASM and by GNU as, decoded by one independent decoder."""
import os
import vf, x86, insn

def judge(exe, tag, pairs, pre="", gpre=""):
    """pairs: [(uasm line, gas line)].  Returns per pair (verdict, detail):
    ok / skip (GNU as rejects the instance) / bad (encodings differ) / reject."""
    mode = int(tag.rstrip("e")); evex = tag.endswith("e")
    g = x86.gas(mode, [p[1] for p in pairs])
    live = [i for i in range(len(pairs)) if g[i] is not None]
    u = insn.assemble(exe, mode, [pairs[i][0] for i in live], evex, pre)
    out = [("skip", "")] * len(pairs)
    have = [(i, b) for i, (b, w) in zip(live, u) if b is not None]
    for i, (b, w) in zip(live, u):
        if b is None: out[i] = ("reject", w)
    long = [i for i, b in have if len(b) > 15 or len(b) == 0]
    du = x86.disasm(mode, [b[:15] for i, b in have]); dg = x86.disasm(mode, [g[i] for i, b in have])
    # trim the reference to its first instruction
    for (i, b), x, y in zip(have, du, dg):
        nx, ny = insn.norm(x, mode), insn.norm(y, mode)
        if i in long: out[i] = ("bad", "%d bytes emitted: %s" % (len(b), b.hex()))
        elif nx == ny: out[i] = ("ok", b.hex())
        else: out[i] = ("bad", "emitted %s = %s   expected %s" % (b.hex(), x, y))
    return out

import re
def traits(tag, f, gline):
    """Features of an instance that select known defects: H = a vector or general
    register numbered 8+ (H16: 16+), NB = memory operand without base, D8 = small displacement
    that is no multiple of 64 (EVEX compression undecided), BP = base rbp/r13/bp without displacement,
    SX = index register present, SP = base rsp/r12, K0 = mask register k0."""
    t = []
    regs = re.sub(r"\[[^]]*\]", "", gline.split(" ", 1)[1] if " " in gline else "")
    nums = [int(x) for x in re.findall(r"[xyz]mm(\d+)", regs)] + [int(x) for x in re.findall(r"\br(\d+)[bwd]?\b", regs)]
    if any(n > 15 for n in nums): t.append("H16")
    elif any(n > 7 for n in nums): t.append("H8")
    m = re.search(r"\[([^]]*)\]", gline)
    if m:
        terms = re.findall(r"([+-]?)([^+-]+)", m[1])
        d = sum((-1 if s == "-" else 1) * int(x, 0) for s, x in terms if x[0].isdigit())
        regsm = [x for s, x in terms if not x[0].isdigit()]
        base = [x for x in regsm if "*" not in x]; idx = [x for x in regsm if "*" in x]
        if tag.endswith("e") and d and -128 <= d <= 127 and d % 64: t.append("D8")
        if tag.endswith("e") and d: t.append("DN")
        if not base: t.append("NB")
        if base and base[0] in ("rbp", "r13", "ebp", "bp") and not idx and not d: t.append("BP")
        elif base and base[0] in ("rbp", "r13", "ebp") and not d: t.append("BPX")
        if idx: t.append("SX")
        if any(re.match(r"r\d+", x) for x in regsm): t.append("M8")
        if any(re.match(r"[re]?bp|[re]?sp|r1[23]", x) for x in regsm): t.append("P5")
        v = re.search(r"[xyz]mm(\d+)", m[1])
        if v and int(v[1]) > 15: t.append("V16")
    if nums and nums[-1] == 23: t.append("R23")
    return ",".join(t)

def prop_of(f):
    """the property (C01 or C03) a form belongs to"""
    tag, mn, ops, deco = f
    if tag.endswith("e") or any(o in ("x", "y", "z", "k", "mm", "vmx", "vmy", "vmz", "m128", "m256", "m512") for o in ops): return "C03"
    if mn[0] == "v" and mn not in ("verr", "verw") and not mn.startswith("vm"): return "C03"
    return "C01"

def key_of(f, gline):
    return "%s:%s:%s|%s:%s:" % (f[0], f[1], ",".join(f[2]), f[3], traits(f[0], f, gline))

def evmem(mode):
    """EVEX memory operands: a base, mostly displacements whose disp8*N compression is unambiguous"""
    regs = insn.R64 if mode == 64 else insn.R32[:8]
    def af(r):
        b = r.choice(regs); x = ""
        if r.random() < .4: x = "+%s*%d" % (r.choice([q for q in regs if q not in ("rsp", "esp")]), r.choice([2, 4, 8]))
        d = r.choice(EVDISP) if r.random() < .6 else 0
        u, g = insn.num(d) if d else ("", "")
        j = lambda t: ("[%s%s%s]" % (b, x, ("+" + t) if t else "")).replace("+-", "-")
        return j(u), j(g)
    return af
EVDISP = [64, -64, 128, 256, 64 * 127, -64 * 128, 64 * 128, 0x10000, 192, -320, 512, 1024]
def instance(rng, tag, f):
    mode = int(tag.rstrip("e")); ev = tag[-1] == "e"
    return insn.insn(rng, mode, f[1], f[2], ev, f[3], addrfn=evmem(mode) if ev and not any(o[:2] == "vm" for o in f[2]) else None)

def run_forms(C, prop, reps, special=False):
    """The whole of C01 / C03: every corpus form of the property in random instances."""
    import random, special as sp
    exe = vf.build("plain")
    # an EVEX instance whose displacement is no multiple of 64, that has no base, or names register 23, is
    # wrong for many mnemonics (one known finding each trait); drawn rarely
    F = [f for f in insn.load(os.path.join(vf.VERIF, "data/forms.txt")) if prop_of(f) == prop]
    jobs = []
    for rep in range(reps):
        for tag in ("64", "32", "16") + (("64e", "32e") if prop == "C03" else ()):
            fs = [f for f in F if f[0] == tag]
            C.rng.shuffle(fs)
            for i in range(0, len(fs), 1200): jobs.append((tag, fs[i:i + 1200], random.Random(C.rng.getrandbits(64))))
    def job(j):
        tag, fs, rng = j
        mode = int(tag.rstrip("e")); ev = tag[-1] == "e"
        if fs == "special":
            pairs = sp.special(rng, mode); keys = [("sp:%d:%s" % (mode, re.sub(r"\d+", "#", p[0])), p[0].split()[0], "special") for p in pairs]
        else:
            pairs = [instance(rng, tag, f) for f in fs]
            keys = [(key_of(f, p[1]), f[1], "%s %s %s|%s" % (tag, f[1], ",".join(f[2]), f[3])) for f, p in zip(fs, pairs)]
        try: return tag, keys, pairs, judge(exe, tag, pairs)
        except insn.Broken as x: return tag, None, x.args, None
    if special: jobs += [(t, "special", random.Random(C.rng.getrandbits(64))) for t in ("64", "32", "16") for _ in range(reps)]
    for tag, keys, pairs, vs in vf.pmap(job, jobs):
        if keys is None:
            C.violation("broken:" + tag, str(pairs[0]), {"t.asm": pairs[1]}, ["uasm", "-q", "-bin", "-Fo", "t.bin", "t.asm"]); continue
        for (key, mn, cls), p, (v, d) in zip(keys, pairs, vs):
            if v == "skip": C.count("reference_rejects"); continue
            C.count("verdict_" + v); C.seen("mnemonics", mn); C.seen("forms", cls)
            C.case(tag + ":" + p[0], sample="%s: %s -> %s" % (tag, p[0], d))
            if v != "ok":
                m = int(tag.rstrip("e"))
                C.violation(key, "`%s` (%s): %s %s" % (p[0], tag, v, d),
                            {"t.asm": insn.HDR[m] + ("option evex:1\n" if tag[-1] == "e" else "") + "lab:\n" + p[0] + "\n_T ends\nend\n"}, ["uasm", "-q", "-bin", "-Fo", "t.bin", "t.asm"])
