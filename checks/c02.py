#!/usr/bin/env python3
"""C02: every addressing form reaches the address that was written.  Memory
operands of all shapes in randomly chosen instructions; the emitted code is
decoded independently and the operand it accesses (segment, registers, scale,
absolute or RIP-relative target) compared with the one written."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, x86, insn, encode
from insn import R64, R32, num, disp

PLAIN = {64: "[rbx]", 32: "[ebx]", 16: "[bx]"}

def shape(rng, mode, assume):
    """(uasm text, gas text with {LABEL} for label offsets, class)"""
    c = rng.choice; r = rng.random()
    a = mode if rng.random() < .75 else {64: 32, 32: 16, 16: 32}[mode]
    seg = "" if rng.random() < .7 else c(["fs", "gs"] if mode == 64 else ["es", "cs", "ss", "ds", "fs", "gs"]) + ":"
    regs = {64: R64, 32: R32[:16 if mode == 64 else 8], 16: None}[a]
    if r < .30:      # label forms
        lab = c(["dat0", "dat1", "dat2", "dat3"]); k = c([0, 0, 1, -1, 4, 127, -128, 200, rng.randrange(-3000, 3000)])
        dst = {"dsT": "ds:", "esT": "es:", "cs": "cs:", "fsT": "fs:"}[assume] if mode != 64 else ""
        if a != mode: a = mode; regs = {64: R64, 32: R32[:8], 16: None}[a]
        ks = "%+d" % k if k else ""
        t = rng.random()
        if t < .5:
            u = c([lab + ks, "[%s%s]" % (lab, ks), "%s[%d]" % (lab, k) if k > 0 else lab + ks])
            g = "{%s%s}" % (lab, ks)
            if seg and mode != 64: return seg + u, seg + "[" + g + "]", "label-ovr"
            return u, dst + "[" + g + "]", "label"
        if a == 16:
            b = c(["bx", "si", "di", "bp", "bx+si", "bp+di"])
        else:
            b = c(regs); x = c([x for x in regs if x not in ("esp", "rsp")])
            if rng.random() < .5: b = "%s+%s*%d" % (b, x, c([2, 4, 8]))
        u = c(["%s%s[%s]" % (lab, ks, b), "[%s+%s%s]" % (lab, b, ks), "%s[%s]" % (lab, b + ks)])
        g = "[%s+{%s%s}]" % (b, lab, ks)
        if seg and mode != 64: return seg + u, seg + g, "label+reg-ovr"
        return u, dst + g, "label+reg"
    if r < .40 and mode != 64:     # absolute offsets need a segment
        s = c(["ds", "es", "cs", "ss", "fs", "gs"]); v = rng.choice([0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, rng.randrange(65536)])
        if mode == 32: v = c([v, 0x7fffffff, 0x80000000, 0xffffffff, rng.getrandbits(32)])
        return "%s:[%s]" % (s, num(v)[0]), "%s:[0x%x]" % (s, v), "abs"
    if r < .40:
        v = c([0, 0x28, 0x30, 0x58, 0x7f, 0x80, 0x7fffffff, 0x1234, rng.randrange(1 << 31)]); s = c(["fs:", "gs:", "fs:", ""])
        return "%s[%s]" % (s, num(v)[0]), "%s[0x%x]" % (s or "ds:", v), "abs"
    if r < .48 and mode == 64:
        d = max(-(1 << 31), min(disp(rng, 32), (1 << 31) - 70000))
        return "[rip%+d]" % d, "{rip%+d}" % d, "rip"
    if a == 16:
        base = c(["bx", "bp", "si", "di"]); idx = c(["si", "di"]) if base[0] == "b" and rng.random() < .5 else None
        sc = 1
    else:
        base = c(regs) if rng.random() < .85 else None
        idx = c([x for x in regs if x not in ("esp", "rsp")]) if rng.random() < .6 or not base else None
        sc = c([1, 2, 4, 8]) if base else c([2, 4, 8])
    d = disp(rng, a) if rng.random() < .7 else 0
    it = None if not idx else idx if sc == 1 else "%s*%d" % (idx, sc)
    gb = "+".join(x for x in (base, None if not idx else "%s*%d" % (idx, sc) if a != 16 else idx) if x)
    g = seg + "[%s%s]" % (gb, "%+d" % d if d else "")
    # notations: one bracket in any order, several brackets, displacement outside
    parts = [x for x in (base, it) if x]
    if sc == 1 and idx and a != 16: order = parts       # base and index are told apart by position
    else:
        order = parts[:]; rng.shuffle(order)
    n = rng.randrange(6); ds = num(d)[0] if d >= 0 else num(d)[0]
    if n == 0 or not d and n < 3: u = "[" + "+".join(order) + ("%+d" % d if d else "") + "]"
    elif n == 1: u = "[" + "+".join(order + ([ds] if d >= 0 else [])) + (ds if d < 0 else "") + "]"
    elif n == 2: u = ds + "[" + "+".join(order) + "]"
    elif n == 3: u = "[" + "][".join(order) + "]" + ("[%s]" % ds if d else "")
    elif n == 4 and d: u = "[" + ds + "+" + "+".join(order) + "]"
    elif n == 5 and 0 <= d < 30000 and d: u = "[" + "+".join(order) + "+CONST%+d]" % (d - 77)
    else: u = "[" + "+".join(order) + "]" + ("%+d" % d if d else "")
    if it and "*" in it and rng.random() < .2: u = u.replace(it, "%d*%s" % (sc, idx))
    return seg + u, g, "reg%d/%d" % (mode, a)

ASSUME = {"dsT": "assume ds:_T,es:_T,ss:nothing", "esT": "assume ds:nothing,es:_T", "cs": "assume ds:nothing,es:nothing,ss:nothing", "fsT": "assume ds:nothing,es:nothing,ss:nothing,fs:_T"}

def build(mode, assume, lines, evex):
    h = {16: ".686p\n.xmm\n", 32: ".686p\n.xmm\n", 64: ".x64p\n"}[mode]
    if assume == "fsT": a = "assume cs:nothing,ds:nothing,es:nothing,ss:nothing,fs:_T"
    else: a = ASSUME[assume]
    src = h + "CONST EQU 77\n_T segment use%d 'CODE'\n%s\n" % (mode, a) + ("option evex:1\n" if evex else "")
    src += "dat0 label byte\n db 5 dup (11h)\n"
    n0 = src.count("\n")
    third = len(lines) // 3
    marks = []
    for i, l in enumerate(lines):
        if i == third: src += "dat1 label byte\n"
        if i == 2 * third: src += "dat2 label byte\n"
        src += "Lx%d: %s\n" % (i, l)
    src += "LxEND:\n db 300 dup (0)\ndat3 label byte\n db 9 dup (0)\n"
    names = ["Lx%d" % i for i in range(len(lines))] + ["LxEND", "dat0", "dat1", "dat2", "dat3"]
    src += "".join(" dd %s-base0\n" % n for n in names)
    src = src.replace("dat0 label byte", "base0:\ndat0 label byte", 1)
    return src + "_T ends\nend\n", names, n0

def it0(it): return it[3][1] == 'lea'     # LEA ignores the segment

def run(exe, mode, assume, items, evex, C):
    """assembles the items and judges each: (uasm, gas template, class, form)"""
    lines = [x[0] for x in items]
    dead = set()
    for _ in range(12):
        live = [i for i in range(len(lines)) if i not in dead]
        src, names, n0 = build(mode, assume, [lines[i] for i in live], evex)
        r = vf.asm(exe, src, ("-q", "-bin", "-e9999999"), timeout=60)
        if r.rc == 0: break
        slines = src.split("\n"); hit = False
        for e in r.errors():
            m = re.match(r"Lx(\d+): ", slines[e[1] - 1]) if e[2] != "Warning" and 0 < e[1] <= len(slines) else None
            if m: dead.add(live[int(m[1])]); hit = True
        if not hit: return None, src, r
    else: return None, src, r
    b = r.files["t.bin"]; n = len(names)
    off = dict(zip(names, (int.from_bytes(b[len(b) - 4 * n + 4 * i:][:4], "little") for i in range(n))))
    if off["LxEND"] + 309 + 4 * n != len(b) or any(off["Lx%d" % i] > off["Lx%d" % (i + 1)] for i in range(len(live) - 1)):
        return None, src, r
    codes = []; exps = []
    for k, i in enumerate(live):
        o = off["Lx%d" % k]; e = off["Lx%d" % (k + 1)] if k + 1 < len(live) else off["LxEND"]
        codes.append(b[o:e])
        def sub(m):
            if m[1] == "rip": return "[0x%x]" % ((e + int(m[2] or 0)) & (2 ** 64 - 1))
            v = (off[m[1]] + int(m[2] or 0)) & ((1 << mode) - 1)
            if mode == 64 and v >> 63: return "-0x%x" % ((1 << 64) - v)
            return "0x%x" % v
        exps.append((re.sub(r"\{(\w+)([+-]\d+)?\}", sub, items[i][1]).replace("+-", "-"), o))
    g = x86.gas(mode, [x[0] for x in exps])
    sel = [k for k in range(len(live)) if g[k] is not None]
    C.count("reference_rejects", len(live) - len(sel))
    dg = x86.disasm(mode, [g[k] for k in sel]); du = x86.disasm(mode, [(codes[k] or b"\x90")[:15] for k in sel])
    res = []
    for k, x, y in zip(sel, du, dg):
        def rip(m):   # absolute target of a RIP-relative operand
            t = (exps[k][1] + len(codes[k]) + int(m[2].replace("+", ""), 16)) & (2 ** 64 - 1)
            return (m[1] or "ds:") + ("0x%x" % t)
        x2 = re.sub(r"(\w\w:)?\[rip([+-]0x[0-9a-f]+)\]", rip, x)
        x2, y2 = [re.sub(r"(^|\s|,)(\w\w:)?\[0x", lambda m: m[1] + (m[2] or "ds:") + "0x", z) for z in (x2, y)]
        x2 = re.sub(r'^addr32 (?=.*[dscefg]s:0x[0-9a-f]{1,4}$)', '', x2)   # same address, longer form
        x2, y2 = x2.replace('+0x0]', ']'), y2.replace('+0x0]', ']')
        nx, ny = insn.norm(x2, mode), insn.norm(y2, mode)
        if it0(items[live[k]]): nx = ny = re.sub(r"\b\w\w:(?=\[|0x)", "ds:", nx), re.sub(r"\b\w\w:(?=\[|0x)", "ds:", ny); nx, ny = nx
        it = items[live[k]]
        # the offset of a RIP-relative symbol+offset is applied twice in BIN output (known): recognised by value
        kk = re.search(r"\{dat\d([+-]\d+)\}", it[1])
        if nx != ny and mode == 64 and kk and "rip" in x:
            t = (off[re.search(r"dat\d", it[1])[0]] + 2 * int(kk[1])) & (2 ** 64 - 1)
            if insn.norm(re.sub(r"ds:0x[0-9a-f]+", "ds:0x%x" % t, y2), mode) == nx:
                res.append((it, "double", "emitted %s = %s   expected %s" % (codes[k].hex(), x2, y2))); continue
        res.append((it, nx == ny and len(codes[k]) <= 15, "emitted %s = %s   expected %s (%s)" % (codes[k].hex(), x2, y2, exps[k][0])))
    return [(items[i], None, "rejected") for i in dead] + res, src, r

R8 = "al cl dl bl ah ch dh bh".split(); R16 = "ax cx dx bx sp bp si di".split(); R32 = ["e" + r for r in R16]; R64 = ["r" + r for r in R16] + ["r%d" % i for i in range(8, 16)]
N32 = ["r%dd" % i for i in range(8, 16)]
def legal(mode, a, b, s):
    """may memory be addressed as [a + b*s]?  (b None: [a]; s None: no scale written)"""
    ok32 = R32 + (N32 if mode == 64 else []); L = [r for r in (a, b) if r]
    if s is not None and s not in (1, 2, 4, 8): return False
    if mode == 64 and L == ["rip"]: return s is None
    if mode == 64 and all(r in R64 for r in L): sp = "rsp"
    elif all(r in ok32 for r in L): sp = "esp"
    elif mode != 64 and s is None and all(r in ("bx", "bp", "si", "di") for r in L): return len(L) == 1 or set(L) & {"bx", "bp"} != set(L) and set(L) & {"si", "di"} != set(L)
    else: return False
    return b != sp if s is not None else not (a == b == sp)

def validity(C, exe):
    """every pair of registers: just the legal ones may be taken as an address"""
    jobs = []
    for mode in (16, 32, 64):
        U = R8 + R16 + R32 + ["cs", "ds", "fs", "cr0", "cr3", "dr7", "mm0", "mm5", "xmm0", "xmm3", "ymm1", "ymm6", "zmm2", "k1", "st"]
        if mode == 64: U = U + R64 + N32 + ["spl", "sil", "r8b", "r9w", "r13w", "rip", "xmm9", "zmm20"]
        T = [("[%s]" % a, a, None, None) for a in U]
        for a in U:
            for b in U: T.append((C.rng.choice(["[%s+%s]", "[%s][%s]", "[%s+%s+5]", "4[%s+%s]"]) % (a, b), a, b, None))
        for b in U:
            for s in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 32):
                if s == 1 and b in R16 + ["esp", "rsp"]: continue
                T.append(("[%s*%d]" % (b, s), None, b, s)); a = C.rng.choice(U if mode != 64 or C.rng.random() < .5 else R64)
                T.append((C.rng.choice(["[%s+%s*%d]", "[%s][%s*%d]"]) % (a, b, s), a, b, s))
        jobs += [(mode, T[i:i + 500]) for i in range(0, len(T), 500)]
    def job(j):
        mode, T = j
        ins = C_ins[mode]
        src = {16: ".686\n.mmx\n.xmm\n_T segment use16\n", 32: ".686\n.mmx\n.xmm\n_T segment use32\n", 64: ".x64\n_T segment use64\n"}[mode] + "".join(" %s\n" % (ins % t[0]) for t in T) + "_T ends\nend\n"
        return mode, T, ins, src, vf.asm(exe, src, ["-q", "-e9999", "-bin"], "t.o", timeout=60)
    C_ins = {16: C.rng.choice(["mov al, %s", "inc byte ptr %s"]), 32: C.rng.choice(["mov al, %s", "lea ecx, %s", "movd mm1, dword ptr %s"]), 64: C.rng.choice(["mov al, %s", "lea rcx, %s", "addps xmm1, %s"])}
    for mode, T, ins, src, r in vf.pmap(job, jobs):
        off = src.split("\n").index(" " + ins % T[0][0]) + 1; bad = set(e[1] - off for e in r.errors() if e[2].lower().startswith("error"))
        if r.rc not in (0, 1) or not bad <= set(range(len(T))): C.violation("validity-broken", "status %s: %s" % (r.rc, r.text()[-300:]), {"t.asm": src}); continue
        for i, (t, a, b, s) in enumerate(T):
            want = legal(mode, a, b, s); got = i not in bad
            C.case("v%d:%s" % (mode, t), sample="%d-bit: %s" % (mode, t)); C.count("address_legal" if want else "address_illegal")
            if got != want: C.violation("validity:%d:%s" % (mode, t), "%d-bit `%s`: %s" % (mode, ins % t, "accepted, but no such address exists" if got else "a valid address was refused"), {"t.asm": src}, ["uasm", "-q", "-e9999", "-bin", "-Fo", "t.o", "t.asm"])

def check():
    C = vf.Check("C02", "exploration", "an instruction with a distinct memory operand whose emitted bytes were decoded independently and whose accessed address was compared with the one written; distinct by (code size, ASSUME, operand shape, form, displacement class)",
                 ["GNU as (reference encoder) and objdump (decoder) are right about x86 addressing", "instruction forms whose plain [reg] instance is wrong are left to C01/C03"])
    exe = vf.build("plain")
    F = [f for f in insn.load(os.path.join(vf.VERIF, "data/forms.txt")) if not f[0].endswith("e") and any(o in insn.PTR for o in f[2])
         and not any("vm" in o for o in f[2]) and not re.match(r"prefetch|clflush|bnd|nop|xlat|call|j|inv|fx|xsave|xrs|s[gi]dt|l[gi]dt|clwb|movdir|ptwrite|.*gather|.*scatter", f[1]) and not (f[0] == "16" and "m48" in f[2])]
    badmn = {t: {m[1] for k in vf.load_known() if k["property"] in ("C01", "C03") and (m := re.match(t + r":(\w+):", k["key"]))} for t in ("64", "32", "16")}
    jobs = []
    per = 700 if not vf.THOROUGH else 900
    for rep in range(2 if not vf.THOROUGH else 60):
        for mode in (64, 32, 16):
            for assume in ("dsT", "esT", "cs", "fsT") if mode != 64 else ("dsT", "dsT", "dsT"):
                jobs.append((mode, assume, rep, random.Random(C.rng.getrandbits(64))))
    common = ["mov", "add", "lea", "cmp", "test", "imul", "shl", "movzx", "movaps", "pshufd", "vmovups", "vpshufd", "fld", "inc", "and", "xchg", "push", "shld", "bt", "cmpxchg8b", "movsx", "vpermilps", "roundps", "vblendps", "popcnt", "andn", "bextr", "rorx", "pextrw", "pinsrb", "les", "fstp", "cvtsi2sd", "movq", "movd"]
    def job(j):
        mode, assume, rep, rng = j
        FF = [f for f in F if f[0] == str(mode)]; FC = [f for f in FF if f[1] in common]
        fs = [rng.choice(FC if rng.random() < .5 else FF) for _ in range(per)]
        plain = [insn.insn(rng, mode, f[1], f[2], False, f[3], addrfn=lambda r: (PLAIN[mode], PLAIN[mode])) for f in fs]
        try: ok = encode.judge(exe, str(mode), plain)
        except insn.Broken as x: return ("broken", str(x.args[0]), x.args[1], x.args[2])
        items = []
        for f, v in zip(fs, ok):
            if v[0] != "ok": C.count("forms_left_to_C01_C03"); continue
            cls = []
            def af(r):
                u, g, k = shape(r, mode, assume); cls.append(k); return u, g
            u, g = insn.insn(rng, mode, f[1], f[2], False, f[3], addrfn=af)
            if f[1] in badmn[str(mode)]: C.count("forms_left_to_C01_C03"); continue
            ks = cls[0] if cls else "none"
            if "m" in f[2] and ks.startswith("label"): C.count("untyped_label_skipped"); continue
            # far too large displacements of string-literal style are not expressible with immediates to memory: keep as is
            items.append((u, g, ks, f))
        res, src, r = run(exe, mode, assume, items, False, C)
        if res is None: return ("broken", "status %s: %s" % (r.rc, r.text()[-400:]), src, r)
        return (mode, assume, res)
    nrej = 0
    for out in vf.pmap(job, jobs):
        if out[0] == "broken":
            C.violation("broken", "valid addressing module not assembled or its label table is wrong: " + out[1], {"t.asm": out[2]}, ["uasm", "-q", "-bin", "-Fo", "t.bin", "t.asm"]); continue
        mode, assume, res = out
        for (u, g, ks, f), good, msg in res:
            key = "%d:%s:%s:%s:%s" % (mode, assume, ks, f[1], ",".join(f[2]))
            if good is None:
                C.count("rejected"); C.seen("rejected_shapes", "%d:%s:%s" % (mode, ks, f[1])); C.seen("rej_ex", u) ; continue
            C.case("%s:%s" % (key, len(re.findall(r"\d", u))), sample="%d-bit: %s" % (mode, u))
            C.seen("mnemonics", f[1]); C.count("class_" + ks)
            if good == "double": C.violation("bin-rip-symbol-plus-offset", "`%s`: %s" % (u, msg)); continue
            if not good:
                C.violation(key, "`%s` (%d-bit, %s): %s" % (u, mode, assume, msg), {"t.asm": build(mode, assume, [u], False)[0]}, ["uasm", "-q", "-bin", "-Fo", "t.bin", "t.asm"])
    if os.environ.get("C02_REJ"): print("\n".join(sorted(C.extra.get("rej_ex", []))[:200]))
    C.extra.pop("rej_ex", None)
    validity(C, exe)
    tot = C.evals + C.extra.get("rejected", 0)
    C.extra["accepted_share"] = round(C.evals / max(tot, 1), 3)
    if C.evals < .6 * tot: C.violation("acceptance", "only %d of %d valid operands were accepted" % (C.evals, tot))
    return C.finish(2000)
if __name__ == "__main__": vf.main(check)
