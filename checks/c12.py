#!/usr/bin/env python3
"""C12: generated programs of PROCs and INVOKEs are linked with compiled C (callers and callees) and run;
every argument received, every local and parameter re-read, callee-saved registers and stack balance are
recorded and compared with what the program's own values say."""
import collections, os, re, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, runimg
BASE = 0x10000000
CT = dict(BYTE="u8", SBYTE="s8", WORD="u16", SWORD="s16", DWORD="u32", SDWORD="s32", QWORD="u64", SQWORD="s64", REAL4="float", REAL8="double", PTR="u32*", STR="u8*")
SZ = dict(BYTE=1, SBYTE=1, WORD=2, SWORD=2, DWORD=4, SDWORD=4, QWORD=8, SQWORD=8, REAL4=4, REAL8=8)
def isf(t): return t in ("REAL4", "REAL8")
def enc(t, v): return struct.pack("<f" if t == "REAL4" else "<d", v) if isf(t) else (v & ((1 << 8 * SZ[t]) - 1)).to_bytes(SZ[t], "little")
def val(R, t):
    if isf(t): return R.choice([0.0, 1.5, -2.25, 1e10, 3.0, -0.125, 100.75, 65536.5]) if t == "REAL8" else R.choice([0.0, 1.5, -2.25, 3.0, -0.125, 100.75, 65536.5])
    b = 8 * SZ[t]; s = t[0] == "S"
    lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
    return R.choice([lo, hi, 0, 1, hi // 2 + 1, R.randint(lo, hi), R.randint(lo, hi), R.randint(lo, hi), -1 if s else 1 << b - 1])
def lit(t, v):
    if isf(t): return repr(v) if v >= 0 else "-" + repr(-v)
    return str(v) if v < 10 or not v & 1 else "%s0%xh" % ("", v)
def clit(t, v):
    if isf(t): return repr(v) + ("f" if t == "REAL4" else "")
    if t in ("QWORD", "SQWORD"): return "(%s)0x%xull" % (CT[t], v & (1 << 64) - 1)
    return "(%s)0x%x" % (CT[t], v & (1 << 32) - 1)

class Mode: # an ABI and the options the code is generated under
    def __init__(M, name, bits, lang, opts, lines, frame=""):
        M.name, M.bits, M.lang, M.opts, M.lines, M.frame = name, bits, lang, opts, lines, frame
        M.ptr = "u32*"; M.isz = bits // 8
        M.types = ["BYTE", "SBYTE", "WORD", "SWORD", "DWORD", "SDWORD", "QWORD", "REAL4", "REAL8", "PTR", "DWORD", "QWORD" if bits == 64 else "DWORD"]
        if lang == "fastcall" and bits == 32: M.types = ["BYTE", "WORD", "DWORD", "SDWORD", "DWORD", "PTR"]
        M.xargs = [4, 5] if name.startswith("win") else [8, 9, 10, 11, 12]
        M.aligned = True; M.vararg = name in ("elf32-c", "sysv64") or name.startswith("win64"); M.str = True; M.fc = lang == "fastcall" and bits == 32; M.win = name.startswith("win64")
        M.sav = ["ebx", "esi", "edi"] if bits == 32 else (["rbx", "rsi", "rdi", "r12", "r13", "r14", "r15"] if M.win else ["rbx", "r12", "r13", "r14", "r15"])
        M.attr = {"stdcall": "__attribute__((stdcall))", "pascal": "__attribute__((stdcall))", "fastcall": "__attribute__((fastcall))" if bits == 32 else ""}.get(lang, "")
    def deco(M, n, sizes):
        if M.bits == 64: return n
        tot = sum(max(4, s) for s in sizes)
        return {"c": "_" + n, "stdcall": "_%s@%d" % (n, tot), "pascal": n.upper(), "fastcall": "@%s@%d" % (n, tot)}[M.lang]
    def order(M, l): return l[::-1] if M.lang == "pascal" else l

def modes():
    L = []
    for l in ("c", "stdcall", "pascal", "fastcall"): L.append(Mode("elf32-" + l, 32, l, ["-elf"], [".686", ".xmm", ".model flat"]))
    L.append(Mode("sysv64", 64, "systemv", ["-elf64"], []))
    for w in (0, 1, 2, 3, 7, 11, 15):
        for fr in ("", "frame"):
            if fr == "" and w & 8: continue
            L.append(Mode("win64-%d%s" % (w, "-" + fr if fr else ""), 64, "fastcall", ["-win64"], ["option win64:%d" % w] + (["option frame:auto"] if fr else []), fr))
    L.append(Mode("win64-rsp7", 64, "fastcall", ["-win64"], ["option win64:7", "option frame:auto", "option stackbase:rsp"], "frame"))
    L.append(Mode("win64-rsp11", 64, "fastcall", ["-win64"], ["option win64:11", "option frame:auto", "option stackbase:rsp"], "frame"))
    L.append(Mode("win64-rsp15", 64, "fastcall", ["-win64"], ["option win64:15", "option frame:auto", "option stackbase:rsp"], "frame"))
    return L

ACC = {1: "al", 2: "ax", 4: "eax", 8: "rax"}
def regname(r, n): # register r (full name) with n bytes
    if r[0] == "e": return {4: r, 2: r[1:], 1: r[1] + "l"}.get(n)
    if r[1:].isdigit(): return r + {8: "", 4: "d", 2: "w", 1: "b"}[n]
    if r in ("rsi", "rdi"): return {8: r, 4: "e" + r[1:], 2: r[1:], 1: r[1:] + "l"}[n]
    return {8: r, 4: "e" + r[1:], 2: r[1:], 1: r[1] + "l"}[n]

class Gen:
    def __init__(G, R, M, n, nocover=()):
        G.R, G.M, G.n = R, M, n
        G.globs = []; G.code = []; G.c = []; G.exp = []; G.protos = []; G.tag = 0; G.forms = set(); G.skip = nocover
        G.odd = R.random() < .15; G.hotp = R.random() < .2; G.hot = []; G.mayrefuse = set(); G.procs = []; G.ren = {}; G.callees = []
    def newtag(G): G.tag += 1; return G.tag
    def glob(G, t, v):
        g = "gv%d" % len(G.globs); G.globs.append("%s %s %s" % (g, t if t != "PTR" else "DWORD", lit(t, v))); return g
    def params(G): return [G.R.choice(G.M.types) for _ in range(G.R.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10]))]
    def psize(G, t): return G.M.isz if t in ("PTR", "STR") else SZ[t]
    def cparams(G, ps):
        return G.M.order(["%s a%d" % (CT[t], i) for i, t in enumerate(ps)])
    # ---- C callee: records its tag and every argument
    def callee(G):
        ps = G.params(); k = len(G.callees); n = "cal%d" % k; tag = G.newtag(); fix = len(ps)
        if G.M.str: ps = [("STR" if t == "PTR" and G.R.random() < .4 else t) for t in ps]
        if G.M.vararg and k in (1, 2):
            fix = min(len(ps), G.R.randint(1, 3)) or 1; ps = (ps or ["DWORD"])[:fix] + [G.R.choice(["DWORD", "SDWORD", "QWORD", "REAL8", "PTR", "DWORD"]) for _ in range(G.R.choice([0, 1, 2, 3, 5, 8]))]
            if isf(ps[fix - 1]) or SZ.get(ps[fix - 1], 4) < 4: ps[fix - 1] = "DWORD"
        G.ren[G.M.deco(n, [G.psize(t) for t in ps])] = n
        va = G.M.vararg and k in (1, 2); body = ("  R(u8,(u8)((u64)__builtin_dwarf_cfa()&15))\n" if G.M.bits == 64 and G.M.aligned else "") + "".join(("" if i < fix else "  %s a%d = va_arg(va, %s);\n" % (CT[t], i, CT[t])) + ("  R(%s,a%d)\n" % (CT[t], i) if t not in ("PTR", "STR") else "  R(u32,*a%d)\n" % i if t == "PTR" else "  for(int i_=0,e_=0;i_<6;i_++) { if (!e_) e_=!a%d[i_]; *op++=e_?0:a%d[i_]; }\n" % (i, i)) for i, t in enumerate(ps))
        hm = "{ volatile u64 *h_ = (volatile u64 *)__builtin_dwarf_cfa(); h_[0] = h_[1] = h_[2] = h_[3] = 0x6b6b6b6b6b6b6b6bull; } " if G.M.win else "" # the four home slots belong to the callee
        G.c.append("u32 %s %s(%s) {\n%s  R(u16,%d)\n%s  %sCLOB return %d; }\n" % (G.M.attr, n, ",".join(G.cparams(ps[:fix])) + (",..." if va else "") or "void", "va_list va; va_start(va, a%d);\n" % (fix - 1) if va else "", tag, body, hm, tag * 7))
        G.protos.append("%s proto %s %s" % (n, G.M.lang, ",".join([":" + {"PTR": "PTR DWORD", "STR": "PTR BYTE"}.get(t, t) for t in ps[:fix]] + [":VARARG"] * va)))
        G.callees.append((n, ps, tag, fix))
    # ---- recording in assembler
    def op(G): return "ebx" if G.M.fc else "ecx" if G.M.bits == 32 else "r11"
    def rec_open(G): return ["mov %s, op" % G.op()]
    def rec_mem(G, t, m, pos):
        o = G.op(); n = SZ[t]
        if t == "QWORD" and G.M.bits == 32: return ["mov eax, dword ptr %s" % m, "mov [%s+%d], eax" % (o, pos), "mov eax, dword ptr %s[4]" % m, "mov [%s+%d], eax" % (o, pos + 4)]
        if t == "REAL8" and G.M.bits == 32: return ["fld %s" % m, "fstp qword ptr [%s+%d]" % (o, pos)]
        if t == "REAL4" and G.M.bits == 32: return ["fld %s" % m, "fstp dword ptr [%s+%d]" % (o, pos)]
        x = "xmm5" if G.M.win else "xmm15"
        if isf(t): return ["movs%s %s, %s" % ("sd"[n == 8], x, m), "movs%s %s ptr [%s+%d], %s" % ("sd"[n == 8], "real4" if n == 4 else "real8", o, pos, x)]
        a = ACC[n]; return ["mov %s, %s" % (a, m), "mov [%s+%d], %s" % (o, pos, a)]
    def proc(G):
        R, M = G.R, G.M; k = len(G.procs); n = "prc%d" % k; tag = G.newtag()
        ps = G.params(); vs = [val(R, "DWORD" if t == "PTR" else t) for t in ps]
        uses = R.sample(M.sav, R.randint(0, len(M.sav)))
        if M.fc and "ebx" not in uses: uses.append("ebx")
        uses.sort(key=M.sav.index)
        ng = nx = 0; isreg = [] # parameters which have no place in memory: read before any call only
        for t in ps:
            if M.bits == 64 and not M.win:
                if isf(t): isreg.append(nx < 8); nx += 1
                else: isreg.append(ng < 6); ng += 1
            else: isreg.append(M.fc and len(isreg) < 2)
        if R.random() < .3: R.shuffle(uses)
        if M.win and R.random() < .2: uses += R.sample(["rcx", "rdx", "r8", "r9", "r10", "r11"], R.randint(1, 2)); R.shuffle(uses)
        if M.win and M.frame and R.random() < .4: uses += R.sample(["xmm%d" % i for i in range(6, 16)], R.randint(1, 3))
        gpr = [u for u in uses if u in M.sav]
        locs = [(R.choice(["BYTE", "WORD", "DWORD", "QWORD", "REAL4", "REAL8", "SDWORD"]), R.choice([0, 0, 0, 3, 5, 8]), "lc%d" % i) for i in range(R.choice([0, 1, 2, 3, 5]))]
        b = []; exp = []; pass
        pn = ["pm%d" % i for i in range(len(ps))]
        lv = []
        pregs = {} # pointers are dereferenced by the callee
        def dump(first):
            b.extend(G.rec_open()); pos = 0; w = M.isz; ee = b""
            b.append("mov word ptr [%s], %d" % (G.op(), tag + (0 if first else 0x4000))); ee += struct.pack("<H", tag + (0 if first else 0x4000)); pos = 2
            names = [(n + "'s tag", 2)]
            for t, v, p in [(t, v, p) for t, v, p, r in zip(ps, vs, pn, isreg) if first or not r]:
                if t == "PTR":
                    b.extend(["mov %s, %s" % (ACC[w], p), "mov eax, [%s]" % ACC[w], "mov [%s+%d], eax" % (G.op(), pos)]); x = enc("DWORD", v)
                else: b.extend(G.rec_mem(t, p, pos)); x = enc(t, v)
                ee += x; pos += len(x); names.append(("%s: parameter %s %s" % (n, p, t) + ("" if first else " read again after the calls"), len(x)))
            for (t, c, l), v in zip(locs, lv):
                for j in range(max(c, 1)):
                    x = enc(t, v[j]); m = l if not c else "%s[%d]" % (l, j * SZ[t])
                    b.extend(G.rec_mem(t, m, pos)); pos += len(x); ee += x; names.append(("%s: local %s %s" % (n, m, t) + ("" if first else " read again after the calls"), len(x)))
            b.append("add %s, %d" % ("op", pos)); exp.append((ee, names))
        if M.win and "win64:0" in M.lines[0] or M.win and "win64:2" in M.lines[0]: # saving register parameters is the program's job
            for i, (t, p) in enumerate(list(zip(ps, pn))[:4]):
                b.append("movs%s %s, xmm%d" % ("sd"[SZ[t] == 8], p, i) if isf(t) else "mov %s, %s" % (p, regname(["rcx", "rdx", "r8", "r9"][i], G.psize(t))))
        # registers: arguments in registers (win64 without saving, sysv) are in their parameters' places only when saved
        for (t, c, l) in locs:
            v = [val(R, t) for _ in range(max(c, 1))]; lv.append(v)
            for j in range(max(c, 1)):
                m = l if not c else "%s[%d]" % (l, j * SZ[t]); x = enc(t, v[j])
                if SZ[t] == 8:
                    for h in (0, 4):
                        q = m if not c else l; b.append("mov dword ptr %s[%d], %d" % (l, j * 8 + h, int.from_bytes(x[h:h + 4], "little")))
                else: b.append("mov %s ptr %s, %d" % ({1: "byte", 2: "word", 4: "dword"}[SZ[t]], m, int.from_bytes(x, "little")))
        for u in uses:
            if u[0] == "x": b.append("pxor %s, %s" % (u, u))
        for u in [u for u in gpr if not M.fc or u != "ebx"]: b.append("mov %s, %d" % (u, R.randint(1, 1 << 30)))
        dump(True)
        ncall = R.choice([0, 1, 1, 2, 3])
        for _ in range(ncall):
            if not G.callees: break
            tgt, tps, ttag, fix = R.choice(G.callees)
            G.xfree = list(M.xargs); R.shuffle(G.xfree)
            G.hot = ["eax", "edx"] + ([] if M.fc else ["ecx"]) if M.bits == 32 else ["rax", "rcx", "rdx", "r8", "r9", "r10"] + ([] if M.win else ["rsi", "rdi"]); R.shuffle(G.hot)
            args = []; setup = []; ex = struct.pack("<H", ttag); names = [(n + " calls " + tgt, 2)]
            if M.bits == 64 and M.aligned: ex += b"\0"; names.append(("%s: invoke %s: stack alignment" % (n, tgt), 1))
            free = [u for u in gpr if not M.fc or u != 'ebx']
            for i, t in enumerate(tps):
                f, a, st, v = G.arg(t if i < fix else t + "...", *[[x for x, r in zip(y, isreg) if not r] for y in (ps, vs, pn)], locs, lv, free)
                setup += st; args.append(a); x = v if t == "STR" else enc("DWORD" if t == "PTR" else t, v); ex += x
                names.append(("%s: invoke %s: argument %d %s %s" % (n, tgt, i, t, f), len(x))); G.forms.add((M.name, t, f))
            R.shuffle(setup)
            if any("smaller" in nm[0] or "volatile" in nm[0] for nm in names): G.mayrefuse.add(", ".join([tgt] + args))
            b.extend(setup); b.append("invoke " + ", ".join([tgt] + args)); exp.append((ex, names))
            if R.random() < .7:
                b.extend(G.rec_open()); b.append("mov [%s], eax" % G.op()); b.append("add op, 4"); exp.append((struct.pack("<I", ttag * 7), [("%s: value %s returned" % (n, tgt), 4)]))
        if ncall or R.random() < .3: dump(False)
        b.append("mov eax, %d" % (tag * 11)); b.append("ret")
        head = "%s proc %s %s" % (n, M.lang if M.lang != "systemv" else "", M.frame)
        if uses: head += " uses " + " ".join(uses)
        if ps: head += (" " if R.random() < .5 or uses else " ") + ", ".join("%s:%s" % (p, "PTR DWORD" if t == "PTR" else t) for p, t in zip(pn, ps))
        G.code.append(head); 
        for (t, c, l) in locs: G.code.append("local %s%s:%s" % (l, "[%d]" % c if c else "", t))
        G.code += b + [n + " endp", ""]
        G.ren[M.deco(n, [G.psize(t) for t in ps])] = n
        pv = "".join("static u32 %s_%d = 0x%x;\n" % (n, i, v) for i, (t, v) in enumerate(zip(ps, vs)) if t == "PTR")
        ca = M.order([clit(t, v) if t != "PTR" else "&%s_%d" % (n, i) for i, (t, v) in enumerate(zip(ps, vs))])
        G.c.append("u32 %s %s(%s);\n%sint tst%d(void){ u32 r = %s(%s); R(u32,r) return 0; }\n" % (M.attr, n, ",".join(G.cparams(ps)) or "void", pv, k, n, ",".join(ca)))
        exp.append((struct.pack("<I", tag * 11), [("the value %s returned" % n, 4)]))
        exp.append((b"\0", [("%s: callee-saved registers (bit mask of those changed; 80h: stack pointer)" % n, 1)]))
        G.exp.append(exp); G.procs.append(n)
    def arg(G, t, ps, vs, pn, locs, lv, free):
        """-> (form, text, setup lines, value)"""
        R, M = G.R, G.M; c = []; va = t.endswith("..."); t = t.rstrip(".")
        if t == "STR":
            w = "".join(R.choice("abQRcXYZ019 ,;!") for _ in range(R.choice([1, 2, 2, 3, 5, 5, 12]))); b = (w.encode() + b"\0" * 6)[:6]; g = "gv%d" % len(G.globs)
            if R.random() < .5 and not M.fc: return "string-literal", '"%s"' % w, [], (w.encode() + b"\0" * 6)[:6]
            G.globs.append("%s db '%s',0,0,0,0,0,0,0" % (g, w)); return "addr-string", "addr " + g, [], b
        def lits(): v = val(R, t); return ("constant", lit(t, v), [], v)
        if t == "PTR":
            v = val(R, "DWORD")
            c.append(("addr-global", lambda: ("addr " + G.glob("DWORD", v), [], v)))
            for (lt, n, l), x in zip(locs, lv):
                if SZ[lt] == 4: c.append(("addr-local", lambda l=l, x=x, lt=lt: ("addr " + l, [], int.from_bytes(enc(lt, x[0]), "little"))))
            for p, pt, pv in zip(pn, ps, vs):
                if pt == "PTR": c.append(("own-parameter", lambda p=p, pv=pv: (p, [], pv)))
            if free: 
                def f():
                    r = free.pop(R.randrange(len(free))); return r, ["lea %s, %s" % (r, G.glob("DWORD", v))], v
                c.append(("register", f))
        else:
            if not va or SZ[t] == 4: c.append(("constant", lambda: (lambda v: (lit(t, v), [], v))(val(R, t))))
            c.append(("global", lambda: (lambda v: (G.glob(t, v), [], v))(val(R, t))))
            for (lt, n, l), x in zip(locs, lv):
                if lt == t:
                    if n: j = R.randrange(n); c.append(("local-element", lambda l=l, x=x, j=j: ("%s[%d]" % (l, j * SZ[t]), [], x[j])))
                    else: c.append(("local", lambda l=l, x=x: (l, [], x[0])))
            for p, pt, pv in zip(pn, ps, vs):
                if pt == t: c.append(("own-parameter", lambda p=p, pv=pv: (p, [], pv)))
            if isf(t) and M.bits == 64 and G.xfree and not (va and M.win):
                def h():
                    v = val(R, t); x = "xmm%d" % G.xfree.pop(); return x, ["movs%s %s, %s" % ("sd"[SZ[t] == 8], x, G.glob(t, v))], v
                c.append(("xmm-register", h))
            if not isf(t) and SZ[t] > 1 and not va and (G.odd or not (M.name == "sysv64" or M.bits == 32 and SZ[t] == 8)):
                w = R.choice([x for x in ("BYTE", "SBYTE", "WORD", "SWORD", "DWORD", "SDWORD") if SZ[x] < SZ[t]]); v2 = val(R, w)
                c.append(("smaller-global-" + w, lambda: (G.glob(w, v2), [], v2)))
                lw = [(l, x) for (lt, n, l), x in zip(locs, lv) if lt == w and not n]
                if lw: c.append(("smaller-local-" + w, lambda: (lw[0][0], [], lw[0][1][0])))
            hr = [r for r in G.hot if not isf(t) and regname(r, SZ[t]) and (SZ[t] > 1 or r[-1] == "x" or r[1:].isdigit()) and SZ[t] <= M.isz]
            if G.hotp and hr and R.random() < .3:
                r = R.choice(hr); G.hot.remove(r); v = val(R, t); return "volatile-register", (r[1] + "l" if SZ[t] == 1 and r[-1] == "x" else regname(r, SZ[t])), ["mov %s, %d" % (r, v & ((1 << 64 if SZ[t] == 8 else 1 << 32) - 1))], v
            fr = [r for r in free if not isf(t) and regname(r, SZ[t]) and (SZ[t] > 1 or M.bits == 64 or r == "ebx") and SZ[t] <= M.isz]
            if fr:
                def f():
                    r = R.choice(fr); free.remove(r); v = val(R, t); return regname(r, SZ[t]), ["mov %s, %d" % (r, v & ((1 << 64 if SZ[t] == 8 else 1 << 32) - 1))], v
                c.append(("register", f)); c.append(("register", f))
                def g():
                    r = R.choice([x for x in free]); free.remove(r); v = val(R, t); return "%s ptr [%s]" % (t.lower(), r), ["lea %s, %s" % (r, G.glob(t, v))], v
                c.append(("indirect", g))
        c = [x for x in c if (M.name, t, x[0]) not in G.skip] or c[:1]
        f, h = R.choice(c); a, s, v = h(); return f, a, s, v
    def build(G):
        for _ in range(6): G.callee()
        for _ in range(G.n): G.proc()
        M = G.M
        s = list(M.lines) + ["option casemap:none"] + (["option literals:on"] if M.str else [])
        sec = lambda n: ["_DATA segment align(16) 'DATA'" if M.bits == 64 else ".data"] + n + (["_DATA ends"] if M.bits == 64 else [])
        if M.bits == 64: s.append("extern op:qword")
        else: s.append("extern syscall op:dword")
        s += G.protos + sec(G.globs)
        s += [".code"] + G.code + ["end"]
        return "\n".join(s) + "\n"

CHEAD = """#include <stdarg.h>
typedef unsigned char u8; typedef signed char s8; typedef unsigned short u16; typedef short s16; typedef unsigned int u32; typedef int s32; typedef unsigned long long u64; typedef long long s64;
u8 *op asm("op");
#define R(t,x) { t v_ = (x); const u8 *p_ = (const u8 *)&v_; for (unsigned i_ = 0; i_ < sizeof v_; i_++) op[i_] = p_[i_]; op += sizeof v_; }
"""
CLOB = {"32": 'asm volatile("movl $0x5a5a5a5a,%%ecx; movl %%ecx,%%edx" ::: "ecx","edx");',
  "sysv": 'asm volatile("movabsq $0x5a5a5a5a5a5a5a5a,%%rcx; movq %%rcx,%%rdx; movq %%rcx,%%rsi; movq %%rcx,%%rdi; movq %%rcx,%%r8; movq %%rcx,%%r9; movq %%rcx,%%r10; movq %%rcx,%%r11; movq %%rcx,%%xmm0; movq %%rcx,%%xmm1" ::: "rcx","rdx","rsi","rdi","r8","r9","r10","r11","xmm0","xmm1");',
  "win": 'asm volatile("movabsq $0x5a5a5a5a5a5a5a5a,%%rcx; movq %%rcx,%%rdx; movq %%rcx,%%r8; movq %%rcx,%%r9; movq %%rcx,%%r10; movq %%rcx,%%r11; movq %%rcx,%%xmm0; movq %%rcx,%%xmm1; movq %%rcx,32(%%rsp)" ::: "rcx","rdx","r8","r9","r10","r11","xmm0","xmm1");'}
CLOB["win"] = CLOB["win"].replace("; movq %%rcx,32(%%rsp)", "")
def stub(M, n):
    if M.bits == 32:
        s = ".text\nstart: push %ebx; push %esi; push %edi; push %ebp; mov %edi, op; movl $tab, cur\n1: mov cur, %eax; mov (%eax), %eax; test %eax, %eax; jz 2f\n mov $0x11111111,%ebx; mov $0x22222222,%esi; mov $0x33333333,%edi; mov $0x44444444,%ebp; mov %esp, sp0; call *%eax\n xor %eax,%eax\n"
        for i, (r, v) in enumerate([("ebx", 0x11111111), ("esi", 0x22222222), ("edi", 0x33333333), ("ebp", 0x44444444)]): s += " cmp $%d,%%%s; je 3f; or $%d,%%al\n3:" % (v, r, 1 << i)
        s += " cmp sp0,%esp; je 3f; or $0x80,%al\n3: mov sp0,%esp; mov op,%ecx; mov %al,(%ecx); incl op; addl $4,cur; jmp 1b\n2: mov op,%eax; pop %ebp; pop %edi; pop %esi; pop %ebx; ret\n.data\ncur: .long 0\nsp0: .long 0\ntab: "
        s += "".join(".long tst%d\n" % i for i in range(n)) + ".long 0\n"
    else:
        regs = ["rbx", "rbp", "r12", "r13", "r14", "r15"] + (["rsi", "rdi"] if M.win else [])
        s = ".text\nstart: push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15; push %rsi; sub $0x100,%rsp; mov %rdi, op(%rip); lea tab(%rip),%rax; mov %rax,cur(%rip)\n1: mov cur(%rip),%rax; mov (%rax),%rax; test %rax,%rax; jz 2f\n"
        for i, r in enumerate(regs): s += " mov $0x%d%d%d%d1234,%%%s\n" % (i + 1, i + 1, i + 1, i + 1, r)
        xm = range(6, 16) if M.win else []
        for x in xm: s += " movq %%rbx,%%xmm%d; movlhps %%xmm%d,%%xmm%d\n" % (x, x, x)
        s += " mov %rsp,sp0(%rip); call *%rax\n xor %eax,%eax\n"
        for i, r in enumerate(regs): s += " mov $0x%d%d%d%d1234,%%rcx; cmp %%rcx,%%%s; je 3f; or $%d,%%eax\n3:" % (i + 1, i + 1, i + 1, i + 1, r, 1 << min(i, 5))
        s += " mov $0x11111234,%rcx; movq %rcx,%xmm0; movlhps %xmm0,%xmm0\n"
        for x in xm: s += " movdqa %%xmm%d,%%xmm1; pcmpeqb %%xmm0,%%xmm1; pmovmskb %%xmm1,%%ecx; cmp $0xffff,%%ecx; je 3f; or $0x40,%%al\n3:" % x
        s += " cmp sp0(%rip),%rsp; je 3f; or $0x80,%al\n3: mov sp0(%rip),%rsp; mov op(%rip),%rcx; mov %al,(%rcx); incq op(%rip); addq $8,cur(%rip); jmp 1b\n2: mov op(%rip),%rax; add $0x100,%rsp; pop %rsi; pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret\n.data\n.balign 8\ncur: .quad 0\nsp0: .quad 0\ntab: "
        s += "".join(".quad tst%d\n" % i for i in range(n)) + ".quad 0\n"
    return s
SCRIPT = "SECTIONS { .text 0x10000000 : { *(.text) *(.text*) *(_TEXT) } .data ALIGN(4096) : { *(.data) *(.data*) *(.rodata*) *(.rdata*) *(.bss) *(COMMON) *(_DATA) *(*) } /DISCARD/ : { *(.pdata) *(.xdata) *(.comment) *(.eh_frame) *(.note*) *(.drectve) } }"

def execute(M, obj, csrc, n, ren, timeout=40):
    with tempfile.TemporaryDirectory() as d:
        w = lambda f, s: open(d + "/" + f, "wb" if isinstance(s, bytes) else "w").write(s)
        w("s.s", stub(M, n)); w("c.c", csrc); w("t.obj", obj); w("l.ld", SCRIPT)
        cc = ["x86_64-w64-mingw32-gcc"] if M.win else ["gcc", "-m%d" % M.bits]
        fl = ["-O1", "-w", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-fno-asynchronous-unwind-tables", "-mstackrealign", "-fno-builtin", "-fno-tree-loop-distribute-patterns"] + ([] if M.win else ["-fno-pie", "-fcf-protection=none", "-mno-red-zone"])
        r = subprocess.run(cc + fl + ["-c", "s.s", "c.c"], cwd=d, capture_output=True, text=True)
        if r.returncode: raise vf.HarnessError("C compiler: " + r.stderr[:500])
        if M.bits == 32:
            w("ren", "".join("%s %s\n" % x for x in ren.items())); subprocess.run(["objcopy", "--redefine-syms=ren", "t.obj"], cwd=d, check=True)
        ld = ["x86_64-w64-mingw32-ld"] if M.win else ["ld", "-m", "elf_i386" if M.bits == 32 else "elf_x86_64"]
        r = subprocess.run(ld + ["-T", "l.ld", "-e", "0x10000000", "-o", "t.exe"] + (["--image-base", "0"] if M.win else ["-z", "noexecstack", "--oformat", "binary"]) + ["s.o", "c.o", "t.obj"], cwd=d, capture_output=True, text=True)
        if r.returncode: return None, b"", "link: " + r.stderr[:400]
        bi = "t.exe"
        if M.win: subprocess.run(["x86_64-w64-mingw32-objcopy", "-O", "binary", "t.exe", "t.bin"], cwd=d, check=True); bi = "t.bin"
        for k in range(20):
            p = subprocess.run([RUN, str(M.bits), d + "/" + bi, hex(BASE), str(1 << 20)], capture_output=True, timeout=timeout)
            if b"mmap" not in p.stderr: break
        return p.returncode, p.stdout, p.stderr.decode("latin1")[:200]

def csource(M, G): return CHEAD + "#define CLOB " + CLOB["32" if M.bits == 32 else "win" if M.win else "sysv"].replace("%%", "%%") + "\n" + "".join(G.c)
def one(a):
    import random
    M, seed, n, EXE = a
    G = Gen(random.Random(seed), M, n); src = G.build(); cs = csource(M, G)
    r = vf.asm(EXE, src, M.opts + ["-nologo", "-e1000"], "t.o")
    if r.rc or "t.o" not in r.kept and "t.o" not in r.files:
        return M, G, src, cs, "refused", [(l, x) for f, l, k, c, x in [(e[0], e[1], e[2], e[3], e[4]) for e in r.errors()]], r.text()[:300]
    obj = r.files["t.o"]
    rc, out, msg = execute(M, obj, cs, n, G.ren)
    return M, G, src, cs, "ran", (rc, out, msg), None


def check():
    global RUN
    C = vf.Check("C12", "exploration",
        "each callee and each generated procedure writes every argument it received, every local (also again after its calls), its return value, the stack pointer's alignment, and the callee-saved registers that changed; the bytes recorded are those the program's own values give under the platform's calling convention, the other side of every call being compiled by gcc",
        ["gcc's implementation of the cdecl, stdcall, fastcall, System V and Microsoft x64 conventions is taken as what they say", "arguments in registers INVOKE itself loads are not generated (A2166 refuses them)"])
    RUN = runimg.runner(); exe = vf.build("plain")
    jobs = []
    for M in modes():
        k = {"elf32": 160, "sysv6": 350}.get(M.name[:5], 70)
        if vf.THOROUGH: k *= 15
        for i in range(k):
            seed = C.rng.getrandbits(40); jobs.append((M, seed, C.rng.choice([2, 4, 6, 8]), exe))
    def job(a):
        try: return a, one(a)
        except subprocess.TimeoutExpired: return a, None
    refused = collections.Counter()
    for (M, seed, n, _), res in vf.pmap(job, jobs):
        if res is None: C.violation("%s: run does not end" % M.name, "the program linked from the object does not end (mode %s, seed %d)" % (M.name, seed), {}, ""); continue
        M, G, src, cs, st, res, txt = res; L = src.split("\n"); cmd = "uasm %s t.asm   # then linked with c.c (see REPORT) and run" % " ".join(M.opts)
        files = {"t.asm": src, "c.c": cs}
        if st == "refused":
            res = [(l, x) for l, x in res if "Stackbase" not in x]
            bad = [(l, x) for l, x in res if not ((G.odd or G.hotp) and 0 < l <= len(L) and L[l - 1][7:] in G.mayrefuse)]
            if bad or not res:
                l, x = (bad or [(0, txt)])[0]
                C.violation("%s: refused: %s" % (M.name.split("-")[0], x[:50]), "a valid program is refused (%s): %s: %s" % (M.name, L[l - 1] if 0 < l <= len(L) else "", x), files, cmd)
            else: C.count("refused_for_" + ("an_operand_smaller_than_its_parameter" if G.odd else "a_register_the_call_overwrites"), 1)
            continue
        rc, out, msg = res; pos = 0; bad = None; ok = 0
        if rc is None: C.violation("%s: link" % M.name.split("-")[0], "the object cannot be linked (%s): %s" % (M.name, msg), files, cmd); continue
        for ee, names in [e for p in G.exp for e in p]:
            o = 0
            for nm, k in names:
                if out[pos + o:pos + o + k] != ee[o:o + k]: bad = (nm, ee[o:o + k].hex(), out[pos + o:pos + o + k].hex()); break
                o += k; ok += 1
            if bad: break
            pos += len(ee)
        C.case((M.name, seed), (M.name, seed, [l for l in L if l.startswith("invoke")][:3])); C.count("values_compared", ok); C.count("procedures_run", len(G.procs)); C.count("invokes_run", src.count("\ninvoke ")); C.count("programs_" + M.name.split("-")[0], 1)
        C.seen("mode", M.name)
        for f in G.forms: C.seen("argument_form", (f[0].split("-")[0],) + f[1:])
        if bad or rc:
            nm, w, g = bad or ("end of the run", "", "")
            key = re.sub(r"\b(prc|cal|pm|lc|gv)\d+(\[\d+\])?", r"\1", nm); key = re.sub(r"argument \d+", "argument", key)
            C.violation("%s: %s" % (M.name.split("-")[0], key), "%s (mode %s, seed %d): %s: expected %s, recorded %s%s" % ("the run ends with status %s" % rc if rc else "a value differs", M.name, seed, nm, w, g or "nothing", "; everything recorded before it was right (%d values)" % ok), files, cmd)
    return C.finish(min_nontrivial=60)

if __name__ == "__main__": vf.main(check)
