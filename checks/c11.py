#!/usr/bin/env python3
"""C11: high-level flow directives are executed: random nestings of .IF, .WHILE,
.REPEAT, .FOR and .SWITCH are assembled, linked and run (native/runner.c); the trace
each leaves and every variable's final value are compared with an interpreter of the
source tree."""
import os, random, struct, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, runimg
FUEL = 160
class Quit(Exception): pass
class Brk(Exception): pass
class Cont(Exception): pass
M = lambda n: (1 << n) - 1
def sx(v, n): v &= M(n); return v - (1 << n) if v >> (n - 1) else v

class Var:
    """text, width in bits, signed, kind: reg or mem"""
    def __init__(s, t, w, sg, mem): s.t, s.w, s.sg, s.mem = t, w, sg, mem
def variables(bits):
    V = [Var("ebx", 32, 0, 0), Var("ecx", 32, 0, 0), Var("edx", 32, 0, 0)]
    if bits == 64: V = [Var("rbx", 64, 0, 0), Var("rcx", 64, 0, 0), Var("rdx", 64, 0, 0), Var("r8", 64, 0, 0), Var("r9", 64, 0, 0), Var("r10", 64, 0, 0), Var("r11", 64, 0, 0)]
    for sg in (0, 1):
        for w, n in ((8, "b"), (16, "w"), (32, "d")) + (((64, "q"),) if bits == 64 else ()):
            for k in "01": V.append(Var("v%s%s%s" % ("s" if sg else "", n, k), w, sg, 1))
    return V
DT = {8: "BYTE", 16: "WORD", 32: "DWORD", 64: "QWORD"}
SUB = {"ebx": {16: "bx", 8: "bl"}, "ecx": {16: "cx", 8: "cl"}, "edx": {16: "dx", 8: "dl"},
       "rbx": {32: "ebx", 16: "bx", 8: "bl"}, "rcx": {32: "ecx", 16: "cx", 8: "cl"}, "rdx": {32: "edx", 16: "dx", 8: "dl"},
       "r8": {32: "r8d", 16: "r8w", 8: "r8b"}, "r9": {32: "r9d", 16: "r9w", 8: "r9b"}, "r10": {32: "r10d", 16: "r10w", 8: "r10b"}, "r11": {32: "r11d", 16: "r11w", 8: "r11b"}}

class Gen:
    def __init__(s, rng, bits, V): s.rng = rng; s.bits = bits; s.V = V; s.n = 0; s.size = 0; s.asmsw = False; s.kinds = set()
    def const(s, w):
        r = s.rng; k = r.random()
        if k < .5: v = r.randrange(-3, 6)
        elif k < .75: v = r.choice([M(w - 1), -(1 << (w - 1)), M(w - 1) - 1, M(w) if w <= 32 else 0x7fffffff, 127, 128, -128, -129, 255, 0x7fffffff])
        else: v = r.getrandbits(w)
        v = sx(v, w)
        if w == 64 and not -(1 << 31) <= v < (1 << 31): v = sx(v, 32)
        return v
    def ctext(s, v, w):
        if v < 0 and s.rng.random() < .3 and w < 64: v &= M(w); 
        return s.rng.choice([str(v), str(v), "%s0%xh" % ("-" if v < 0 else "", abs(v)), "(%d)" % v if v >= 0 else str(v)])
    def operand(s, regonly=False, memonly=False, w=None):
        """(text, getter, width, signed, mem)"""
        while 1:
            v = s.rng.choice(s.V)
            if regonly and v.mem or memonly and not v.mem: continue
            ww, sg, t = v.w, v.sg, v.t
            if not v.mem and s.rng.random() < .4: ww = s.rng.choice(list(SUB[v.t])); t = SUB[v.t][ww]
            if w and ww != w: continue
            if s.rng.random() < .2: sg = 1; t = "s%s ptr %s" % (DT[ww].lower(), t)
            elif v.mem and s.rng.random() < .1 and ww > 8: ww2 = s.rng.choice([x for x in (8, 16, 32) if x < ww]); t = "%s ptr %s" % (DT[ww2].lower(), t); ww = ww2; sg = 0
            if w and ww != w: continue
            if v.mem and "ptr" not in t and s.rng.random() < .15: t = "[%s]" % t
            return t, (v.t, ww), ww, sg, v.mem
    def atom(s):
        r = s.rng; k = r.random()
        if k < .04: v = r.choice([0, 1, 1, 5]); return str(v), ("const", v)
        if k < .16: t, g, w, sg, mem = s.operand(); return t, ("nz", g, w)
        if k < .26:
            t, g, w, sg, mem = s.operand()
            if r.random() < .6: c = s.const(w); return "%s & %s" % (t, s.ctext(c, w)), ("test", g, c & M(w), w)
            t2, g2, w, sg2, mem2 = s.operand(w=w, regonly=True); return "%s & %s" % (t, t2), ("testr", g, g2, w)
        rel = r.choice(["==", "!=", "<", ">", "<=", ">="]); sp = r.choice(["", " "])
        t, g, w, sg, mem = s.operand()
        if r.random() < .6: c = s.const(w); return t + sp + rel + sp + s.ctext(c, w), ("cmpc", rel, g, c, w, sg)
        t2, g2, w, sg2, mem2 = s.operand(w=w, regonly=bool(mem))
        return t + sp + rel + sp + t2, ("cmpr", rel, g, g2, w, sg or sg2)
    def flagatom(s):
        f = s.rng.choice(["ZERO", "CARRY", "SIGN", "PARITY", "OVERFLOW", "LESS", "GREATER", "ABOVE", "EQUAL", "BELOW"]); return f + "?", ("flag", f)
    def cond(s, d=3, A=None):
        """text, tree; text has && above || and is bracketed where needed"""
        r = s.rng; A = A or s.atom; k = r.random()
        if d == 0 or k < .5:
            t, n = A()
            if r.random() < .12: return ("!(%s)" % t if r.random() < .5 or len(t.split()) > 1 or any(c in t for c in "=<>&") else "!" + t), ("not", n)
            return t, n
        if k < .75:
            ps = []
            for _ in range(r.choice([2, 2, 3, 4])):
                t, n = s.cond(d - 1, A); ps.append(("(%s)" % t if n[0] in ("or",) or r.random() < .3 else t, n))
            sp = r.choice(["&&", " && "]); return sp.join(t for t, _ in ps), ("and", [n for _, n in ps])
        if k < .95:
            ps = [s.cond(d - 1, A) for _ in range(r.choice([2, 2, 3, 4]))]
            sp = r.choice(["||", " || "]); return sp.join("(%s)" % t if r.random() < .3 else t for t, _ in ps), ("or", [n for _, n in ps])
        t, n = s.cond(d - 1, A); return "!(%s)" % t, ("not", n)
    def tr(s): s.n += 1; return ("tr", s.n % 250 + 1)
    def assign(s):
        r = s.rng; t, g, w, sg, mem = s.operand()
        while w < 16 and 0: pass
        op = r.choice(["mov", "add", "sub", "xor", "inc", "dec", "and", "or"])
        if op in ("inc", "dec"): return ("asg", op, t, g, 0, w)
        return ("asg", op, t, g, s.const(w), w)
    def block(s, d, loop, n=None):
        r = s.rng; out = []
        for _ in range(n if n is not None else r.choice([1, 1, 2, 3, 5])):
            k = r.random(); s.size += 1
            if s.size > 220: out.append(s.tr()); break
            if k < .3 or d == 0: out.append(s.tr())
            elif k < .45: out.append(s.assign())
            elif k < .62:
                if r.random() < .2: pre = ("flags", r.choice(["cmp", "add", "test"]),) + s.flagops(); A = s.flagatom; out.append(pre)
                else: A = None
                br = [(s.cond(A=A), s.block(d - 1, loop))]
                while r.random() < .35 and len(br) < 6: br.append((s.cond(), s.block(d - 1, loop)))
                out.append(("if", br, s.block(d - 1, loop) if r.random() < .5 else None))
            elif k < .7: out.append(("while", s.cond(), [s.tr()] + s.block(d - 1, "w")))
            elif k < .78:
                q = r.random(); b = [s.tr()] + s.block(d - 1, "s" if .6 <= q < .7 else "w")
                if q < .6: out.append(("repeat", b, "until", s.cond()))
                elif q < .7: b.append(("flags", r.choice(["cmp", "add", "test"])) + s.flagops()); out.append(("repeat", b, "until", s.cond(A=s.flagatom)))
                elif q < .85: out.append(("repeat", [s.tr()] + ([("break", s.cond(1))] if r.random() < .3 else []), "cxz", None))
                else: out.append(("repeat", [s.tr()], "cxz", s.cxz()))
            elif k < .86: out.append(s.for_(d))
            elif k < .95: out.append(s.switch(d, loop))
            elif loop: out.append((r.choice(["break", "continue"] if loop != "s" else ["break"]), s.cond() if r.random() < .7 else None))
        return out
    def cxz(s):
        while 1:
            t, n = s.atom()
            if n[0] in ("cmpc", "cmpr") and n[1] in ("==", "!="): return t, n
    def flagops(s):
        t, g, w, sg, mem = s.operand(); return (t, g, s.const(w), w)
    def for_(s, d):
        r = s.rng; nat = s.bits
        def one():
            t, g, w, sg, mem = s.operand(regonly=r.random() < .7, w=nat)
            while "ptr" in t or "[" in t: t, g, w, sg, mem = s.operand(regonly=r.random() < .7, w=nat)
            op = r.choice(["=", "=", "+=", "-=", "&=", "|=", "^=", "++", "--", "<<=", ">>="])
            if op in ("++", "--"): return t + op, ("asg", {"++": "inc", "--": "dec"}[op], t, g, 0, w)
            if op in ("<<=", ">>="): c = r.randrange(0, w); return "%s%s%d" % (t, op, c), ("asg", {"<<=": "shl", ">>=": "shr"}[op], t, g, c, w)
            c = abs(s.const(w)) & 0x7fffffff; sp = r.choice(["", " "])
            return "%s%s%s%s%d" % (t, sp, op, sp, c), ("asg", {"=": "mov", "+=": "add", "-=": "sub", "&=": "and", "|=": "or", "^=": "xor"}[op], t, g, c, w)
        ini = [one() for _ in range(r.choice([0, 1, 1, 2, 3]))]; step = [one() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        c = s.cond(1) if r.random() < .85 else None
        return ("for", ini, c, step, [s.tr()] + s.block(d - 1, "w"))
    def switch(s, d, loop):
        r = s.rng; t, g, w, sg, mem = s.operand(w=r.choice([None, 32]))
        while "ptr" in t or "[" in t or sg: t, g, w, sg, mem = s.operand()
        n = r.choice([1, 2, 3, 4, 5, 8, 8, 20, 30, 90 if s.size < 60 else 9]); st = r.random(); top = M(min(w, 31)); vals = set()
        base = r.choice([0, 0, 1, 5, 100, 1000 if w > 8 else 10])
        spread = r.choice([n, n + 2, 2 * n, 10 * n, 200, 255, 256, 1000, 20000, top])
        if w == 64 and n > 3 and r.random() < .3: spread = r.choice([1 << 33, 1 << 45, 1 << 62]); top = M(63)
        if w >= 32 and r.random() < .25: base = -r.randrange(1, 100)
        for _ in range(n * 3):
            v = base + r.randrange(0, max(1, spread))
            if v <= top: vals.add(v)
            if len(vals) == n: break
        vals = list(vals); r.random() < .5 and r.shuffle(vals); cases = []
        while vals:
            k = min(len(vals), r.choice([1, 1, 1, 1, 2, 3])); grp, vals = vals[:k], vals[k:]
            form = r.choice(["comma", "lines"])
            if len(cases) > 8: b = [s.tr()]; brk = True
            else: b = ([s.tr()] if r.random() < .9 or s.asmsw else []) + (s.block(d - 1, loop and "w" if False else "s") if r.random() < .4 else []); brk = r.random() < .75
            cases.append((grp, form, b, brk))
        default = ([s.tr()] + (s.block(d - 1, "s") if r.random() < .3 else [])) if r.random() < .6 else None
        sel = r.choice([v for c in cases for v in c[0]] + [r.randrange(-3, 300)]) if r.random() < .85 else None
        if w < 32: sel = None if sel is None else sel & M(w)
        return ("switch", t, g, w, cases, default, sel, r.random() < .2)

def emit(g, b, L, ind=1):
    r = g.rng; P = " " * ind; D = lambda d: P + (d.upper() if r.random() < .3 else d)
    for s in b:
        k = s[0]; g.kinds.add(k)
        if k == "tr": L.append("%sTR %d" % (P, s[1]))
        elif k == "asg":
            t = s[2].replace("sbyte ptr ", "byte ptr ").replace("sword ptr ", "word ptr ").replace("sdword ptr ", "dword ptr ").replace("sqword ptr ", "qword ptr ")
            L.append("%s%s %s" % (P, s[1], t) if s[1] in ("inc", "dec") else "%s%s %s, %d" % (P, s[1], t, s[4]))
        elif k == "flags": L.append("%s%s %s, %d" % (P, s[1], s[2], s[4]))
        elif k == "if":
            for i, (c, bb) in enumerate(s[1]): L.append("%s %s" % (D(".elseif" if i else ".if"), c[0])); emit(g, bb, L, ind + 1)
            if s[2] is not None: L.append(D(".else")); emit(g, s[2], L, ind + 1)
            L.append(D(".endif"))
        elif k == "while": L.append("%s %s" % (D(".while"), s[1][0])); emit(g, s[2], L, ind + 1); L.append(D(".endw"))
        elif k == "repeat":
            L.append(D(".repeat")); emit(g, s[1], L, ind + 1)
            L.append("%s%s" % (D(".until" if s[2] == "until" else ".untilcxz"), " " + s[3][0] if s[3] else ""))
        elif k == "for":
            sp = r.choice([" ", ""]); L.append("%s (%s%s:%s%s:%s%s)" % (D(".for"), ", ".join(t for t, _ in s[1]), sp, sp, s[2][0] if s[2] else "", sp, ",".join(t for t, _ in s[3])))
            emit(g, s[4], L, ind + 1); L.append(D(".endfor"))
        elif k == "switch":
            if s[6] is not None and (s[3] < 64 or -(1 << 31) <= s[6] < 1 << 31): L.append("%smov %s, %d" % (P, s[1], s[6]))
            elif s[6] is not None: L += ["%smov rax, %d" % (P, s[6]), "%smov %s, rax" % (P, s[1])]
            sel = s[1]
            if s[7] and s[3] >= 32: sel = "eax" if s[3] == 32 else "rax"; L.append("%smov %s, %s" % (P, sel, s[1]))
            L.append("%s %s" % (D(".switch"), sel)); dpos = len(s[4])
            for i, (grp, form, bb, brk) in enumerate(s[4]):
                if form == "comma": L.append("%s %s" % (D(".case"), ", ".join(map(str, grp))))
                else: L += ["%s %d" % (D(".case"), v) for v in grp]
                emit(g, bb, L, ind + 1)
                if brk: L.append(D(".break"))
            if s[5] is not None: L.append(D(".default")); emit(g, s[5], L, ind + 1)
            L.append(D(".endswitch"))
        elif k in ("break", "continue"): L.append(D("." + k) + (" .if %s" % s[1][0] if s[1] else ""))

class Run:
    def __init__(s, st, V, bits, asmsw): s.st = dict(st); s.tr = []; s.W = {v.t: v.w for v in V}; s.bits = bits; s.asmsw = asmsw; s.fl = None; s.fuel = FUEL * 4
    def get(s, g): return s.st[g[0]] & M(g[1])
    def put(s, g, v):
        n, w = g; full = s.W[n]
        if w == 32 and full == 64 and n[0] == "r": s.st[n] = v & M(32)
        else: s.st[n] = s.st[n] & ~M(w) & M(full) | v & M(w)
    def c(s, n):
        k = n[0]
        if k == "const": return n[1] != 0
        if k == "nz": return s.get(n[1]) != 0
        if k == "test": return s.get(n[1]) & n[2] != 0
        if k == "testr": return s.get(n[1]) & s.get(n[2]) != 0
        if k == "not": return not s.c(n[1])
        if k == "and": return all(s.c(x) for x in n[1])
        if k == "or": return any(s.c(x) for x in n[1])
        if k == "flag":
            f = s.fl; return {"ZERO": f["z"], "EQUAL": f["z"], "CARRY": f["c"], "BELOW": f["c"], "SIGN": f["s"], "PARITY": f["p"], "OVERFLOW": f["o"], "LESS": f["s"] != f["o"], "GREATER": not f["z"] and f["s"] == f["o"], "ABOVE": not f["c"] and not f["z"]}[n[1]]
        a = s.get(n[2]); b = s.get(n[3]) if k == "cmpr" else n[3] & M(n[4])
        if n[5]: a, b = sx(a, n[4]), sx(b, n[4])
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[n[1]]
    def flags(s, op, g, c, w):
        a = s.get(g); b = c & M(w)
        if op == "test": r = a & b; cf = of = False
        elif op == "cmp": r = (a - b) & M(w); cf = a < b; of = sx(a, w) - sx(b, w) != sx(r, w)
        else: r = (a + b) & M(w); cf = a + b > M(w); of = sx(a, w) + sx(b, w) != sx(r, w); s.put(g, r)
        s.fl = dict(z=r == 0, c=cf, s=bool(r >> (w - 1)), o=of, p=bin(r & 255).count("1") % 2 == 0)
    def asg(s, x):
        _, op, t, g, c, w = x; a = s.get(g); c &= M(w)
        s.put(g, {"mov": c, "add": a + c, "sub": a - c, "xor": a ^ c, "inc": a + 1, "dec": a - 1, "and": a & c, "or": a | c, "shl": a << (c & 63), "shr": a >> (c & 63)}[op])
    def block(s, b):
        for x in b: s.one(x)
    def loop(s, b):
        try: s.block(b)
        except Cont: pass
    def one(s, x):
        k = x[0]
        if k == "tr":
            s.tr.append(x[1])
            if len(s.tr) >= FUEL: raise Quit
        elif k == "asg": s.asg(x)
        elif k == "flags": s.flags(x[1], x[3], x[4], x[5])
        elif k == "if":
            for c, b in x[1]:
                if s.c(c[1]): s.block(b); return
            if x[2] is not None: s.block(x[2])
        elif k == "while":
            try:
                while s.c(x[1][1]): s.loop(x[2])
            except Brk: pass
        elif k == "repeat":
            try:
                while 1:
                    s.loop(x[1])
                    if x[2] == "cxz":
                        n = "rcx" if s.bits == 64 else "ecx"; t = s.c(x[3][1]) if x[3] else False
                        s.st[n] = (s.st[n] - 1) & M(s.bits)
                        if t or s.st[n] == 0: break
                    elif s.c(x[3][1]): break
            except Brk: pass
        elif k == "for":
            for _, a in x[1]: s.asg(a)
            try:
                while x[2] is None or s.c(x[2][1]):
                    s.loop(x[4])
                    for _, a in x[3]: s.asg(a)
            except Brk: pass
        elif k == "switch":
            if x[6] is not None: s.put(x[2], x[6])
            v = s.get(x[2])
            if x[3] >= 32: v = sx(v, x[3])
            at = next((i for i, c in enumerate(x[4]) if v in c[0]), None)
            try:
                if at is None:
                    if x[5] is not None: s.block(x[5])
                    return
                for grp, form, b, brk in x[4][at:]:
                    s.block(b)
                    if brk or s.asmsw: return
                if x[5] is not None: s.block(x[5])
            except Brk: pass
        elif k == "break":
            if x[1] is None or s.c(x[1][1]): raise Brk
        elif k == "continue":
            if x[1] is None or s.c(x[1][1]): raise Cont

def program(rng, bits, n):
    """source of n tests, their trees and expected records"""
    V = variables(bits); di, bp = ("edi", "ebp") if bits == 32 else ("rdi", "rbp"); L = []; tests = []; asmsw = rng.random() < .5
    L += [".686" if bits == 32 else ".x64", ".model flat" if bits == 32 else "", "TR macro n", " mov byte ptr [%s], n" % di, " inc %s" % di, " cmp %s, %s" % (di, bp), " jae quit_", "endm"]
    L.append(" option switchstyle:" + ("asmstyle" if asmsw else "cstyle") if rng.random() < .8 or not asmsw else "")
    data = [" %s %s ?" % (v.t, ("S" if v.sg else "") + DT[v.w]) for v in V if v.mem]
    body = [".code", "start:"]
    if bits == 64: body += [" push rbx", " push r12"]
    else: body += [" push ebx", " push esi"]
    for i in range(n): body.append(" call t%d" % i)
    body += [" mov %s, %s" % ("eax" if bits == 32 else "rax", di), " pop %s" % ("esi" if bits == 32 else "r12"), " pop %s" % ("ebx" if bits == 32 else "rbx"), " ret"]
    W = 4 if bits == 32 else 8
    for i in range(n):
        g = Gen(random.Random(rng.getrandbits(64)), bits, V); g.asmsw = asmsw
        tree = g.block(rng.choice([1, 2, 3, 4]), None, rng.choice([2, 4, 8])); st = {}
        for v in V: st[v.t] = rng.choice([0, 1, 2, 3, M(v.w), M(v.w) - 1, 1 << (v.w - 1), M(v.w - 1), rng.getrandbits(v.w), rng.randrange(100) & M(v.w)])
        b = ["t%d proc" % i if False else "t%d:" % i, " lea %s, [%s+%d]" % (bp, di, FUEL)]
        for v in V:
            val = st[v.t]
            if v.mem:
                if v.w == 64: b += [" mov rax, 0%xh" % val, " mov %s, rax" % v.t]
                else: b.append(" mov %s, %d" % (v.t, val))
            else: b.append(" mov %s, 0%xh" % (v.t, val))
        T = []; emit(g, tree, T); b += ["; test %d" % i] + T
        b += [" jmp q%d" % i]; 
        tests.append((tree, st, T, g.kinds)); body += [l.replace("quit_", "q%d" % i) for l in b]
        body += ["q%d:" % i]
        # epilogue: fill up the trace with zero, then the variables
        body += [" sub %s, %d" % (bp, FUEL), " mov esi, %s" % ("edi" if bits == 32 else "edi"), " sub esi, ebp", " lea %s, [%s+%d]" % (di, bp, FUEL), " mov [%s], esi" % di, " add %s, 4" % di]
        for v in V:
            if v.mem: body += [{8: " mov al, %s\n mov [%s], al", 16: " mov ax, %s\n mov [%s], ax", 32: " mov eax, %s\n mov [%s], eax", 64: " mov rax, %s\n mov [%s], rax"}[v.w] % ("%s ptr %s" % (DT[v.w].lower(), v.t), di)]
            else: body.append(" mov [%s], %s" % (di, v.t))
            body.append(" add %s, %d" % (di, v.w // 8))
        body.append(" ret")
    L += [".data"] + data + body + ["end"]
    return "\n".join(L) + "\n", tests, V, asmsw

def check():
    C = vf.Check("C11", "exploration", "one program of nested flow directives, executed; its trace and the final value of every variable were compared",
                 ["programs run on this CPU in 32- and 64-bit mode; 16-bit code is not executed", ".SWITCH uses eax/rax; `*=`, `/=` and `%=` of .FOR use eax, ecx, edx and are not generated"])
    exe = vf.build("plain"); rn = runimg.runner(); K = 60; N = 70 if not vf.THOROUGH else 1200
    def job(a):
        seed, bits = a; rng = random.Random(seed); src, tests, V, asmsw = program(rng, bits, K)
        # the trace macro needs each test's own exit label
        out = []; cur = "q0"
        for l in src.split("\n"):
            if l.startswith("; test "): cur = "q" + l[7:]
            if l.lstrip().startswith("TR "): l = l + ", " + cur
            out.append(l)
        src = "\n".join(out).replace("TR macro n", "TR macro n, quit_")
        r = vf.asm(exe, src, ["-q", "-elf" if bits == 32 else "-elf64", "-e9999"], "t.o", timeout=20)
        return bits, src, tests, V, asmsw, r, (runimg.run(rn, bits, r.files["t.o"]) if r.rc == 0 and "t.o" in r.files else None)
    for bits, src, tests, V, asmsw, r, ex in vf.pmap(job, [(C.rng.getrandbits(64), (32, 64)[i % 2]) for i in range(N)]):
        cmd = ["uasm", "-q", "-elf%s" % ("64" if bits == 64 else ""), "-Fo", "t.o", "t.asm"]
        if ex is None:
            e = r.errors(); l = src.split("\n"); t = l[e[0][1] - 1].strip() if e and 0 < e[0][1] <= len(l) else ""
            C.violation("refused:%s" % (t.split(" ")[0] if t else r.rc), "a valid program is refused (status %s): `%s`: %s" % (r.rc, t, e[:2] or r.text()[:200]), {"t.asm": src}, cmd); continue
        rc, data, msg = ex; rec = FUEL + 4 + sum(v.w // 8 for v in V)
        for i, (tree, st, T, kinds) in enumerate(tests):
            R = Run(st, V, bits, asmsw)
            try: R.block(tree)
            except Quit: pass
            d = data[i * rec:(i + 1) * rec]; C.count("tests%d" % bits); C.count("events", len(R.tr)); C.case("%d:%s:%d" % (bits, "".join(sorted(k[0] for k in kinds)), hash(tuple(R.tr)) & 0xffffff), sample=" / ".join(x.strip() for x in T[:4])[:120])
            one = "\n".join(T)
            if len(d) < rec: C.violation("crash", "test %d did not run to its end (runner status %s %s)\n%s" % (i, rc, msg, one), {"t.asm": src}, cmd); break
            n = struct.unpack_from("<I", d, FUEL)[0]; got = list(d[:n]) if n <= FUEL else None; fin = {}; o = FUEL + 4
            for v in V: fin[v.t] = int.from_bytes(d[o:o + v.w // 8], "little"); o += v.w // 8
            if got != R.tr:
                j = next((j for j in range(min(len(got or []), len(R.tr))) if got[j] != R.tr[j]), min(len(got or []), len(R.tr)))
                C.violation("flow:" + "".join(sorted(k[0] for k in kinds)), "%d-bit test %d: at step %d of the trace the code does %s, the source says %s\ninitial %s\n%s" % (bits, i, j, (got or [])[j:j + 5], R.tr[j:j + 5], {k: v for k, v in st.items() if k in one}, one), {"t.asm": src}, cmd)
            else:
                bad = [v.t for v in V if fin[v.t] != R.st[v.t]]
                if bad: C.violation("value:" + "".join(sorted(k[0] for k in kinds)), "%d-bit test %d: %s ends as %x, the source says %x\n%s" % (bits, i, bad[0], fin[bad[0]], R.st[bad[0]], one), {"t.asm": src}, cmd)
    return C.finish(2000)
if __name__ == "__main__": vf.main(check)
