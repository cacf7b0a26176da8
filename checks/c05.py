#!/usr/bin/env python3
"""C05: constant expressions against a reference evaluator, in every context
that takes a constant."""
import os, random, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, exprgen
from exprgen import gen, number, s64, M64

HDR = {16: ".8086\n", 32: ".386\n", 64: ".x64\n"}
USE = {16: "use16", 32: "use32", 64: "use64"}

def build_module(rng, bits, n):
    """-> (source lines, expectations): expectations[i] = (bytes, description) in output order."""
    lines = []; exp = []
    radix = 10
    def emit(l): lines.append(l)
    syms = {}
    fwd = {}
    kind = "_T segment %s 'CODE'" % USE[bits]
    if bits == 64: emit(".x64")
    elif bits == 32: emit(".686")
    else: emit(".8086")
    emit(kind)
    # forward-referenced equates, defined at the end of the module
    for k in range(4):
        fwd["fw%d" % k] = rng.choice([rng.randrange(0, 1000), rng.getrandbits(31), rng.choice((5, 0x7fffffff, 1))])
    def want(b, d): exp.append((b, d, len(lines)))
    q = lambda v: struct.pack("<Q", v & M64)
    for i in range(n):
        ctx = rng.choices(("dq", "equ", "asgn", "imm", "dup", "if", "pct", "rep", "fwd", "label", "disp", "small", "tbyte", "while", "enum"),
                          (30, 8, 8, 6, 4, 8, 5, 3, 8, 6, 5, 8, 3, 2, 3))[0]
        depth = rng.choice((1, 2, 2, 3, 4, 6))
        if rng.random() < .04:
            radix = rng.choice((2, 8, 10, 16, 16, 10)); emit(".radix %dt" % radix if rng.random() < .5 else ".radix " + number(rng, radix, 10) if False else ".radix %dt" % radix)
        def g(**k):
            k.setdefault("depth", depth)
            return gen(rng, syms=k.pop("syms", syms), bits=bits, radix=radix, **k)
        if ctx == "dq":
            t, v, _ = g(); emit(" dq " + t); want(q(v), t)
        elif ctx in ("equ", "asgn"):
            t, v, p = g()
            # a plain number must fit 32 bits (a larger one makes EQU a text macro)
            if p == 0 and v > 0x7fffffff: continue
            nm = "s%d" % i if ctx == "equ" else "v%d" % rng.randrange(3)
            emit("%s %s %s" % (nm, "EQU" if ctx == "equ" else "=", t))
            # text EQUs are re-evaluated where used: keep only numeric results
            if ctx == "asgn": syms[nm] = v
            else: syms[nm] = v
            emit(" dq " + nm); want(q(v), "%s: %s" % (nm, t))
        elif ctx == "imm":
            t, v, _ = g()
            if bits == 64:
                # a value no shorter encoding can hold
                sv = s64(v)
                if -(1 << 31) <= sv < (1 << 32): continue
                emit(" mov rbx, " + t); want(b"\x48\xbb" + q(v), t)
            else:
                w = 4 if bits == 32 else 2
                t = "(%s) AND %s" % (t, number(rng, (1 << (8 * w)) - 1, radix)); v &= (1 << (8 * w)) - 1
                emit(" mov %s, %s" % ("ebx" if w == 4 else "bx", t))
                want(b"\xbb" + struct.pack("<Q", v)[:w], t)
        elif ctx == "dup":
            t, v, _ = g(small=True)
            t = "(%s) AND %s" % (t, number(rng, 63, radix)); v &= 63
            emit(" db (%s) dup (%s)" % (t, number(rng, i & 0xff, radix))); want(bytes([i & 0xff]) * v, t)
            emit(" db 0eeh"); want(b"\xee", "mark")
        elif ctx == "if":
            t, v, _ = g()
            neg = rng.random() < .3
            emit("%s %s" % ("ife" if neg else "if", t)); emit(" db 0a1h"); emit("else"); emit(" db 0a2h"); emit("endif")
            want(b"\xa1" if (v != 0) != neg else b"\xa2", "IF " + t)
        elif ctx == "pct":
            if radix != 10: continue
            t, v, _ = g()
            t = "(%s) AND 7fffffffh" % t; v &= 0x7fffffff
            emit("t%d TEXTEQU %%(%s)" % (i, t)); emit(" dq t%d" % i); want(q(v), "%" + t)
            emit("c%d CATSTR <1>, %%(%s), <2>" % (i, "v0 AND 0ffh" if "v0" in syms else "0"))
            vv = syms["v0"] & 0xff if "v0" in syms else 0
            emit(" dq c%d" % i); want(q(int("1%d2" % vv)), "catstr")
        elif ctx in ("rep", "while"):
            t, v, _ = g(small=True)
            t = "(%s) AND %s" % (t, number(rng, 7, radix)); v &= 7
            if ctx == "rep":
                emit("repeat " + t); emit(" db 0c3h"); emit("endm")
            else:
                if rng.random() < .3:      # the loop's value only has bits above 32
                    k = rng.choice((32, 40, 63)); emit("vw = (%s)" % t); emit("while vw SHL %s" % number(rng, k, radix)); emit(" db 0c3h"); emit("vw = vw - 1"); emit("endm")
                    if k == 63: v = v & 1
                else: emit("vw = 0"); emit("while vw LT (%s)" % t); emit(" db 0c3h"); emit("vw = vw + 1"); emit("endm")
            want(b"\xc3" * v, t); emit(" db 0c4h"); want(b"\xc4", "mark")
        elif ctx == "fwd":
            f = rng.choice(sorted(fwd))
            # only + and - take a symbol that is not defined yet
            t, v, p = gen(rng, depth, {}, bits=bits, radix=radix)
            w = rng.randrange(3); t = "(%s) AND 0FFFFFt" % t if False else t
            v &= M64
            if abs(s64(v)) >= 1 << 30: continue
            t = "(%s)" % t
            if w == 0: t, v = "%s + %s" % (f, t), fwd[f] + v
            elif w == 1: t, v = "%s - %s" % (f, t), fwd[f] - v
            else: t, v = "%s + %s" % (t, f), fwd[f] + v
            if bits != 64 and not -(1 << 31) <= (fwd[f] + (0 if 0 else 0)) < 1 << 31: continue
            emit(" dq " + t); want(q(v), "fwd " + t)
        elif ctx == "label":
            a = rng.randrange(0, 40); b = rng.randrange(0, 40)
            fwdref = rng.random() < .5
            tt, v, _ = gen(rng, 2, {}, bits=bits, radix=radix, ops=["+", "-", "*", "AND", "OR"])
            e = "(lb%d - la%d) * %s + (%s)" % (i, i, number(rng, 3, radix), tt)
            if fwdref: emit(" dq " + e); want(q(a * 3 + v), e)
            emit("la%d:" % i)
            emit(" db %s dup (1)" % number(rng, a, radix)); want(b"\1" * a, "pad")
            emit("lb%d:" % i)
            if not fwdref: emit(" dq " + e); want(q(a * 3 + v), e)
        elif ctx == "disp":
            if bits == 16: continue
            t, v, _ = g()
            t = "((%s) AND %s) - %s" % (t, number(rng, 0xffffff, radix), number(rng, 0x800000, radix)); v = (v & 0xffffff) - 0x800000
            if -128 <= v <= 127: continue
            emit(" mov ecx, [%s + %s]" % ("rsi" if bits == 64 else "esi", t)); want(b"\x8b\x8e" + struct.pack("<i", v), t)
        elif ctx == "small":
            w, d = rng.choice(((1, "db"), (2, "dw"), (4, "dd"), (1, "sbyte"), (2, "sword"), (4, "dword")))
            t, v, _ = g()
            t = "(%s) AND %s" % (t, number(rng, (1 << (8 * w)) - 1, radix)); v &= (1 << (8 * w)) - 1
            if d[0] == "s": t = "(%s) SHR 1" % t; v >>= 1
            emit(" %s %s" % (d, t)); want(q(v)[:w], t)
        elif ctx == "tbyte":
            v = rng.getrandbits(rng.choice((60, 64, 72, 79)))
            emit(" dt " + number(rng, v, 10 if radix == 10 else radix)); want(v.to_bytes(10, "little"), "dt %d" % v)
            v = rng.getrandbits(rng.choice((64, 72, 100, 127)))
            emit(" oword " + number(rng, v, radix)); want(v.to_bytes(16, "little"), "oword %d" % v)
        elif ctx == "enum":
            # symbol redefinition in terms of itself
            nm = "v%d" % rng.randrange(3)
            if nm not in syms: continue
            op = rng.choice(("+", "-", "*", "XOR", "OR"))
            k = rng.randrange(1, 99)
            emit("%s = %s %s %s" % (nm, nm, op, number(rng, k, radix)))
            syms[nm] = exprgen.calc(op, syms[nm], k, bits)
            emit(" dq %s" % nm); want(q(syms[nm]), "%s %s= %d" % (nm, op, k))
    emit(".radix 10t")
    for nm, v in sorted(fwd.items()): emit("%s EQU %d" % (nm, v))
    emit("_T ends"); emit("end")
    return lines, exp

BAD = ["1 / 0", "5 MOD 0", "1 / (3-3)", "(1+2", "1+2)", "1 +", "* 2", "3 SHL", "NOT", "1 2", "12z", "0ffg", "1 EQ", "(1", "()", "HIGH", "5 MOD (2 EQ 3)",
       "1 + (2 * (3 - 1)", "/ 4", "8 AND", "1 SHL (0-1)", "2 SHR (0-3)", "12b", "8o + 1"]

def run_module(c, exe, mrng, bits, n):
    lines, exp = build_module(mrng, bits, n)
    src = "\n".join(lines) + "\n"
    r = vf.asm(exe, src, ("-q", "-bin", "-e50000"))
    errs = r.errors()
    if r.timeout: c.inconcl("timeout"); return
    if r.rc != 0 or "t.bin" not in r.files:
        w = errs[0] if errs else None
        ln = lines[w[1] - 1] if w and 0 < w[1] <= len(lines) else ""
        key = "reject:" + (w[3] if w else "rc%s" % r.rc)
        c.violation(key, "valid expression module (%d-bit) not accepted: rc=%s %s\nline: %s" % (bits, r.rc, w, ln), {"t.asm": src}, r.cmd)
        return
    out = r.files["t.bin"]; pos = 0
    for b, d, ln in exp:
        got = out[pos:pos + len(b)]
        c.case(key=hash((bits, d)) if len(d) > 4 else None, sample="%d-bit: %s -> %s" % (bits, d, b.hex()) if len(d) > 12 else None)
        if got != b:
            ops = "+".join(sorted(set(re.findall(r"(?i)\b(?:MOD|SHL|SHR|EQ|NE|LT|LE|GT|GE|AND|OR|XOR|NOT|HIGH|LOW|HIGHWORD|LOWWORD|HIGH32|LOW32)\b|[-+*/]", d.upper()))))
            c.violation("value:%s" % ops[:60], "%d-bit line %d: %s\n expression: %s\n expected %s got %s" % (bits, ln, lines[ln - 1], d, b.hex(), got.hex()),
                        {"t.asm": src}, r.cmd)
            return
        pos += len(b)
    if pos != len(out):
        c.violation("length", "output has %d bytes, expected %d" % (len(out), pos), {"t.asm": src}, r.cmd)

def bad_module(c, exe, rng, bits):
    """Each malformed line, and only it, must be diagnosed."""
    lines = [HDR[bits].strip(), "_T segment %s 'CODE'" % USE[bits]]
    bad = []
    for e in rng.sample(BAD, 12):
        lines.append(" dq %s" % gen(rng, 2, bits=bits)[0])
        tmpl = rng.choice((" dq %s", "x%d = %%s" % len(lines), " dd %s", " dq 5 + (%s)"))
        if e in ("()", "1 2", "(1", "(1+2", "1+2)", "1 + (2 * (3 - 1)") and "(" in tmpl: tmpl = " dq %s"
        lines.append(tmpl % e); bad.append(len(lines))
    lines += ["_T ends", "end"]
    src = "\n".join(lines) + "\n"
    r = vf.asm(exe, src, ("-q", "-bin", "-e500"))
    if r.timeout: c.inconcl("timeout"); return
    got = sorted({e[1] for e in r.errors()})
    for b in bad: c.case(key="bad:" + lines[b - 1])
    miss = [lines[b - 1] for b in bad if b not in got]
    extra = [lines[g - 1] for g in got if g not in bad and g <= len(lines)]
    if r.rc is None or r.rc < 0:
        c.violation("bad-crash", "assembler died (rc %s) on malformed expressions" % r.rc, {"t.asm": src}, r.cmd); return
    if r.rc == 0 or miss:
        c.violation("bad-accepted:" + (miss[0].split()[-1] if miss else "rc0"), "malformed expression not diagnosed: %s (rc %s)" % (miss[:3], r.rc), {"t.asm": src}, r.cmd)
    if extra:
        c.violation("bad-extra", "valid line diagnosed: %s" % extra[:3], {"t.asm": src}, r.cmd)

def main():
    exe = vf.build("plain")
    c = vf.Check("C05", "exploration",
        "random expression trees (all operators, radixes, operand magnitudes, .RADIX, forward references) evaluated by the assembler in data, equates, "
        "immediates, displacements, DUP/REPEAT counts, IF conditions and % expansion; a case is non-trivial if its expression text is distinct and longer than a marker",
        ["reference evaluator follows the documented operator table with 64-bit wrapping arithmetic; / truncates; MOD only on non-negative operands; -1 SHR n shifts 32 bits in 32-bit segments"])
    nmod = 6000 if vf.THOROUGH else 400
    jobs = [("m", random.Random("%s/%d/%d" % ("C05", vf.SEED, i)), (16, 32, 64)[i % 3], i) for i in range(nmod)]
    jobs += [("b", random.Random("%s/b%d/%d" % ("C05", vf.SEED, i)), (16, 32, 64)[i % 3], i) for i in range(nmod // 2)]
    def one(j):
        if j[0] == "m": run_module(c, exe, j[1], j[2], 150)
        else: bad_module(c, exe, j[1], j[2])
    vf.pmap(one, jobs)
    return c.finish(min_nontrivial=1000)
vf.main(main)
