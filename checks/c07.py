#!/usr/bin/env python3
"""C07: every decimal literal becomes the nearest representable value.  Random
literals, exact halfway points and their neighbours, limits; the oracle is exact
rational arithmetic.  Values outside the range of the format must be errors."""
import os, random, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
sys.set_int_max_str_digits(0)
M63 = (1 << 63) - 1; M80 = (1 << 80) - 1
FMT = {4: (24, 8), 8: (53, 11), 10: (64, 15)}

def enc(fr, size):
    """(integer image without sign, 'ok' | 'denormal' | 'over') of the value nearest to a rational >= 0, ties to even"""
    p, w = FMT[size]; bias = (1 << w - 1) - 1; emin = 1 - bias
    if fr == 0: return 0, "ok"
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    if Fraction(2) ** e > fr: e -= 1
    if e > bias: return 0, "over"
    tiny = e < emin; e = max(e, emin)
    q = fr / Fraction(2) ** (e - p + 1); n = q.numerator // q.denominator; r = q - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n & 1: n += 1
    if n == 1 << p: n >>= 1; e += 1
    if e > bias: return 0, "over"
    if size == 10: v = (e + bias) << 64 | n if n >> 63 else n
    else: v = (e + bias) << p - 1 | n & ((1 << p - 1) - 1) if n >> p - 1 else n
    return v, "denormal" if tiny else "ok"

def dec(fr):
    """exact decimal notation of a dyadic rational"""
    k = fr.denominator.bit_length() - 1
    s = str(fr.numerator * 5 ** k).rjust(k + 1, "0")
    return s[:-k] + "." + s[-k:] if k else s + "."

def respell(rng, s):
    """the same number with the decimal point elsewhere and an exponent"""
    i, f = s.split("."); k = rng.random()
    if k < .3: return s
    d = (i + f); e = len(i); j = rng.randrange(1, len(d) + 1) if rng.random() < .5 else 1
    z = len(d) - len(d.lstrip("0"))
    if j <= z < len(d): d = d[z:]; e -= z; j = 1
    x = e - j
    return "%s.%s%s%s%d" % (d[:j], d[j:], rng.choice("eE"), "-" if x < 0 else rng.choice(["", "+"]), abs(x))

def literal(rng, size, legal=True):
    p, w = FMT[size]; bias = (1 << w - 1) - 1
    D = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    while True:
        k = rng.random() if legal or rng.random() < .9 else .98
        if k < .15: s = "%d.%s" % (rng.randrange(10 ** rng.randrange(1, 10)), D(rng.randrange(0, 9)))
        elif k < .25: s = "%d.%s" % (rng.randrange(10 ** rng.randrange(1, 40)), D(rng.randrange(0, 40)))
        elif k < .32: s = "0.%s%s" % ("0" * rng.randrange(0, 30), D(rng.randrange(1, 30)))
        elif k < .36: s = "%s%d.%s" % ("0" * rng.randrange(0, 20), rng.randrange(100), D(3) + "0" * rng.randrange(0, 40))
        elif k < .65:
            m = int(bias * 0.30103)
            s = "%s.%s%s%s" % (D(rng.choice([1, 1, 1, 2, 19, 30])), D(rng.randrange(0, 25)), rng.choice("eE"), rng.choice(["%d", "+%d", "-%d", "-%d", "%03d"]) % rng.randrange(0, rng.choice([3, 30, m, m + 3])))
        elif k < .97:
            e = rng.randrange(-60, 80) if rng.random() < .8 else rng.randrange(max(1 - bias, -600), min(bias, 600))
            n = rng.choice([rng.getrandbits(p) | 1 << p - 1, (1 << p) - 1 - rng.getrandbits(2), (1 << p - 1) + rng.getrandbits(2)])
            fr = Fraction(2 * n + rng.choice([0, 1, 1, 1])) * Fraction(2) ** (e - p)
            s = dec(fr)
            if len(s) > 600: continue
            t = rng.random()                                                         # beside the halfway point
            if t < .3: s += "0" * rng.randrange(0, 25) + "1"
            elif t < .6:
                d = s.replace(".", "", 1); q = len(d) - (s.index(".") + 0); f = rng.randrange(1, 25)
                d = str(int(d) * 10 ** f - 1).rjust(len(d) + f, "0"); s = d[:len(d) - q - f] + "." + d[len(d) - q - f:]
            s = respell(rng, s)
        else:                                                                        # limits of the format
            mx = Fraction((1 << p) - 1) * Fraction(2) ** (bias - p + 1); mn = Fraction(2) ** (1 - bias)
            fr = rng.choice([mx, mn, mx + (mx - mx * (2 ** p - 2) / (2 ** p - 1)) * rng.choice([Fraction(2, 5), Fraction(3, 5), 1]), mn * rng.choice([1, 2, Fraction(3, 2), 1 + Fraction(1, 2 ** (p + 1)), Fraction(9, 10)])])
            x = len(str(fr.numerator)) - len(str(fr.denominator)); d = rng.choice([p // 3 + 1, 30])
            v = fr * Fraction(10) ** (d - x); s = str(v.numerator // v.denominator + rng.randrange(2)); x -= d - (len(s) - 1)
            s = "%s.%se%d" % (s[0], s[1:], x)
        if not legal and k >= .15: s = s.split("e")[0].split("E")[0] + "e" + rng.choice(["%d", "-%d"]) % rng.choice([rng.randrange(bias // 3, bias), rng.randrange(bias, 10 ** 6), 10 ** rng.randrange(3, 15)])
        big = int((s + "e0").lower().split("e")[1] or 0)
        if abs(big) > 20000: v = (0, "over") if big > 0 and any(c in "123456789" for c in s.lower().split("e")[0]) else (0, "denormal" if any(c in "123456789" for c in s.lower().split("e")[0]) else "ok")
        else: v = enc(Fraction(s), size)
        if len(s) > 700: continue
        if legal and v[1] == "ok": return s, v[0]
        if not legal and v[1] != "ok": return s, v
        if not legal and v[1] == "ok" and rng.random() < .02: return s, v

TY = {4: ["real4", "REAL4", "dd"], 8: ["real8", "REAL8", "dq"], 10: ["real10", "REAL10", "dt"]}
def sign(rng, lit, v, size):
    k = rng.random()
    if k < .65: return lit, v
    if k < .75: return "+" + lit, v
    return rng.choice(["-", "- "]) + lit, v | 1 << 8 * size - 1

def one(rng, size):
    k = rng.random()
    if k < .08:                                                                      # hexadecimal real: bit for bit
        v = rng.getrandbits(8 * size); h = "%0*x" % (2 * size, v); h = rng.choice([h, h.upper()])
        return ("0" + h if not h[0].isdigit() else h) + rng.choice("rR"), v, "hex"
    if k < .13:                                                                      # integer constants are converted
        n = rng.choice([rng.randrange(0, 10), rng.getrandbits(rng.randrange(1, 64)), (1 << rng.randrange(0, 63)) + rng.randrange(-1, 2), (1 << FMT[size][0]) % (1 << 62) + 1])
        n = max(0, min(n, (1 << 63) - 1)); v = enc(Fraction(n), size)[0]
        if rng.random() < .4 and n: return "-%d" % n, v | 1 << 8 * size - 1, "int"
        return rng.choice(["%d", "0%xh"]) % n, v, "int"
    l, v = literal(rng, size)
    return sign(rng, l, v, size) + ("dec",)

def item(rng, bits, U):
    """(lines, [(text, size, value, kind)], shape) of one statement"""
    k = rng.random(); size = rng.choice([4, 4, 8, 8, 10]); plain = TY[size][:2]
    if k < .55:
        L = [one(rng, size) for _ in range(rng.choice([1, 1, 1, 2, 3]))]; T = rng.choice(TY[size] if not any(x[2] == "int" for x in L) else plain)
        lab = "v%d " % next(U) if rng.random() < .3 else " "
        return [lab + T + " " + ", ".join(x[0] for x in L)], [(T + " " + x[0], size, x[1], x[2]) for x in L], None
    if k < .62:
        t, v, kd = one(rng, size); n = rng.randrange(1, 6)
        return [" %s %d dup (%s)" % (plain[0], n, t)], [(t, size, v, kd)] * n, None
    if k < .72:                                                                      # structure: default and override
        u = next(U); F = [(rng.choice([4, 8, 10])) for _ in range(rng.randrange(1, 4))]; D = [one(rng, s) for s in F]; O = [one(rng, s) if rng.random() < .5 else None for s in F]
        lines = ["s%d struct 1" % u] + ["f%d_%d %s %s" % (u, i, TY[s][0], d[0]) for i, (s, d) in enumerate(zip(F, D))] + ["s%d ends" % u]
        lines.append(" s%d <%s>" % (u, ", ".join(o[0] if o else "" for o in O)))
        return lines, [((o or d)[0] + " (field)", s, (o or d)[1], (o or d)[2]) for s, d, o in zip(F, D, O)], None
    if k < .78:
        u = next(U); L = [one(rng, size) for _ in range(2)]
        lines = ["t%d typedef %s" % (u, TY[size][0]), " t%d %s" % (u, ", ".join(x[0] for x in L))]
        return lines, [(x[0] + " (typedef)", size, x[1], x[2]) for x in L], None
    if k < .84:
        u = next(U); l, v = literal(rng, size)
        return ["m%d macro x" % u, " %s x, -x" % TY[size][0], "endm", " m%d %s" % (u, l)], [(l, size, v, "dec"), ("-" + l, size, v | 1 << 8 * size - 1, "dec")], None
    l, v = literal(rng, 4)
    if v == 0: return [" real4 " + l], [(l, 4, v, "dec")], None
    t, v = sign(rng, l, v, 4)
    if bits == 64 and k < .89:
        l, w = literal(rng, 8)
        if w >> 32 == 0: l, w = "1.5", 0x3ff8 << 48
        t8, w = sign(rng, l, w, 8)
        return [" mov rbx, real8 ptr " + t8], [("mov rbx, real8 ptr " + t8, 8, w, "imm8")], b"\x48\xbb"
    if bits == 32 and k < .89: return [" push " + t], [("push " + t, 4, v, "imm")], b"\x68"
    if k < .95: return [" mov ecx, " + t], [("mov ecx, " + t, 4, v, "imm")], b"\xb9"
    return [" mov %s ptr [%sbx], %s" % (rng.choice(["dword", "real4"]), "er"[bits == 64], t)], [("mov mem, " + t, 4, v, "imm")], b"\xc7\x03"

def check():
    C = vf.Check("C07", "exploration", "one literal (distinct text and format) whose bytes were compared with exact rational arithmetic, or that had to be refused",
                 ["REAL10 may be one unit in the last place off; denormal values are either refused or exact; integer initialisers lie in the signed 64-bit range"])
    exe = vf.build("plain"); N = 1600 if not vf.THOROUGH else 8000
    def job(rng):
        import itertools
        bits = rng.choice([32, 64]); U = itertools.count(); I = [x for x in (item(rng, bits, U) for _ in range(40)) if max(len(l) for l in x[0]) < (450 if "macro" in x[0][0] else 950)]
        src = ".686\n_T segment use32\n" if bits == 32 else ".x64\n_T segment use64\n"
        src += "\n".join("\n".join(x[0]) for x in I) + "\n_T ends\nend\n"; opts = ["-q", "-bin"] + rng.choice([[], ["-Fl"]])
        return src, I, opts, vf.asm(exe, src, opts, "t.o", timeout=60)
    for src, I, opts, r in vf.pmap(job, [random.Random(C.rng.getrandbits(64)) for _ in range(N)]):
        cmd = ["uasm"] + opts + ["-Fo", "t.o", "t.asm"]
        if r.rc != 0:
            e = r.errors(); l = src.split("\n")[e[0][1] - 1] if e else ""
            C.violation("rejected:%s" % (e[0][3] if e else r.rc), "valid literals rejected (status %s): %s <- %s" % (r.rc, r.text()[:200], l[:200]), {"t.asm": src}, cmd); continue
        b = r.files.get("t.o", b""); i = 0; bad = False
        for lines, exp, op in I:
            if op:
                if b[i:i + len(op)] != op: C.violation("opcode:" + op.hex(), "%s: opcode %s, must be %s" % (exp[0][0], b[i:i + 2].hex(), op.hex()), {"t.asm": src}, cmd); bad = True; break
                i += len(op)
            for t, size, v, kind in exp:
                g = int.from_bytes(b[i:i + size], "little"); i += size
                C.case("%d/%s" % (size, t), sample=t); C.count("real%d_%s" % (size, kind))
                tol = 1 if size == 10 and kind == "dec" else 0
                d = abs(((g >> 64) - (v >> 64) << 63) + (g & M63) - (v & M63)) if tol else g ^ v
                if g != v and tol: C.count("real10_one_ulp")
                if d > tol or tol and v << 1 & M80 != 0 and (g ^ v) & 1 << 63 and g >> 63 & 1 == 0 or (g ^ v) >> 8 * size - 1:
                    C.violation("wrong:%d:%s" % (size, kind), "%s gives %0*x, the nearest value is %0*x" % (t[:300], 2 * size, g, 2 * size, v), {"t.asm": src}, cmd); bad = True; break
            if bad: break
        if not bad and i != len(b): C.violation("length", "image of %d bytes, must be %d" % (len(b), i), {"t.asm": src}, cmd)
    # out of range
    def bad(rng):
        bits = rng.choice([32, 64]); L = [".686" if bits == 32 else ".x64", "_T segment use%d" % bits]; want = {}
        for _ in range(30):
            size = rng.choice([4, 4, 8, 10])
            if rng.random() < .4: L.append(" %s %s" % (TY[size][0], literal(rng, size)[0])); continue
            l, v = literal(rng, size, False)
            if v[1] == "ok": L.append(" %s %s" % (TY[size][0], l)); continue
            L.append(rng.choice([" %s %s", " %s -%s"]) % (TY[size][0], l) if size > 4 or rng.random() < .7 else " mov eax, " + l); want[len(L)] = (v, size)
        src = "\n".join(L + ["_T ends", "end"]) + "\n"
        return src, want, vf.asm(exe, src, ["-q", "-bin"], "t.o", timeout=60)
    for src, want, r in vf.pmap(bad, [random.Random(C.rng.getrandbits(64)) for _ in range(N // 4)]):
        cmd = ["uasm", "-q", "-bin", "-Fo", "t.o", "t.asm"]; got = set(e[1] for e in r.errors() if e[2].lower().startswith("error"))
        must = set(l for l, (v, s) in want.items() if v[1] == "over"); T = src.split("\n")
        if must and (r.rc == 0 or "t.o" in r.files): C.violation("accepted-file", "source with out-of-range literals: status %s, object %s" % (r.rc, "t.o" in r.files), {"t.asm": src}, cmd); continue
        for l in want:
            C.case("range:" + T[l - 1], sample=T[l - 1][:80]); C.count("range_" + want[l][0][1])
        for l in sorted(must - got)[:1]: C.violation("accepted", "out of range, no error on its line: " + T[l - 1][:200], {"t.asm": src}, cmd)
        for l in sorted(got - set(want))[:1]: C.violation("refused", "in range, but an error: " + T[l - 1][:200], {"t.asm": src}, cmd)
    # below the normal range: an error or the nearest value, one literal per run
    def tiny(rng):
        while True:
            size = rng.choice([4, 8, 10]); l, v = literal(rng, size, False)
            if v[1] == "denormal": break
        src = ".686\n_T segment use32\n %s %s\n_T ends\nend\n" % (TY[size][0], l)
        return src, l, size, v[0], vf.asm(exe, src, ["-q", "-bin"], "t.o", timeout=60)
    for src, l, size, v, r in vf.pmap(tiny, [random.Random(C.rng.getrandbits(64)) for _ in range(N // 2)]):
        C.case("tiny:%d/%s" % (size, l), sample=l); g = int.from_bytes(r.files.get("t.o", b""), "little")
        C.count("tiny_refused" if r.rc else "tiny_converted")
        if r.rc == 0 and g != v: C.violation("tiny:%d" % size, "%s in REAL%d gives %0*x silently, the nearest value is %0*x" % (l[:200], size, 2 * size, g, 2 * size, v), {"t.asm": src}, ["uasm", "-q", "-bin", "-Fo", "t.o", "t.asm"])
        if r.rc not in (0, 1): C.violation("tiny-status", "status %s for %s" % (r.rc, l[:200]), {"t.asm": src})
    return C.finish(3000)
if __name__ == "__main__": vf.main(check)
