#!/usr/bin/env python3
"""C10: conditional assembly selects exactly the right lines and the text
directives and @-functions build exactly the right text.  A reference
evaluator keeps the symbol table of the program (numbers, text macros) and
predicts the bytes; lines of branches not selected are hostile on purpose."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
CH = "abcdefgxyzABCXYZ0123456789_+-*/=.?@$#~|^[]():"
SEP = " ,;"
GARBAGE = [" bogus line !!", " mov eax,", " db 'unbalanced", " db \"x", " undefined_macro <1,2", "x y z", " .else", "%%%", " invoke nothing, 1", " db 256 dup (", "a struct", "b proc", "c ends", " mov [[", " .if eax", "&&&", " elsefi", " end1", " ifx 1", "<<<>", " include nothere.inc",
           " .err <must not be seen>", " .errnz 1", " db 99", " exitm", " goto nowhere", "12345", " ;else", " ; endif", "q segment", "label else", "if_ 1", "endif_: nop", "elseif_2 equ 3"]

class P:
    def __init__(s, rng): s.rng = rng; s.t = {}; s.v = {}; s.L = []; s.b = bytearray(); s.marks = []; s.n = 0; s.used = set(); s.pt = None
    def name(s, p): s.n += 1; return s.rng.choice(["%s_%d", "%sx%d", "_%s%d", "%s@%d"]) % (p, s.n)
    def text(s, hi=10, sep=True, esc=True):
        r = s.rng; n = r.randrange(0, hi) if r.random() > .05 else r.choice([60, 120, 200]); c = CH + (SEP if sep else "") + ("<>!" if esc else "")
        return "".join(r.choice(c) for _ in range(n))
    def lit(s, t): return "<" + "".join("!" + c if c in "<>!" or c in ",;" and s.rng.random() < .2 else c for c in t) + ">"
    def item(s, want=None):
        """a text item: (source, value)"""
        r = s.rng; k = r.random(); ts = [x for x in s.t]
        if k < .45 and ts:
            n = r.choice(ts); return n, s.t[n]
        if k < .58: v, t = s.num(); return ("%" + t if re.fullmatch(r"\w+", t) else "%%(%s)" % t), str(v & 0xffffffff) if v >= 0 or 1 else ""
        t = s.text(); return s.lit(t), t
    def case(s, x): return s.rng.choice([x, x, x.upper(), x.capitalize()])
    def num(s, lo=0, hi=300):
        r = s.rng; k = r.random()
        if k < .3 and s.v: n = r.choice(list(s.v)); return s.v[n], n
        v = r.randrange(lo, hi)
        if k < .5: a = r.randrange(100); return v + a, "%d+%d" % (v, a)
        return v, r.choice(["%d" % v, "0%xh" % v])
    def emit(s, line, data, mark=None):
        s.L.append(line); s.marks.append((len(s.b), line.strip()[:200])); s.b += data
    # text to bytes: only texts without quote characters are used
    def show(s, n):
        t = s.t[n]; r = s.rng
        if not t: s.emit("%s <%s>" % (s.case("ifb"), "") , b""); s.L.pop(); s.marks.pop(); s.L += ["ifb " + n, " db 1", "else", " db 2", "endif"]; s.marks.append((len(s.b), "empty " + n)); s.b += b"\1"; return
        if "!" in t or "<" in t or ">" in t or "&" in t or "%" in t or len(t) > 220 or ";" in t:
            # via its characters
            i = r.randrange(len(t)); k = s.name("k"); s.L.append("%s instr 1,%s,%s" % (k, n, s.lit(t[i]))); k2 = s.name("k"); s.L.append("%s sizestr %s" % (k2, n)); s.emit(" db %s and 255, %s and 255" % (k, k2), bytes([t.index(t[i]) + 1 & 255, len(t) & 255])); return
        q = r.choice("'\""); s.emit("%% db %s&%s&%s" % (q, n, q), t.encode())
    def step(s, depth):
        r = s.rng; k = r.random(); ts = list(s.t)
        if k < .12 or not ts:
            n = s.name("t") if r.random() < .7 or not ts else r.choice(ts)
            its = [s.item() for _ in range(r.choice([1, 1, 2, 3, 6]))]; v = "".join(x[1] for x in its)
            if len(v) > 300: return
            d = r.choice(["catstr", "textequ"]) if n not in s.t or 1 else "textequ"; s.used.add(d)
            s.L.append("%s %s %s" % (n, s.case(d), r.choice([",", ", "]).join(x[0] for x in its))); s.t[n] = v
            if r.random() < .6: s.show(n)
        elif k < .2:
            n = s.name("s"); src, t = s.item()
            if not t: return
            p = r.randrange(1, len(t) + 1); l = r.choice([None, r.randrange(0, len(t) - p + 2)]); s.used.add("substr")
            ps = s.numtext(p); ls = "" if l is None else ", " + s.numtext(l)
            s.L.append("%s %s %s, %s%s" % (n, s.case("substr"), src, ps, ls)); s.t[n] = t[p - 1:] if l is None else t[p - 1:p - 1 + l]; s.show(n)
        elif k < .26:
            n = s.name("z"); src, t = s.item(); s.used.add("sizestr"); s.L.append("%s %s %s" % (n, s.case("sizestr"), src)); s.v[n] = len(t); s.emit(" db %s and 255" % n, bytes([len(t) & 255]))
        elif k < .34:
            n = s.name("i"); src, t = s.item()
            if not t: return
            st = r.choice([None, r.randrange(1, len(t) + 1)]); i = r.randrange(len(t)); sub = t[i:i + r.randrange(1, 4)] if r.random() < .8 else s.text(3, esc=False) or "Q"; s.used.add("instr")
            v = t.find(sub, (st or 1) - 1) + 1; s.L.append("%s %s %s%s, %s" % (n, s.case("instr"), "" if st is None else s.numtext(st) + ", ", src, s.lit(sub))); s.v[n] = v; s.emit(" db %s and 255" % n, bytes([v & 255]))
        elif k < .46:
            # @-functions, in numbers and in text; arguments are macro arguments
            n = r.choice(ts); t = s.t[n]
            if not t or re.search("[<>!,;]", t): return
            f = r.randrange(4)
            if f == 0: s.used.add("@SizeStr"); s.emit(" db %s(%s) and 255" % ("@SizeStr", n if 0 else s.lit(t)), bytes([len(t) & 255]))
            elif f == 1:
                i = r.randrange(len(t)); sub = t[i:i + r.randrange(1, 3)]; st = r.choice(["", "1"]); s.used.add("@InStr"); s.emit(" db %s(%s,%s,%s) and 255" % ("@InStr", st, s.lit(t), s.lit(sub)), bytes([t.find(sub) + 1 & 255]))
            elif f == 2:
                p = r.randrange(1, len(t) + 1); l = r.choice([None, r.randrange(0, len(t) - p + 2)]); m = s.name("f"); s.used.add("@SubStr"); s.L.append("%s textequ %s(%s,%d%s)" % (m, "@SubStr", s.lit(t), p, "" if l is None else ",%d" % l)); s.t[m] = t[p - 1:] if l is None else t[p - 1:p - 1 + l]; s.show(m)
            else:
                m = s.name("f"); a = [s.text(6, False, False) for _ in range(r.randrange(1, 5))]; s.used.add("@CatStr"); s.L.append("%s textequ %s(%s)" % (m, "@CatStr", ",".join(s.lit(x) for x in a))); s.t[m] = "".join(a); s.show(m)
        elif k < .52:
            n = s.name("v") if r.random() < .6 or not s.v else r.choice([x for x in s.v]); 
            if n in s.v and not n.lstrip("_").startswith("v"): return
            v, t = s.num(); s.L.append("%s = %s" % (n, t)); s.v[n] = v; s.emit(" db %s and 255" % n, bytes([v & 255]))
        elif k < .58:
            # text macros are substituted in ordinary lines, and through each other
            a, b = s.name("e"), s.name("e"); x, y = r.randrange(1, 40), r.randrange(1, 6); w = r.choice(["equ", "textequ"]); s.used.add(w); s.L += ["%s %s <%d+%d>" % (a, w, x, y), "%s %s <2*%s>" % (b, w, a)]; s.emit(" db %s, 3*%s, (%s), %sQ" % (a, a, b, a) if 0 else " db %s, 3*%s, %s" % (a, a, b), bytes([x + y, 3 * x + y, 2 * x + y]))
        elif depth > 0: s.cond(depth)
    def numtext(s, v):
        r = s.rng
        if r.random() < .3:
            for n, x in s.v.items():
                if x == v: return n
        return r.choice(["%d" % v, "%d+%d-%d" % (v, 3, 3), "(%d)" % v])
    def condition(s):
        """(suffix, operand text, truth)"""
        r = s.rng; k = r.randrange(10)
        if k < 2: v, t = s.num(); w = r.choice([v, v + 1, max(v - 1, 0)]); op = r.choice(["eq", "ne", "lt", "gt", "le", "ge"]); tr = {"eq": v == w, "ne": v != w, "lt": v < w, "gt": v > w, "le": v <= w, "ge": v >= w}[op]; neg = r.random() < .3; return ("e" if neg else ""), "(%s) %s %d" % (t, s.case(op), w), tr != neg
        if k == 2: v = r.choice([0, 0, 1, 2, 256, 0x100000000, -1]); neg = r.random() < .5; return ("e" if neg else ""), "%d" % v, (v != 0) != neg
        if k < 5:
            neg = r.random() < .5; d = r.random(); 
            if d < .35 and s.v: n = r.choice(list(s.v)); de = True
            elif d < .6 and s.t: n = r.choice(list(s.t)); de = True
            else: n = s.name("undef"); de = False
            return ("ndef" if neg else "def"), n, de != neg
        if k < 7:
            neg = r.random() < .5; t = r.choice(["", "", " ", "   ", "\t", "x", " x", ",", "0"]); src = "<%s>" % t
            if r.random() < .4 and s.t: src = r.choice(list(s.t)); t = s.t[src]
            return ("nb" if neg else "b"), src, (not t.strip()) != neg
        neg = r.random() < .5; ic = r.random() < .4; a, b = s.item(), s.item()
        if r.random() < .6: b = (s.lit(a[1]), a[1]); 
        if r.random() < .4 and a[1]: i = r.randrange(len(a[1])); x = a[1][:i] + a[1][i].swapcase() + a[1][i + 1:]; b = (s.lit(x), x)
        eq = (a[1].upper() == b[1].upper()) if ic else a[1] == b[1]
        return ("dif" if neg else "idn") + ("i" if ic else ""), "%s%s%s" % (a[0], r.choice([",", ", ", " , "]), b[0]), eq != neg
    def cond(s, depth):
        r = s.rng; arms = r.choice([1, 1, 2, 3, 5]); done = False
        for i in range(arms):
            suf, t, tr = s.condition(); s.used.add(("if" if i == 0 else "elseif") + suf)
            s.L.append(r.choice(["", " ", "\t"]) + "%s %s" % (s.case(("if" if i == 0 else "elseif") + suf), t) + r.choice(["", "", " ; comment if else", " "]))
            if tr and not done: done = True; s.block(depth - 1)
            else: s.hostile(depth - 1)
        if r.random() < .6:
            s.L.append(s.case("else"))
            if not done: s.block(depth - 1)
            else: s.hostile(depth - 1)
            s.used.add("else")
        s.L.append(r.choice(["", " "]) + s.case("endif"))
    def block(s, depth):
        k = s.rng.randrange(1, 250); s.emit(" db %d" % k, bytes([k]))
        for _ in range(s.rng.randrange(0, 3)): s.step(depth)
    def hostile(s, depth):
        r = s.rng
        for _ in range(r.randrange(0, 4)):
            if depth > 0 and r.random() < .5:
                s.L.append(r.choice(["if", "ifdef", "ifb", "ifidn", "ife", "ifndef", "ifnb", "ifdifi"]) + r.choice([" undefined_thing", " <", "", " 1 +", " <a>,<b>", " 1"]))
                s.hostile(depth - 1)
                if r.random() < .5: s.L.append(r.choice(["else", "elseif nothing", "elseifdef", "else ; x"])); s.hostile(depth - 1)
                s.L.append("endif")
            else: s.L.append(r.choice(GARBAGE))

def build(rng, n):
    p = P(rng)
    for _ in range(n): p.step(rng.choice([1, 2, 3, 3, 6, 12]))
    return p

def check():
    C = vf.Check("C10", "exploration", "a text directive, @-function, text substitution or conditional branch whose effect on the assembled bytes was compared with the reference evaluator",
                 ["the reference evaluator of texts and conditions in checks/c10.py; %expr yields the unsigned 32-bit decimal (documented MASM behaviour)"])
    exe = vf.build("plain")
    jobs = [(random.Random(C.rng.getrandbits(64)), C.rng.choice([15, 40, 80])) for _ in range(1400 if not vf.THOROUGH else 9000)]
    def job(j):
        rng, n = j; p = build(rng, n); how = rng.choice(["plain", "plain", "macro", "include", "listing"]); L = p.L; extra = {}; opts = ["-q", "-bin"]
        if how == "macro" and not any(x.lstrip().startswith(("exitm", "goto")) for x in L): L = ["all_of_it macro"] + L + ["endm", " all_of_it"]
        elif how == "include": extra["i.inc"] = "\r\n".join(L) + "\r\n"; L = ["include i.inc"]
        elif how == "listing": opts += ["-Fl", "-Sg", "-Sx"]
        src = "\n".join([".386", "option casemap:" + rng.choice(["none", "all"]), "_T segment use32"] + L + ["_T ends", "end"]) + "\n"
        return p, how, src, extra, opts, vf.asm(exe, src, opts, "t.o", extra=extra)
    for p, how, src, extra, opts, r in vf.pmap(job, jobs):
        cmd = ["uasm"] + opts + ["-Fo", "t.o", "t.asm"]; files = dict({"t.asm": src}, **extra); got = r.files.get("t.o", b""); exp = bytes(p.b)
        C.seen("presentation", how); C.count("bytes_compared", len(exp)); C.count("programs")
        for u in p.used: C.seen("constructs", u)
        for o, d in p.marks: C.case(d, sample=d)
        if r.rc != 0:
            t = r.text(); m = re.search(r"A\d{4}", t); C.violation("rejected:%s" % (m.group(0) if m else r.rc), "valid program rejected (status %s): %s" % (r.rc, t[:500]), files, cmd); continue
        if got != exp:
            k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp))); d = [m for m in p.marks if m[0] <= k]; w = d[-1][1] if d else ""
            C.violation("bytes:%s" % re.sub(r"[\w@]*\d+", "", w)[:24], "differs at offset %d of %d/%d: got %r expected %r at `%s`" % (k, len(got), len(exp), got[max(0, k - 4):k + 12], exp[max(0, k - 4):k + 12], w), files, cmd)
    # conditional errors: reported exactly on the lines whose condition holds
    def errs(rng):
        p = P(rng); p.L = []; bad = set()
        for i in range(6): p.step(0)
        for i in range(40):
            k = rng.randrange(6); suf, t, tr = p.condition()
            if suf in ("", "e"): d = ".errnz" if suf == "" else ".erre"; tr = tr
            else: d = ".err" + suf
            p.L.append(" %s %s" % (p.case(d), t)); p.used.add(d)
            if tr: bad.add(len(p.L))
        L = [".386", "option casemap:none", "_T segment use32"]
        src = "\n".join(L + p.L + ["_T ends", "end"]) + "\n"; return p, {b + 3 for b in bad}, src, vf.asm(exe, src, ("-q", "-bin", "-e200"), "t.o")
    for p, bad, src, r in vf.pmap(errs, [random.Random(C.rng.getrandbits(64)) for _ in range(40 if not vf.THOROUGH else 900)]):
        got = {e[1] for e in r.errors() if e[2] != "Warning"}; l = src.split("\n")
        for u in p.used: C.seen("constructs", u)
        for b in bad: C.case("err:" + l[b - 1])
        for b in sorted(bad - got): C.violation("err-missed:" + l[b - 1].split()[0].lower(), "no error from `%s` (line %d)" % (l[b - 1], b), {"t.asm": src}, ["uasm", "-q", "-bin", "-e200", "t.asm"])
        for b in sorted(got - bad): C.violation("err-raised:" + (l[b - 1].split() or ["?"])[0].lower(), "error from `%s` (line %d): %s" % (l[b - 1], b, [e for e in r.errors() if e[1] == b][:1]), {"t.asm": src}, ["uasm", "-q", "-bin", "-e200", "t.asm"])
    return C.finish(2500)
if __name__ == "__main__": vf.main(check)
