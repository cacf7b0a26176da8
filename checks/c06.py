#!/usr/bin/env python3
"""C06: data definitions emit exactly the declared bytes.  Random definitions
with a byte-level model; the bytes are read back from flat, ELF, COFF and OMF
output; values that do not fit must be rejected on their own line."""
import os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objread
DIRS = {"db": 1, "byte": 1, "sbyte": 1, "dw": 2, "word": 2, "sword": 2, "dd": 4, "dword": 4, "sdword": 4, "df": 6, "fword": 6,
        "dq": 8, "qword": 8, "sqword": 8, "dt": 10, "tbyte": 10, "oword": 16, "mmword": 8, "xmmword": 16, "ymmword": 32, "zmmword": 64}
CH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;!?()[]{}<>+-*/%&$#@_=^~|`\\"

def num(rng, v):
    if v < 0: return "-" + num(rng, -v)
    k = rng.randrange(5)
    if k == 0 or v > 0xffffffffffffffff:
        h = "%x" % v
        if rng.random() < .5: h = h.upper()
        return ("0" + h if not h[0].isdigit() else h) + rng.choice("hH")
    if k == 1: return "%d" % v
    if k == 2 and v < 1 << 32: return "{:b}b".format(v)
    if k == 3: return "%dt" % v
    if k == 4: return "{:o}{}".format(v, rng.choice("oq"))
    return "%d" % v

def value(rng, w, dup):
    """one scalar initialiser: (text, bytes)"""
    n = 8 * w
    hi = min(n, 64)
    k = rng.random()
    if k < .35: v = rng.choice([0, 1, 2, (1 << hi) - 1, (1 << (hi - 1)) - 1, 1 << (hi - 1), -1, -(1 << (hi - 1)), 255, 127, 128 % (1 << hi)])
    else: v = rng.getrandbits(rng.randrange(1, hi + 1))
    if k > .93: v = -(v >> 1)
    if w > 8 and v < 0 and v < -(1 << 63): v = -1
    if w >= 16 and rng.random() < .3: v = rng.getrandbits(rng.randrange(65, 129 if w == 16 else 128)); h = "%x" % v; return ("0" if h[0] > "9" else "") + h + "h", v.to_bytes(w, "little")
    return num(rng, v), (v & ((1 << n) - 1)).to_bytes(w, "little")

def string(rng, w):
    if w == 1:
        l = rng.choice([1, 2, 3, 5, 9, 17, 40, 120, 200]) if rng.random() < .9 else rng.randrange(1, 250)
        q = rng.choice("'\""); s = "".join(rng.choice(CH) for _ in range(l))
        if rng.random() < .15: s = "".join(chr(rng.randrange(0x80, 256)) if rng.random() < .5 else c for c in s)
        if rng.random() < .2: s = s[:l // 2] + rng.choice("'\"") + s[l // 2:]
        return q + s.replace(q, q + q) + q, s.encode("latin1"), len(s)
    l = rng.randrange(1, min(w, 10) + 1)
    s = "".join(rng.choice(CH) for _ in range(l))
    if rng.random() < .2: s = "".join(chr(rng.randrange(0xa0, 256)) if rng.random() < .5 else c for c in s)
    return rng.choice(["'%s'", '"%s"']) % s, s.encode("latin1")[::-1].ljust(w, b"\0"), 1

def items(rng, w, depth, budget):
    """(text, bytes, element count, (first length))"""
    n = rng.choice([1, 1, 2, 3, 4, 6]) if depth else rng.choice([1, 1, 2, 3, 5, 8, 16, 30])
    T = []; B = b""; N = 0; first = None; fsize = None
    for i in range(n):
        k = rng.random()
        if k < .12: t, b, c, f = "?", bytes(w), 1, 1
        elif k < .3: t, b, c = string(rng, w); f = 1
        elif k < .45 and depth < 4 and len(B) < budget:
            r = rng.choice([0, 1, 2, 3, 5, 10]) if depth or rng.random() < .8 else rng.randrange(1, 400)
            it, ib, ic, _ = items(rng, w, depth + 1, budget // 4)
            if r == 0: r = 1
            t = "%s %s (%s)" % (num(rng, r), rng.choice(["dup", "DUP"]), it); b = ib * r; c = ic * r; f = r
        else:
            t, b = value(rng, w, depth); c = 1; f = 1
        if len(", ".join(T)) + len(t) > 380 and T: break
        T.append(t); B += b; N += c
        if i == 0: first = f
    return rng.choice([",", ", ", " , "]).join(T), B, N, first

def module(rng, bits, n):
    L = []; exp = b""; marks = []
    names = []
    for i in range(n):
        d = rng.choice(list(DIRS)); w = DIRS[d]
        t, b, c, f = items(rng, w, 0, 3000)
        if rng.random() < .04:
            r = rng.choice([1000, 1024, 1025, 4096, 20000]) if bits != 16 else rng.choice([100, 1023, 1025]); t, b0 = value(rng, w, 0); t = "%d dup (%s)" % (r, t); b = b0 * r; c = f = r
        if len(t) > 480: continue
        if bits == 16 and len(exp) + len(b) > 45000: continue
        lab = "d%d" % i if rng.random() < .7 else ""
        L.append("%s %s %s" % (lab, d.upper() if rng.random() < .2 else d, t))
        marks.append((len(exp), "%s %s" % (d, t)))
        exp += b
        if lab: names.append((lab, w, len(b), c, f))
    for nm, w, s, c, f in rng.sample(names, min(len(names), 25)):
        vals = [("sizeof", s), ("lengthof", c), ("size", f * w), ("length", f), ("type", w)]
        rng.shuffle(vals)
        L.append(" dd " + ", ".join("%s %s" % (o, nm) for o, v in vals)); marks.append((len(exp), "sizes of " + nm))
        exp += b"".join(struct.pack("<I", v) for o, v in vals)
    return L, exp, marks

def wrap(L, bits, fmt):
    h = {16: ".8086", 32: ".686", 64: ".x64"}[bits]
    return "%s\n_D segment use%d 'DATA'\n%s\n_D ends\nend\n" % (h, bits, "\n".join(L))

def extract(fmt, r):
    if fmt == "bin": return r.files["t.o"]
    if fmt == "omf":
        o = objread.omf(r.files["t.o"]); s = [x for x in o.segs[1:] if x.name == "_D"][0]; return bytes(s.data)
    if fmt.startswith("elf"): return [s for s in objread.elf(r.files["t.o"]).secs if s.name in ("_D", ".data")and s.size][0].data
    if fmt in ("coff", "win64"): return [s for s in objread.coff(r.files["t.o"]).secs if s.name in ("_D", ".data")and s.size][0].data

def check():
    C = vf.Check("C06", "exploration", "a data definition (directive x items, DUP nesting, strings, count) in a module whose complete data segment was compared byte for byte with the model; plus out-of-range definitions whose rejection was observed",
                 ["the 60-line byte model of the data directives"])
    exe = vf.build("plain")
    jobs = []
    for i in range(140 if not vf.THOROUGH else 3000):
        bits, fmt = C.rng.choice([(16, "bin"), (32, "bin"), (64, "bin"), (16, "omf"), (32, "omf"), (32, "elf"), (64, "elf64"), (32, "coff"), (64, "win64")])
        jobs.append((bits, fmt, C.rng.choice([5, 30, 80, 200]), random.Random(C.rng.getrandbits(64))))
    def job(j):
        bits, fmt, n, rng = j
        L, exp, marks = module(rng, bits, n); src = wrap(L, bits, fmt)
        r = vf.asm(exe, src, ("-q", "-" + fmt), "t.o", timeout=60)
        return j, L, exp, marks, src, r
    for (bits, fmt, n, rng), L, exp, marks, src, r in vf.pmap(job, jobs):
        cmd = ["uasm", "-q", "-" + fmt, "-Fo", "t.o", "t.asm"]
        if not exp: continue
        if r.rc != 0 or "t.o" not in r.files:
            C.violation("rejected:%s:%d" % (fmt, bits), "valid data module rejected: " + r.text()[-600:], {"t.asm": src}, cmd); continue
        try: got = extract(fmt, r)
        except (objread.Bad, IndexError, struct.error) as x:
            C.violation("format:" + fmt, "object not readable: %s" % x, {"t.asm": src}, cmd); continue
        if fmt in ("coff", "win64", "elf", "elf64"):   # segment size may be padded to its alignment
            pass
        C.count("bytes_compared", len(got)); C.seen("formats", "%s/%d" % (fmt, bits))
        for o, d in marks: C.case(d, sample=d[:200])
        if got != exp:
            k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            d = [m for m in marks if m[0] <= k][-1]
            C.violation("bytes:%s:%s" % (fmt, d[1].split()[0]), "segment differs at offset %d of %d (expected %d bytes) in `%s`: got %s expected %s" % (k, len(got), len(exp), d[1][:300], got[max(k - 4, d[0]):k + 12].hex(), exp[max(k - 4, d[0]):k + 12].hex()), {"t.asm": src}, cmd)
    # rejection: every definition whose value does not fit is an error on its line
    def rej(rng):
        L = []; bad = set()
        for i in range(60):
            d = rng.choice([x for x in DIRS if DIRS[x] < 10]); w = DIRS[d]; n = 8 * w
            ok, _ = value(rng, w, 0)
            if rng.random() < .4: L.append(" %s %s" % (d, ok)); continue
            if w <= 4: v = rng.choice([1 << n, (1 << n) + 1, -(1 << n) - 1, rng.getrandbits(20) + (1 << n), 1 << (n + 1), 3 << n, -(5 << n)])
            elif w == 6: v = rng.choice([1 << 48, (1 << 48) + 5, 1 << 60])
            else: v = rng.choice([1 << 64, (1 << 64) + 7, 1 << 100])
            t = num(rng, v)
            if abs(v) >= 1 << 64: t = "0%xh" % v
            form = rng.choice(["%s", "1,%s", "3 dup (%s)", "1, 2 dup (3, %s)"]) % t
            if rng.random() < .15: form = "'%s'" % ("x" * (w + 1)) if w > 1 else form
            L.append(" %s %s" % (d, form)); bad.add(len(L))
        src = wrap(L, 64, "bin")
        return L, bad, src, vf.asm(exe, src, ("-q", "-bin", "-e9999"), "t.o")
    for L, bad, src, r in vf.pmap(rej, [random.Random(C.rng.getrandbits(64)) for _ in range(16 if not vf.THOROUGH else 400)]):
        got = {e[1] - 2 for e in r.errors() if e[2] != "Warning"}
        C.count("rejections_checked", len(bad))
        for b in sorted(bad - got): C.violation("accepted:%s" % L[b - 1].split()[0], "out-of-range value accepted: `%s`" % L[b - 1], {"t.asm": src}, ["uasm", "-q", "-bin", "t.asm"])
        for b in sorted(got - bad): C.violation("refused:%s" % (L[b - 1].split()[0] if 0 < b <= len(L) else b), "valid definition refused: `%s`" % (L[b - 1] if 0 < b <= len(L) else r.text()[:300]), {"t.asm": src}, ["uasm", "-q", "-bin", "t.asm"])
        if r.rc == 0 and bad or "t.o" in r.files: C.violation("status", "errors but status %s / object left" % r.rc, {"t.asm": src}, ["uasm", "-q", "-bin", "t.asm"])
        for b in bad: C.case("rej:" + L[b - 1])
    return C.finish(800)
if __name__ == "__main__": vf.main(check)
