#!/usr/bin/env python3
"""C08: structures, unions and records have the documented layout everywhere.
Random type definitions; every offset, size, mask and every byte of random
instances is compared with a layout computed from the documented rules."""
import os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
PRIM = [("byte", 1), ("sbyte", 1), ("db", 1), ("word", 2), ("dw", 2), ("sword", 2), ("dword", 4), ("dd", 4), ("sdword", 4), ("qword", 8), ("dq", 8), ("real4", 4), ("real8", 8), ("oword", 16)]
ODD = [("fword", 6), ("df", 6), ("real10", 10), ("tbyte", 10)]
TNAME = {"db": "byte", "dw": "word", "dd": "dword", "dq": "qword"}

class Ty:
    """prim: size; agg: fields, union flag, align"""
    def __init__(s, **k): s.__dict__.update(k)
class Fld:
    def __init__(s, **k): s.__dict__.update(k)

def layout(t):
    off = 0; mx = 0; end = 0
    for f in t.fields:
        na = f.ty.size if f.ty.prim else f.ty.mx
        if t.align > 1 and na:
            off = -(-off // min(t.align, na)) * min(t.align, na) if not t.union else 0
        if getattr(f, "al", 0): off = -(-off // f.al) * f.al
        if getattr(f, "al", 0) and t.align > 1 and na: off = -(-off // min(t.align, na)) * min(t.align, na)
        f.off = 0 if t.union else off
        sz = f.ty.size * f.n; mx = max(mx, na); off = f.off + sz; end = max(end, off); f.size = sz
    t.mx = mx; s = end
    if t.align > 1: a = min(max(mx, 1), t.align); s = -(-s // a) * a
    t.size = s

def num(rng, v): return rng.choice(["%d" % v, "0%xh" % v, "%d" % v])
def pbytes(ty, v):
    if ty.name == "real4": return struct.pack("<f", v)
    if ty.name == "real10": return {0.0: bytes(10), 1.0: bytes(7) + b"\x80\xff\x3f", 2.5: bytes(7) + b"\xa0\x00\x40", -0.75: bytes(7) + b"\xc0\xfe\xbf", 1024.0: bytes(7) + b"\x80\x09\x40", 3.0: bytes(7) + b"\xc0\x00\x40"}[v]
    if ty.name == "real8": return struct.pack("<d", v)
    return (v & ((1 << 8 * ty.size) - 1)).to_bytes(ty.size, "little")
def rnd_scalar(rng, ty):
    """(text, bytes)"""
    if ty.name in ("real4", "real8", "real10"):
        v = rng.choice([0.0, 1.0, 2.5, -0.75, 1024.0, 3.0]); return "%r" % v, pbytes(ty, v)
    v = rng.choice([0, 1, 5, 100, 127, rng.randrange(1 << (8 * min(ty.size, 4) - 1))])
    if ty.name in ("sbyte", "sword", "sdword") and rng.random() < .4: return "-%d" % (v & 127), pbytes(ty, -(v & 127))
    return num(rng, v), pbytes(ty, v)
def gen_array(rng, f):
    """(text list without delimiters, bytes, how) for an array field of primitives"""
    k = rng.random(); n = f.n
    if f.ty.size == 1 and k < .25 and f.ty.name in ("byte", "db"):
        s = "".join(rng.choice("abcXYZ 09;,<") for _ in range(n if k < .12 else rng.randrange(1, n + 1))).replace("<", "l"); return "'%s'" % s, s.encode(), "str"
    if k < .5:
        t, b = rnd_scalar(rng, f.ty); m = rng.randrange(1, n + 1); return "%d dup (%s)" % (m, t), b * m, "dup"
    m = rng.randrange(1, n + 1); L = [rnd_scalar(rng, f.ty) for _ in range(m)]
    return ", ".join(x for x, _ in L), b"".join(y for _, y in L), "list"

class G:
    def __init__(s, rng): s.alias = []; s.odd = rng.random() < .2; s.bits = rng.choice([32, 32, 64]); s.rng = rng; s.k = 0; s.types = []; s.zp = 1 if s.odd else rng.choice([1, 1, 2, 4, 8]); s.out = []; s.exp = []
    def nm(s, p): s.k += 1; return s.rng.choice(["%s%d", "%s_%d", "x%s%d"]) % (p, s.k)
    def agg(s, depth, outer=None, union=None):
        rng = s.rng; t = Ty(prim=False, union=rng.random() < .25 if union is None else union, fields=[], align=outer.align if outer else 0, L=[])
        if not outer:
            a = rng.choice([None, None, 1, 2, 4, 8, 16, 32] if not s.odd else [None, 1]); t.align = a or s.zp; t.alt = a; t.name = s.nm("S")
        for _ in range(rng.choice([1, 2, 3, 4, 7, 12])):
            k = rng.random(); f = Fld(n=1, anon=False, inline=False, name=s.nm("f") if rng.random() < .93 else None, arr=False)
            if k < .16 and depth and not outer and False: pass
            if k < .16 and depth:
                f.ty = s.agg(depth - 1, t); f.inline = True; f.anon = rng.random() < .5; f.name = None if f.anon else s.nm("n")
                f.text = ""; f.init = f.ty.init
            elif k < .3 and s.types:
                f.ty = rng.choice(s.types[-6:]); 
                if rng.random() < .3: f.n = rng.choice([1, 2, 3]); f.arr = True; f.text = "%d dup (<>)" % f.n
                else: f.text = rng.choice(["<>", "{}"])
                f.init = f.ty.init * f.n; f.name = f.name or s.nm("g")
                if f.ty.size == 0: continue
            else:
                n, z = rng.choice(PRIM + ODD if s.odd else PRIM); f.ty = Ty(prim=True, name=n, size=z)
                if s.alias and rng.random() < .15: al, n, z = rng.choice(s.alias); f.ty = Ty(prim=True, name=n, size=z, alias=al)
                if rng.random() < .3:
                    f.n = rng.choice([2, 3, 5, 8, 17]); f.arr = True; k = rng.random()
                    if k < .3: f.text = "%d dup (?)" % f.n; f.init = bytes(z * f.n); f.str = False
                    elif k < .6: v, b = rnd_scalar(rng, f.ty); f.text = "%d dup (%s)" % (f.n, v); f.init = b * f.n; f.str = False
                    elif k < .7 and n in ("byte", "db"): v = "".join(rng.choice("abcd") for _ in range(f.n)); f.text = "'%s'" % v; f.init = v.encode(); f.str = True
                    else: L = [rnd_scalar(rng, f.ty) for _ in range(f.n)]; f.text = ", ".join(x for x, _ in L); f.init = b"".join(y for _, y in L); f.str = False
                elif rng.random() < .4: f.text = "?"; f.init = bytes(z)
                else: f.text, f.init = rnd_scalar(rng, f.ty)
            if not t.union and rng.random() < .08: f.al = rng.choice([2, 2, 4, 8, 16])
            t.fields.append(f)
        layout(t)
        t.init = s.build(t, [f.init for f in t.fields])
        return t
    @staticmethod
    def build(t, parts):
        b = bytearray(t.size)
        for f, p in list(zip(t.fields, parts))[:1 if t.union else None]: b[f.off:f.off + len(p)] = p
        return bytes(b)
    def define(s, t, o, ind=1):
        rng = s.rng
        for f in t.fields:
            p = rng.choice([" ", "\t", "  "]) * ind
            if getattr(f, "al", 0): o.append(p + (rng.choice(["even", "align 2"]) if f.al == 2 else "align %d" % f.al))
            if f.inline:
                o.append(p + ("union" if f.ty.union else "struct") + ("" if f.anon else " " + f.name)); s.define(f.ty, o, ind + 1); o.append(p + "ends")
            else: o.append("%s%s %s %s" % (p if not f.name else "", f.name or "", getattr(f.ty, "alias", None) or f.ty.name, f.text))
    def literal(s, t, depth=0):
        """a random initialiser of t: (text with delimiters, bytes)"""
        rng = s.rng; parts = [f.init for f in t.fields]; tx = []
        fs = t.fields[:1] if t.union else t.fields; m = rng.choice([0, len(fs), rng.randrange(len(fs) + 1)])
        for i in range(m):
            f = fs[i]
            if rng.random() < .3: tx.append(""); continue
            if not f.ty.prim and not f.arr:
                a, b = s.literal(f.ty, depth + 1); tx.append(a); parts[i] = b
            elif f.arr and not f.ty.prim:
                k = rng.randrange(1, f.n + 1); L = [s.literal(f.ty, depth + 1) for _ in range(k)]
                tx.append(rng.choice(["<%s>", "{%s}"]) % ", ".join(x for x, _ in L)); parts[i] = b"".join(y for _, y in L).ljust(f.size, b"\0")
            elif f.arr:
                a, b, how = gen_array(rng, f)
                if how == "list" or rng.random() < .5: a = rng.choice(["<%s>", "{%s}"]) % a
                tx.append(a); parts[i] = b.ljust(f.size, b" " if f.str and f.ty.size == 1 else b"\0")
            else: a, b = rnd_scalar(rng, f.ty); tx.append(a); parts[i] = b
        while tx and tx[-1] == "": tx.pop()
        d = rng.choice(["<%s>", "{%s}"]); 
        return d % rng.choice([", ", ","]).join(tx), s.build(t, parts)
    def paths(s, t, pre="", off=0):
        """every reachable field: (path, offset, field)"""
        for f in t.fields:
            o = off + f.off
            if f.inline and f.anon: yield from s.paths(f.ty, pre, o)
            else:
                if f.name: yield (pre + f.name, o, f)
                if not f.ty.prim and f.name: yield from s.paths(f.ty, pre + f.name + ".", o)

def dec_lea(b, i):
    """displacement of lea eax,[ebx+disp] / lea eax,[disp]"""
    if b[i] == 0x48: i += 1
    if b[i] != 0x8d: return None, i + 1
    m = b[i + 1]
    if m == 0x43: return struct.unpack_from("<b", b, i + 2)[0], i + 3
    if m == 0x83 or m == 0x05: return struct.unpack_from("<i", b, i + 2)[0], i + 6
    if m == 0x03: return 0, i + 2
    return None, i + 2

def program(rng, size):
    g = G(rng); o = [".686", "option casemap:none"]
    if g.zp > 1: o.append("option fieldalign:%d" % g.zp)
    exp = []      # (kind, description, value)
    body = []
    def put(line, *e): body.append(line); exp.extend(e)
    if g.bits == 64: o[0] = ".x64"
    ebx, eax = ("rbx", "rax") if g.bits == 64 else ("ebx", "eax")
    for _ in range(rng.choice([0, 0, 2, 4])):
        n, z = rng.choice(PRIM[:2] + PRIM[3:4] + PRIM[5:7] + PRIM[8:10] + PRIM[11:]); al = g.nm("T")
        if g.alias and rng.random() < .4: q, n, z = rng.choice(g.alias); o.append("%s typedef %s" % (al, q))
        elif rng.random() < .2: n = "dword" if g.bits == 32 else "qword"; z = 4 if g.bits == 32 else 8; o.append("%s typedef ptr byte" % al)
        else: o.append("%s typedef %s" % (al, n))
        g.alias.append((al, n, z))
    for _ in range(size):
        k = rng.random()
        if k < .45 or not g.types:
            t = g.agg(rng.choice([0, 1, 2, 3]))
            if t.size > 3000 or t.size == 0: continue
            g.types.append(t); kw = "union" if t.union else rng.choice(["struct", "struc", "STRUCT"])
            o.append("%s %s%s" % (t.name, kw, " %s" % t.alt if t.alt else "")); g.define(t, o); o.append("%s ends" % t.name)
            put(" dd sizeof %s, type %s, %s" % (t.name, t.name, "size %s" % t.name), ("d", "sizeof " + t.name, t.size), ("d", "type " + t.name, t.size), ("d", "size " + t.name, t.size))
            P = list(g.paths(t)); rng.shuffle(P)
            for p, off, f in P[:25]:
                put(" dd %s.%s, sizeof %s.%s" % (t.name, p, t.name, p), ("d", "offset %s.%s" % (t.name, p), off), ("d", "sizeof %s.%s" % (t.name, p), f.size))
                put(" dd lengthof %s.%s, type %s.%s" % (t.name, p, t.name, p), ("d", "lengthof %s.%s" % (t.name, p), f.n), ("d", "type %s.%s" % (t.name, p), f.ty.size))
                r = rng.random()
                if r < .5: put((" lea eax,[ebx].%s.%s" % (t.name, p)).replace('ebx', ebx).replace('eax', eax), ("l", "[ebx].%s.%s" % (t.name, p), off))
                elif r < .7: put((" lea eax,[ebx+%s.%s]" % (t.name, p)).replace('ebx', ebx).replace('eax', eax), ("l", "[ebx+%s.%s]" % (t.name, p), off))
                elif r < .85: put((" lea eax,(%s ptr [ebx]).%s" % (t.name, p)).replace('ebx', ebx).replace('eax', eax), ("l", "(%s ptr [ebx]).%s" % (t.name, p), off))
                else: put((" assume ebx:ptr %s" % t.name).replace('ebx', ebx).replace('eax', eax)); put((" lea eax,[ebx].%s" % p).replace('ebx', ebx).replace('eax', eax), ("l", "assumed [ebx].%s of %s" % (p, t.name), off)); put((" assume ebx:nothing").replace('ebx', ebx).replace('eax', eax))
        elif k < .48:      # ORG inside a structure: offsets only, it can't be instanced
            n = g.nm("O"); o.append("%s struct" % n); cur = end = 0; F = []
            for _ in range(rng.choice([2, 4, 7])):
                r = rng.random()
                if r < .3: cur = rng.choice([0, 1, 4, 5, 20, rng.randrange(100)]); o.append(" org %d" % cur); end = max(end, cur)
                elif r < .5: a = rng.choice([2, 4, 8]); cur = -(-cur // a) * a; o.append(" align %d" % a); end = max(end, cur)
                else:
                    q, z = rng.choice([("byte", 1), ("db", 1)]); c = rng.choice([1, 1, 3]); f = g.nm("h"); o.append("%s %s %s" % (f, q, "?" if c == 1 else "%d dup (?)" % c)); F.append((f, cur)); cur += c; end = max(end, cur)
            o.append("%s ends" % n)
            if F: put(" dd " + ", ".join("%s.%s" % (n, f) for f, _ in F), *[("d", "offset %s.%s" % (n, f), c) for f, c in F]); put(" dd sizeof " + n, ("d", "sizeof " + n, end))
            else: put(" dd 0", ("d", "-", 0))
        elif k < .8:
            t = rng.choice(g.types[-8:]); i = g.nm("i"); a, b = g.literal(t)
            if len(a) > 400: continue
            if rng.random() < .25:
                n = rng.choice([1, 2, 4]); a2, b2 = g.literal(t)
                if len(a) + len(a2) > 400: continue
                L = [("%d dup (%s)" % (n, a), b * n, n)] + ([(a2, b2, 1)] if rng.random() < .5 else []); rng.shuffle(L)
                put("%s %s %s" % (i, t.name, ", ".join(x for x, _, _ in L)), ("i", i, b"".join(y for _, y, _ in L))); c = sum(z for _, _, z in L) if len(L) == 1 else None
            else: put("%s %s %s" % (i, t.name, a), ("i", i, b))
            P = list(g.paths(t)); rng.shuffle(P)
            for p, off, f in P[:4] if g.bits == 32 else []: put(" lea eax, %s.%s" % (i, p), ("a", "%s.%s" % (i, p), (i, off)))
            if rng.random() < .5 and g.bits == 32: put(" dd offset %s + %d" % (i, t.size), ("o", "end of " + i, (i, t.size)))
        else:
            # record
            r = g.nm("Rc"); tot = 0; F = []; lim = rng.choice([8, 16, 32] if g.bits == 32 else [8, 16, 32, 64, 64])
            for _ in range(rng.choice([1, 2, 3, 5, 8])):
                w = rng.choice([1, 1, 2, 3, 5, 8, 13, lim])
                if tot + w > lim: continue
                tot += w; d = rng.randrange(1 << w) if rng.random() < .5 else None; F.append([g.nm("b"), w, d])
            if not F: continue
            o.append("%s record %s" % (r, ", ".join("%s:%d%s" % (n, w, "=%d" % d if d is not None else "") for n, w, d in F)))
            z = 1 if tot <= 8 else 2 if tot <= 16 else 4 if tot <= 32 else 8; D = " dd" if z < 8 else " dq"; K = "d" if z < 8 else "q"; sh = tot
            for n, w, d in F:
                sh -= w
                put(D + " %s, mask %s, width %s" % (n, n, n), (K, "shift " + n, sh), (K, "mask " + n, ((1 << w) - 1) << sh), (K, "width " + n, w))
                if z < 8: put(" dd not mask %s" % n, ("d", "not mask " + n, ~(((1 << w) - 1) << sh) & 0xffffffff))
            put(D + " sizeof %s, width %s, mask %s" % (r, r, r), (K, "sizeof " + r, z), (K, "width " + r, tot), (K, "mask " + r, (1 << tot) - 1))
            def rl():
                vs = []; tx = []; m = rng.choice([0, len(F), rng.randrange(len(F) + 1)])
                for i, (n, w, d) in enumerate(F):
                    v = d or 0
                    if i < m and rng.random() < .7: v = rng.randrange(1 << w); tx.append(num(rng, v))
                    elif i < m: tx.append("")
                    vs.append((v, w))
                while tx and not tx[-1]: tx.pop()
                x = 0
                for v, w in vs: x = x << w | v
                return rng.choice(["<%s>", "{%s}"]) % ",".join(tx), x
            a, x = rl(); i = g.nm("i"); put("%s %s %s" % (i, r, a), ("i", i, x.to_bytes(z, "little")))
            a, x = rl(); put(D + " %s %s" % (r, a), (K, "%s %s in an expression" % (r, a), x))
            if rng.random() < .5:
                a, x = rl(); b, y = rl(); put(" %s 2 dup (%s), %s" % (r, a, b), ("i", None, x.to_bytes(z, "little") * 2 + y.to_bytes(z, "little")))
    return o, body, exp

def check():
    C = vf.Check("C08", "exploration", "one offset, size, length, mask or width, one address in code, or one initialised instance compared with the documented layout",
                 ["natural alignment is the size of a scalar and the largest one of an aggregate; types whose size is no power of two are only used with alignment 1"])
    exe = vf.build("plain"); N = 1500 if not vf.THOROUGH else 9000
    def job(rng):
        o, body, exp = program(rng, rng.choice([4, 12, 30])); opts = ["-q", "-bin"] + rng.choice([[], [], ["-Fl"]])
        mixed = o + ["_T segment use%d" % (64 if o[0] == ".x64" else 32)] + body + ["_T ends", "end"]
        src = "\n".join(mixed) + "\n"
        return src, exp, opts, vf.asm(exe, src, opts, "t.o", timeout=60)
    for src, exp, opts, r in vf.pmap(job, [random.Random(C.rng.getrandbits(64)) for _ in range(N)]):
        cmd = ["uasm"] + opts + ["-Fo", "t.o", "t.asm"]
        if r.rc != 0:
            e = r.errors(); l = src.split("\n")[e[0][1] - 1] if e else ""
            C.violation("rejected:%s" % (e[0][3] if e else r.rc), "valid definitions rejected (status %s): %s <- %s" % (r.rc, r.text()[:200], l), {"t.asm": src}, cmd); continue
        b = r.files.get("t.o", b""); i = 0; at = {}; late = []; bad = False
        for kind, d, v in exp:
            C.case(str(d) + "/" + str(v)[:60], sample=d); C.count("kind_" + kind)
            if kind == "d": got = struct.unpack_from("<I", b, i)[0] if i + 4 <= len(b) else None; i += 4; want = v & 0xffffffff
            elif kind == "q": got = struct.unpack_from("<Q", b, i)[0] if i + 8 <= len(b) else None; i += 8; want = v
            elif kind == "l": got, i = dec_lea(b, i) if i + 2 <= len(b) else (None, i); want = v
            elif kind == "a": got, i = dec_lea(b, i) if i + 2 <= len(b) else (None, i); want = at[v[0]] + v[1]
            elif kind == "o": got = struct.unpack_from("<I", b, i)[0] if i + 4 <= len(b) else None; i += 4; want = at[v[0]] + v[1]
            else:
                at[d] = i; got = b[i:i + len(v)]; i += len(v); want = v
            if got != want:
                C.violation("wrong:%s:%s" % (kind, str(d).split(" ")[0] if kind == "d" else ""), "%s is %r, must be %r (image offset %d)" % (d, got, want, i), {"t.asm": src}, cmd); bad = True; break
        if not bad and i != len(b): C.violation("length", "image of %d bytes, must be %d" % (len(b), i), {"t.asm": src}, cmd)
    return C.finish(3000)
if __name__ == "__main__": vf.main(check)
