#!/usr/bin/env python3
"""C25: location counter, alignment and segments behave as declared.  Random
sequences of segment switches (nested, re-opened), ORG, ALIGN/EVEN, labels and
data against a model of every segment's bytes and labels."""
import os, random, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objread, x86
ALIGNS = {"byte": 1, "word": 2, "dword": 4, "para": 16, "page": 256}

class Seg:
    def __init__(s, name, cls, al, bits):
        s.name = name; s.cls = cls; s.al = al; s.bits = bits; s.loc = 0; s.b = {}; s.pads = []; s.labels = []; s.written = False; s.end = 0; s.fix = []; s.n = 0; s.overl = False
    def put(s, data):
        for x in data: s.b[s.loc] = x; s.loc += 1
        if data: s.written = True
        s.end = max(s.end, s.loc)

def program(rng, bits, n, fmt):
    segs = []
    simple = rng.random() < .3 and bits == 32 and fmt != "bin"
    L = []
    if simple:
        L += rng.choice([[".386", ".model flat"], [".686", ".model flat"]])
        A = 4 if L[0] == ".386" else 16
        segs = [Seg("_TEXT", "CODE", A, bits), Seg("_DATA", "DATA", A, bits), Seg("CONST", "CONST", A, bits), Seg("_BSS", "BSS", A, bits)]
        segs[0].open = ".code"; segs[1].open = ".data"; segs[2].open = ".const"; segs[3].open = ".data?"
    else:
        L += [{16: ".8086", 32: ".686", 64: ".x64"}[bits]]
        ns = rng.randrange(1, 5) if fmt != "bin" else 1
        for i in range(ns):
            cls = rng.choice(["CODE", "CODE", "DATA", "CONST"] + ([] if fmt in ("bin", "omf") else ["BSS"]))
            al = rng.choice(list(ALIGNS)) if fmt == "omf" else rng.choice(["byte", "word", "dword", "para", "align(32)", "align(64)", "page"])
            if fmt == "bin": al = "para"
            s = Seg("SG%d" % i, cls, int(al[6:-1]) if al.startswith("align") else ALIGNS[al], bits)
            s.first = "%s segment %s %suse%d '%s'" % (s.name, al, "public " if rng.random() < .5 else "", bits, cls); s.again = "%s segment" % s.name if rng.random() < .7 else s.first
            segs.append(s)
    stack = []; cur = None; nl = 0; wants = []
    def openseg(s):
        if simple: L.append(s.open)
        else: L.append(s.first if s.n == 0 else s.again)
        s.n += 1
    for k in range(n):
        if cur is None or rng.random() < .12:
            if not simple:
                if cur is not None and rng.random() < .6:
                    L.append("%s ends" % cur.name); cur = stack.pop() if stack else None
                    if cur is not None: continue
                cand = [s for s in segs if s is not cur and s not in stack]
                if cand and len(stack) < 4:
                    if cur is not None: stack.append(cur)
                    cur = rng.choice(cand); openseg(cur)
                if cur is None: continue
            else:
                cur = rng.choice(segs); openseg(cur)
        s = cur; code = s.cls == "CODE"
        op = rng.choices(["data", "label", "align", "even", "org", "diff", "here", "insn"], [30, 25, 14, 6, 7, 14, 6, 10])[0]
        if op == "data":
            if s.cls == "BSS":
                c = rng.randrange(1, 60); L.append(" db %d dup (?)" % c); s.put(bytes(c))
            else:
                c = rng.choice([1, 1, 2, 3, 5, 7, 13, 40, rng.randrange(1, 300)]); d = bytes(rng.randrange(1, 256) for _ in range(c)) if c <= 40 else bytes([rng.randrange(1, 256)]) * c
                L.append(" db " + ",".join(map(str, d)) if c <= 40 else " db %d dup (%d)" % (c, d[0])); s.put(d)
        elif op == "insn" and code:
            t, b = rng.choice([("nop", b"\x90"), ("ret", b"\xc3"), ("cld", b"\xfc"), ("mov al,5", b"\xb0\5"), ("int 3", b"\xcc"), ("xor al,al", b"\x32\xc0")])
            if t == "xor al,al": t, b = "mov ah,%d" % 7, b"\xb4\7"
            L.append(" " + t); s.put(b)
        elif op == "label":
            nm = "l%d" % nl; nl += 1
            L.append(nm + (":" if code and rng.random() < .5 else " label byte")); s.labels.append((nm, s.loc))
        elif op in ("align", "even"):
            a = 2 if op == "even" else rng.choice([x for x in (1, 2, 4, 8, 16, 32, 64, 256) if x <= s.al])
            if op == "even" and s.al < 2: continue
            if op == "align" and a == s.al and rng.random() < .3: L.append(" align")
            else: L.append(" even" if op == "even" else " align %d" % a)
            pad = -s.loc % a
            if pad:
                if code and s.written: s.pads.append((s.loc, pad)); s.put(b"\x90" * pad)
                elif s.written: s.put(bytes(pad))
                else: s.loc += pad; s.end = max(s.end, s.loc)
                s.n += 0
        elif op == "org":
            if fmt == "bin" and not any(s.b.values()): continue
            if s.cls == "BSS" and rng.random() < .7: continue
            k2 = rng.random()
            if k2 < .5 or s.loc < 4 or not s.labels: t = s.loc + rng.choice([0, 1, 2, 5, 17, 100]); txt = rng.choice(["%d" % t, "$+%d" % (t - s.loc)])
            elif k2 < .75: nm, o = rng.choice(s.labels); t = max(o + rng.randrange(0, 9), s.loc); txt = "%s+%d" % (nm, t - o)
            else:
                t = rng.randrange(max(0, s.loc - 40), s.loc); s.overl = True
                txt = rng.choice(["%d" % t, "$-%d" % (s.loc - t)])
                # rewriting stops before the location is passed again, or continues beyond it: both legal
            L.append(" org " + txt); s.loc = t; s.end = max(s.end, s.loc); s.written = False
        elif op == "diff" and s.cls != "BSS":
            cand = [x for x in segs if len(x.labels) >= 2]
            if not cand: continue
            x = rng.choice(cand); (a, ao), (b, bo) = rng.choice(x.labels), rng.choice(x.labels)
            w, d = rng.choice([(2, "dw"), (4, "dd")]); c = rng.randrange(-9, 9)
            L.append(" %s %s-%s%+d" % (d, a, b, c)); s.put(struct.pack("<q", ao - bo + c)[:w])
        elif op == "here" and s.cls != "BSS" and s.labels:
            a, ao = rng.choice(s.labels); L.append(" dw $-%s" % a); s.put(struct.pack("<q", s.loc - ao)[:2])
    while cur is not None and not simple:
        L.append("%s ends" % cur.name); cur = stack.pop() if stack else None
    # all distances once more, forward referenced from a first segment would move nothing: check them at the end
    chk = []
    for s in segs:
        if s.labels:
            for nm, o in s.labels: chk.append(("%s-%s" % (nm, s.labels[0][0]), o - s.labels[0][1]))
    L.append("ZZ segment byte use%d 'DATA'" % bits) if not simple else L.append(".data")
    zz = None
    if simple: zz = segs[1]
    else: zz = Seg("ZZ", "DATA", 1, bits); segs.append(zz); zz.n = 1
    if simple: zz.n += 1
    for t, v in chk: L.append(" dd " + t); zz.put(struct.pack("<i", v))
    for s in segs:
        if s.n and s.cls != "BSS" and False: pass
    if not simple: L.append("ZZ ends")
    L.append("end")
    return "\n".join(L) + "\n", segs

def check():
    C = vf.Check("C25", "exploration", "a module of segment switches, ORG, ALIGN/EVEN, labels and data whose every segment was compared with the model (bytes, size, label offsets); distinct by source text; padding in code decoded by objdump",
                 ["the location-counter model in this file; gaps left by ORG are zero bytes"])
    exe = vf.build("plain")
    jobs = []
    for i in range(2500 if not vf.THOROUGH else 20000):
        bits, fmt = C.rng.choice([(16, "omf"), (32, "omf"), (32, "coff"), (64, "win64"), (32, "elf"), (64, "elf64"), (16, "bin"), (32, "bin"), (64, "bin")])
        jobs.append((bits, fmt, C.rng.choice([8, 25, 60, 120]), random.Random(C.rng.getrandbits(64))))
    def job(j):
        bits, fmt, n, rng = j
        src, segs = program(rng, bits, n, fmt)
        return j, src, segs, vf.asm(exe, src, ("-q", "-" + fmt), "t.o", timeout=60)
    pads = []
    for (bits, fmt, n, rng), src, segs, r in vf.pmap(job, jobs):
        cmd = ["uasm", "-q", "-" + fmt, "-Fo", "t.o", "t.asm"]; F = {"t.asm": src}
        if r.rc != 0 or "t.o" not in r.files:
            C.violation("rejected:%s:%s" % (fmt, (r.errors() or [(0, 0, 0, "?")])[0][3]), "valid module rejected: " + r.text()[-500:], F, cmd); continue
        b = r.files["t.o"]
        try:
            if fmt == "omf": got = {s.name: (bytes(s.data), s.length, s.align) for s in objread.omf(b).segs[1:]}
            elif fmt == "bin": got = None
            elif fmt.startswith("elf"):
                got = {s.name: (s.data, s.size, s.align) for s in objread.elf(b).secs}
                for p, q in ((".text", "_TEXT"), (".data", "_DATA"), (".rodata", "CONST"), (".bss", "_BSS")):
                    if p in got: got.setdefault(q, got[p])
            else:
                got = {s.name: (s.data, s.size, s.align) for s in objread.coff(b).secs}
                for p, q in ((".text", "_TEXT"), (".data", "_DATA"), (".rdata", "CONST"), (".bss", "_BSS")):
                    if p in got: got.setdefault(q, got[p])
        except objread.Bad as x:
            C.violation("format:" + fmt, "object not readable: %s" % x, F, cmd); continue
        if fmt == "bin":
            s = segs[0]
            k = len(b) - len(segs[-1].b) if len(segs) > 1 else len(b)
            got = {s.name: (b[:k], k, s.al)}; segs = segs[:1]
        C.case(src, sample=src[:300]); C.seen("formats", "%s/%d" % (fmt, bits))
        for s in segs:
            if not s.n: continue
            if s.end == 0 and s.name not in got: continue
            if s.name not in got: C.violation("segment-missing:" + fmt, "no segment %s" % s.name, F, cmd); continue
            d, size, al = got[s.name]
            exp = bytes(s.b.get(i, 0) for i in range(s.end))
            C.count("labels", len(s.labels)); C.count("paddings", len(s.pads)); C.count("segments")
            if size != s.end and not (fmt == "bin"): C.violation("size:%s:%s" % (fmt, s.cls), "segment %s: size 0x%x, declared 0x%x" % (s.name, size, s.end), F, cmd); continue
            if al < s.al and fmt != "bin": C.violation("align:" + fmt, "segment %s: alignment %d, declared %d" % (s.name, al, s.al), F, cmd)
            if s.cls == "BSS": continue
            dd = bytearray(d)
            ok = True
            for o, p in s.pads:
                q = bytes(dd[o:o + p])
                if s.overl:     # parts of it may have been overwritten after ORG
                    if all(s.b.get(i) == 0x90 for i in range(o, o + p)) and False: pass
                    for i in range(o, o + p):
                        if s.b.get(i) == 0x90 and i < len(dd): dd[i] = 0x90
                    continue
                if len(q) < p: continue
                pads.append((bits, q, src, cmd, s.name, o))
                dd[o:o + abs(p)] = b"\x90" * abs(p)
            if bytes(dd)[:len(exp)] != exp or fmt != "bin" and len(dd) != len(exp):
                i = next((i for i in range(min(len(dd), len(exp))) if dd[i] != exp[i]), min(len(dd), len(exp)))
                C.violation("bytes:%s:%s" % (fmt, s.cls), "segment %s differs from the model at 0x%x (%d bytes, expected %d): got %s expected %s" % (s.name, i, len(dd), len(exp), bytes(dd[max(0, i - 4):i + 12]).hex(), exp[max(0, i - 4):i + 12].hex()), F, cmd)
    # padding in code must be decodable no-ops
    for bits in (16, 32, 64):
        P = sorted({p[1] for p in pads if p[0] == bits})
        for q, t in zip(P, x86.disasm(bits, P, slot=512, full=999)):
            C.seen("padding_forms", "%d:%s" % (bits, q.hex()))
            bad = "!len" in t
            for i in t.split(" !len")[0].split(" ; "):
                i = re.sub(r"^((cs|ds|es|ss|data16|addr32) )+", "", i.strip())
                m = re.match(r"lea (\w+),(?:\w\w:)?\[(\w+)(?:\+[re]iz\*1)?(?:\+0x0)?\]$", i) or re.match(r"mov (\w+),(\w+)$", i) or re.match(r"xchg (\w+),(\w+)$", i)
                if re.match(r"(data16 |cs |addr32 )*nop\b", i): continue
                if m and m[1] == m[2]:
                    if bits == 64 and m[1][0] == "e": bad = True
                    continue
                bad = True
            if bad:
                p = next(p for p in pads if p[0] == bits and p[1] == q)
                C.violation("padding:%d" % bits, "alignment padding %s in code at %s+0x%x is not a sequence of no-ops: %s" % (q.hex(), p[4], p[5], t), {"t.asm": p[2]}, p[3])
    return C.finish(200)
if __name__ == "__main__": vf.main(check)
