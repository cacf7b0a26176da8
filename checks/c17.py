#!/usr/bin/env python3
"""C17: flat, MZ and PE images are laid out and relocated as declared."""
import os, random, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

class Bad(Exception): pass
NM = 10
def need(c, m):
    if not c: raise Bad(m)

# ---------------------------------------------------------------- programs
class Prog:
    """segments of chunks; a chunk is bytes or a reference. Every label and every
    reference follows NM random bytes that occur once, by which the loader finds it"""
    def __init__(s, rng): s.rng = rng; s.src = []; s.segs = {}; s.order = []; s.labels = {}; s.refs = []; s.cur = None; s.bss = {}
    def marker(s): return bytes([s.rng.randrange(256) for _ in range(NM)])
    def put(s, b):
        s.segs[s.cur]["chunks"].append(b); s.segs[s.cur]["size"] += len(b)
    def db(s, b): s.src.append(" db " + ",".join(str(x) for x in b)); s.put(b)
    def label(s, n, kind="byte"):
        m = s.marker(); s.src.append("%s label %s" % (n, kind)); s.labels[n] = (s.cur, s.segs[s.cur]["size"], m); s.db(m)
    def ref(s, text, pre, size, suf, kind, name, add=0):
        """a line `text` emitting pre + size reference bytes + suf"""
        m = s.marker(); s.db(m); s.src.append(text); s.refs.append((m, pre, size, suf, kind, name, add, s.cur, s.segs[s.cur]["size"] + len(pre)))
        s.segs[s.cur]["chunks"] += [pre, size, suf]; s.segs[s.cur]["size"] += len(pre) + size + len(suf)
    def fill(s):
        k = s.rng.choice([0, 1, 2, 3, 5, 15, 16, 40, 255])
        if s.rng.random() < .08: k = s.rng.choice([511, 512, 4095, 4096, 5000])
        if k > 64: v = s.rng.randrange(1, 256); s.src.append(" db %d dup (%d)" % (k, v)); s.put(bytes([v]) * k)
        elif k: s.db(bytes(s.rng.randrange(256) for _ in range(k)))

def wordfmt(size): return {1: "B", 2: "H", 4: "I", 8: "Q"}[size]

# ---------------------------------------------------------------- PE
def pe_program(rng):
    P = Prog(rng); w = rng.choice([32, 64]); P.bits = w; src = P.src
    if w == 64: src.append(".x64")
    else: src.append(".686")
    src.append(".model flat, %s" % ("fastcall" if w == 64 else rng.choice(["stdcall", "c"]))); src.append("option casemap:none")
    lang = src[1].split()[-1]; P.deco = lambda n: {"stdcall": "_%s@0", "c": "_%s", "fastcall": "%s"}[lang] % n
    P.reloc = rng.random() < .7
    P.imports = {}; protos = []; P.frames = []; P.framelen = {}; P.special = {}
    for d in rng.sample(["kernel32.dll", "msvcrt", "user32.dll", "a"], rng.choice([0, 0, 1, 2, 3])):
        src.append("option dllimport:<%s>" % d)
        for i in range(rng.choice([1, 2, 5])):
            n = "imp_%s_%d" % (re.sub(r"\W", "", d), i); src.append("%s proto %s" % (n, "c" if w == 32 else "")); protos.append((d, n))
    if protos: src.append("option dllimport:none")
    if P.reloc: src.append("@pe_file_flags = @pe_file_flags and not 1")
    P.dll = rng.random() < .3
    if P.dll: src.append("@pe_file_flags = @pe_file_flags or 2000h")
    kinds = {"code": "'CODE'", "data": "'DATA'", "const": "'CONST'", "bss": "'BSS'"}
    segs = [(".code", "code", 0)]
    if rng.random() < .8: segs.append((".data", "data", 0))
    if rng.random() < .4: segs.append((".const", "const", 0))
    if rng.random() < .4: segs.append((".data?", "bss", 0))
    for i in range(rng.choice([0, 1, 2, 4])):
        k = rng.choice(list(kinds)); segs.append(("SG%d" % i, k, rng.choice([1, 2, 4, 16, 32, 64, 256, 512, 4096])))
    P.std = {s for s, k, a in segs if s[0] == "."}; rng.shuffle(segs)
    names = ["x%d" % i for i in range(rng.choice([4, 10, 25]))]
    plan = [rng.choice(segs) for _ in range(rng.choice([3, 6, 12]))] + [s for s in segs if s[0] == ".code"]
    used = {}; decl = []; P.exports = []; entry = None
    # labels are spread over the visits, references may go forward
    where = {n: rng.randrange(len(plan)) for n in names}
    kindof = {n: plan[v][1] for n, v in where.items()}
    for v, (sn, k, al) in enumerate(plan):
        if sn[0] == ".": src.append(sn)
        else: src.append("%s segment%s %s" % (sn, "" if sn in P.segs else " align(%d) public%s" % (al, rng.choice([" FLAT", " FLAT", ""])), kinds[k]) if sn not in P.segs else "%s segment" % sn)
        if sn not in P.segs: P.segs[sn] = {"chunks": [], "size": 0, "kind": k, "align": al or 4, "own": sn[0] != "."}; P.order.append(sn)
        P.cur = sn; mine = [n for n in names if where[n] == v]
        if k == "bss":
            for n in mine:
                z = rng.choice([1, 4, 16, 5000]); src.append("%s db %d dup (?)" % (n, z)); P.bss[n] = (sn, P.segs[sn]["size"], z); P.segs[sn]["size"] += z
            if not mine: src.append(" db 8 dup (?)"); P.segs[sn]["size"] += 8
        else:
            if P.segs[sn]["size"] == 0: P.label("first_%d" % v)
            todo = [("l", n) for n in mine] + [("r", 0)] * rng.choice([0, 2, 6]) + [("f", 0)] * rng.choice([0, 1, 2]); rng.shuffle(todo)
            if k == "code" and entry is None: todo.insert(0, ("l", "start_")); entry = "start_"
            for t, n in todo:
                if t == "f": P.fill()
                elif t == "l":
                    if k == "code" and n[0] == "x" and w == 64 and sn == ".code" and rng.random() < .15:
                        src.append("%s proc frame\n.endprolog" % n); P.frames.append(n); m = P.marker(); P.labels[n] = (sn, P.segs[sn]["size"], m); P.db(m); src.append("%s endp" % n); P.framelen[n] = NM
                    elif k == "code" and n[0] == "x" and rng.random() < .3:
                        src.append("%s proc%s" % (n, " export" if rng.random() < .5 else ""))
                        if src[-1].endswith("export"): P.exports.append(n)
                        m = P.marker(); P.labels[n] = (sn, P.segs[sn]["size"], m); P.db(m); src.append("%s endp" % n)
                    else: P.label(n, "near" if k == "code" else "byte")
                else:
                    n = rng.choice(names); a = rng.choice([0, 0, 0, 1, 8, -4]); x = n + ("%+d" % a if a else "")
                    q = rng.random()
                    if q < .35: P.ref(" dd offset " + x if w == 32 else " dq offset " + x, b"", w // 8, b"", "abs", n, a)
                    elif q < .5: P.ref(" dd imagerel " + x, b"", 4, b"", "rva", n, a)
                    elif q < .55 and w == 32: P.ref(" dd offset " + x, b"", 4, b"", "abs", n, a)
                    elif k == "code" and kindof[n] == "code" and q < .75: P.ref(" call " + n, b"\xe8", 4, b"", "rel", n, 0)
                    elif k == "code" and w == 64 and kindof[n] != "code" and rng.random() < .4:
                        if rng.random() < .5: P.ref(" cmp byte ptr %s, 12h" % n, b"\x80\x3d", 4, b"\x12", "rel", n, -1)
                        else: P.ref(" mov dword ptr %s, 12345678h" % n, b"\xc7\x05", 4, b"\x78\x56\x34\x12", "rel", n, -4)
                    elif k == "code" and w == 64: P.ref(" lea rax, " + n, b"\x48\x8d\x05", 4, b"", "rel", n, 0)
                    elif k == "code": P.ref(" mov eax, offset " + x, b"\xb8", 4, b"", "abs", n, a)
                    else: P.ref(" dd imagerel " + n, b"", 4, b"", "rva", n, 0)
        if sn[0] != ".": src.append("%s ends" % sn)
    for n, d in ((".tls", 9), (".rsrc", 2)):
        if rng.random() < .12:
            src.append("option dotname\n%s segment align(4) public FLAT%s" % (n, " 'DATA'" if d == 9 else "")); P.segs[n] = {"chunks": [], "size": 0, "kind": "data" if d == 9 else "rsrc", "align": 4, "own": True}; P.order.append(n); P.cur = n
            P.label("in_" + n[1:]); P.fill(); src.append("%s ends" % n); P.special[n] = d
    # imports are called in a procedure of their own at the end of .code
    if protos:
        src.append(".code"); P.cur = ".code"; P.label("calls_", "near")
        use = rng.sample(protos, rng.randrange(1, len(protos) + 1)); P.imports = {}
        for d, n in use: P.imports.setdefault(d, []).append(n)
        P.tail = use
        for d, n in use: src.append(" invoke " + n)
    else: P.tail = []; P.imports = {}
    src.append("end start_")
    return P

def pe_load(b):
    need(b[:2] == b"MZ" and len(b) > 0x40, "no MZ header"); o = struct.unpack_from("<I", b, 0x3c)[0]
    need(b[o:o + 4] == b"PE\0\0", "no PE header at 0x%x" % o)
    mach, ns, ts, sp, nsy, osz, ch = struct.unpack_from("<HHIIIHH", b, o + 4); h = o + 24; magic = struct.unpack_from("<H", b, h)[0]
    need((mach, magic) in ((0x14c, 0x10b), (0x8664, 0x20b)), "machine %x, magic %x" % (mach, magic)); w = 32 if magic == 0x10b else 64
    I = type("I", (), {})(); I.bits = w; I.ch = ch
    I.szcode, I.szinit, I.szuninit, I.entry, I.bcode = struct.unpack_from("<5I", b, h + 4)
    I.base = struct.unpack_from("<I", b, h + 28)[0] if w == 32 else struct.unpack_from("<Q", b, h + 24)[0]
    I.salign, I.falign = struct.unpack_from("<II", b, h + 32); I.szimg, I.szhdr = struct.unpack_from("<II", b, h + 56)
    d = h + (96 if w == 32 else 112); n = struct.unpack_from("<I", b, d - 4)[0]; need(osz == d - h + 8 * n, "SizeOfOptionalHeader %d" % osz)
    I.dir = [struct.unpack_from("<II", b, d + 8 * i) for i in range(n)]; I.secs = []; mem = bytearray(I.szimg); need(I.szimg < 1 << 24, "SizeOfImage 0x%x" % I.szimg)
    need(I.szhdr % I.falign == 0 and h + osz + 40 * ns <= I.szhdr <= len(b), "SizeOfHeaders 0x%x" % I.szhdr); mem[:I.szhdr] = b[:I.szhdr]
    end = (I.szhdr + I.salign - 1) // I.salign * I.salign; rawend = I.szhdr
    for i in range(ns):
        nm, vs, va, rs, rp, rl, ln, nr, nl, c = struct.unpack_from("<8s6IHHI", b, h + osz + 40 * i); nm = nm.rstrip(b"\0").decode("latin1")
        need(va == end, "section %s at 0x%x, the previous one ends at 0x%x" % (nm, va, end)); need(vs > 0, "section %s is empty" % nm)
        end = va + (vs + I.salign - 1) // I.salign * I.salign
        if rs:
            need(rp % I.falign == 0 and rs % I.falign == 0 and rp >= rawend, "section %s: raw data 0x%x, size 0x%x" % (nm, rp, rs)); need(rp + rs <= len(b), "section %s: raw data 0x%x+0x%x runs past the end of the file (0x%x)" % (nm, rp, rs, len(b)))
            rawend = rp + rs; need(end <= I.szimg, "section %s past SizeOfImage" % nm)
            d = b[rp:rp + rs][:end - va]; mem[va:va + len(d)] = d
        I.secs.append((nm, va, vs, rp, rs, c))
    need(end == I.szimg, "SizeOfImage 0x%x, the last section ends at 0x%x" % (I.szimg, end))
    need(rawend == len(b), "file has 0x%x bytes, the sections end at 0x%x" % (len(b), rawend))
    I.mem = mem; return I

def cstr(m, o): return bytes(m[o:m.index(0, o)]).decode("latin1")

def find(mem, m, what):
    i = mem.find(m); need(i >= 0, "%s is not in the loaded image" % what); need(mem.find(m, i + 1) < 0, "%s is twice in the image" % what); return i

def place(P, mem, addr):
    """address of every segment, label and reference; compares the segment's bytes"""
    at = {}; segat = {}
    for n, (sg, off, m) in P.labels.items():
        at[n] = find(mem, m, "label %s" % n); b = at[n] - off; need(segat.setdefault(sg, b) == b, "label %s is at +0x%x of segment %s, declared at +0x%x" % (n, at[n] - segat[sg], sg, off))
    for sg, b in segat.items():
        q = b
        for c in P.segs[sg]["chunks"]:
            if isinstance(c, int): q += c
            else: need(bytes(mem[q:q + len(c)]) == c, "segment %s, offset 0x%x: bytes %s, declared %s" % (sg, q - b, bytes(mem[q:q + min(len(c), 16)]).hex(), c[:16].hex())); q += len(c)
    R = []
    for m, pre, size, suf, kind, name, add, sg, off in P.refs:
        a = find(mem, m, "reference to " + name) + NM + len(pre); R.append((a, struct.unpack_from("<" + wordfmt(size), mem, a)[0], size, kind, name, add, sg))
    return at, segat, R

def pe_check(P, b, C, base):
    I = pe_load(b); need(I.bits == P.bits, "format"); mem = I.mem
    # base relocations
    rel = set(); va, sz = I.dir[5]
    if P.reloc:
        need(not I.ch & 1, "file flags: relocations are marked as stripped"); q = va
        while q < va + sz:
            pg, bs = struct.unpack_from("<II", mem, q); need(q % 4 == 0 and bs >= 8 and q + bs <= va + sz, "relocation block at 0x%x: size %d" % (q, bs))
            for k in range((bs - 8) // 2):
                e = struct.unpack_from("<H", mem, q + 8 + 2 * k)[0]
                if e >> 12: need((e >> 12, I.bits) in ((3, 32), (10, 64)) , "relocation type %d" % (e >> 12)); need(pg + (e & 0xfff) not in rel, "address 0x%x is relocated twice" % (pg + (e & 0xfff))); rel.add(pg + (e & 0xfff))
            q += bs
    else: need(I.ch & 1 and not sz, "relocations are stripped, flags 0x%x" % I.ch)
    need(bool(I.ch & 0x2000) == P.dll and I.ch & 2, "file flags 0x%x" % I.ch)
    at, segat, R = place(P, mem, 0)
    for a, v, size, kind, name, add, sg in R:
        C.case(("pe", P.bits, kind, size, P.segs[sg]["kind"], name in P.bss, add != 0), sample="PE%d %s %s%+d" % (P.bits, kind, name, add)); C.count("references")
        t = v - I.base if kind == "abs" else v if kind == "rva" else (a + 4 + v) & 0xffffffff; t = (t - add) & 0xffffffff
        if name in P.bss:
            s, o, z = P.bss[name]; need(segat.setdefault(s, t - o) == t - o, "%s of segment %s has two addresses: 0x%x and 0x%x" % (name, s, t, segat[s] + o))
        else: need(t == at[name], "%s reference at 0x%x to %s%+d: 0x%x, the label is at 0x%x" % (kind, a, name, add, v, at[name]))
        if kind == "abs" and P.reloc: need(a in rel, "absolute reference at 0x%x to %s has no base relocation" % (a, name)); rel.discard(a); C.count("relocated")
    # sections
    def sec(a):
        for s in I.secs:
            if s[1] <= a < s[1] + s[2]: return s
        raise Bad("address 0x%x is in no section" % a)
    spans = []
    for s, o in segat.items():
        g = P.segs[s]; need(o % g["align"] == 0, "segment %s is at 0x%x, declared align(%d)" % (s, o, g["align"])); x = sec(o); need(o + g["size"] <= x[1] + x[2], "segment %s runs past section %s" % (s, x[0])); spans.append((o, o + g["size"], s))
        W = {"code": 0x60000020, "data": 0xC0000040, "const": 0x40000040, "bss": 0xC0000080, "rsrc": 0xC0000040}[g["kind"]]; need(x[5] & 0xE00000E0 == W, "segment %s (%s) is in section %s with flags 0x%x" % (s, g["kind"], x[0], x[5]))
        need((x[4] == 0) == (g["kind"] == "bss"), "section %s of segment %s: raw size 0x%x" % (x[0], s, x[4])); C.count("segments")
    spans.sort()
    for x, y in zip(spans, spans[1:]): need(x[1] <= y[0], "segments %s and %s overlap" % (x[2], y[2]))
    # within a section segments are ordered by name
    real = {".code": "_text", ".data": "_data", ".const": "const", ".data?": "_bss"}
    for k in ("code", "data", "const", "bss"):
        o = [segat[s] for s in sorted(P.order, key=lambda s: real.get(s, s.lower())) if P.segs[s]["kind"] == k and s in segat and P.segs[s]["size"]]; need(o == sorted(o), "%s segments are not in order of their names" % k)
    need(I.entry == at["start_"], "entry point 0x%x, start label at 0x%x" % (I.entry, at["start_"]))
    cs = [x for x in I.secs if x[5] & 0x20]; need(I.bcode == cs[0][1] and I.szcode == sum(x[4] for x in cs), "BaseOfCode 0x%x, SizeOfCode 0x%x" % (I.bcode, I.szcode))
    for n, d in ((".tls", 9), (".rsrc", 2)): need(I.dir[d] == ((segat[n], P.segs[n]["size"]) if n in P.special else (0, 0)), "directory entry %d (0x%x, 0x%x), segment %s" % (d, *I.dir[d], n)); C.count("directories")
    if P.frames:
        va, sz = I.dir[3]; need(sz == 12 * len(P.frames), "exception directory has 0x%x bytes for %d procedures" % (sz, len(P.frames))); C.count("frames", len(P.frames))
        got = [struct.unpack_from("<3I", mem, va + 12 * i) for i in range(len(P.frames))]
        need(sorted(x[:2] for x in got) == sorted((at[n], at[n] + P.framelen[n]) for n in P.frames), "exception directory lists %s, procedures %s" % (got, [at[n] for n in P.frames]))
        for x in got: need(mem[x[2]] & 7 == 1 and x[2] % 4 == 0, "unwind data at 0x%x" % x[2])
    else: need(I.dir[3] == (0, 0), "exception directory without procedures")
    # imports
    va, sz = I.dir[1]; iv, isz = I.dir[12]; got = {}; slot = {}
    if P.imports:
        q = va; W = I.bits // 8; f = "<" + wordfmt(W)
        while 1:
            need(q + 20 <= va + sz, "import directory has no end"); ilt, t, fc, nm, iat = struct.unpack_from("<5I", mem, q); q += 20
            if not (ilt or nm or iat): break
            d = cstr(mem, nm); need(d not in got, "DLL %s twice" % d); got[d] = []; k = 0
            while 1:
                x, y = struct.unpack_from(f, mem, ilt + k)[0], struct.unpack_from(f, mem, iat + k)[0]; need(x == y, "%s: lookup and address tables differ" % d)
                need(iv <= iat + k < iv + isz, "address table of %s outside the directory entry" % d)
                if not x: break
                need(x % 2 == 0, "hint/name entry of %s at the odd address 0x%x" % (d, x)); n = cstr(mem, x + 2); got[d].append(n); slot[iat + k] = n; k += W
        need(q == va + sz, "size of the import directory")
        need({d: sorted(n) for d, n in got.items()} == {d: sorted(("_" + n if P.bits == 32 else n) if 0 else n for n in x) for d, x in P.imports.items()}, "imports %s, declared %s" % (got, P.imports))
        m = P.labels["calls_"]; q = at["calls_"] + NM; calls = []
        for d, n in P.tail:
            i = mem.find(b"\xff\x15", q); need(0 <= i < q + 64, "no call of %s" % n); v = struct.unpack_from("<I", mem, i + 2)[0]
            a = v - I.base if I.bits == 32 else (i + 6 + v) & 0xffffffff
            need(slot.get(a) == n, "call of %s at 0x%x goes through 0x%x (%s)" % (n, i, a, slot.get(a))); q = i + 6; C.count("import_calls")
            if I.bits == 32 and P.reloc: need(i + 2 in rel, "call of import %s has no base relocation" % n); rel.discard(i + 2)
    else: need(not sz and not isz, "import directory without imports")
    # exports
    va, sz = I.dir[0]
    if P.exports:
        x = struct.unpack_from("<2I2H7I", mem, va); nf, nn, fa, na, oa = x[6], x[7], x[8], x[9], x[10]; ex = {}; last = ""; ends = [va + 40, fa + 4 * nf, na + 4 * nn, oa + 2 * nn, x[4] + len(cstr(mem, x[4])) + 1]
        need(cstr(mem, x[4]) == "t.exe", "name of the image in the export directory: %s" % cstr(mem, x[4]))
        for k in range(nn):
            no = struct.unpack_from("<I", mem, na + 4 * k)[0]; n = cstr(mem, no); ends.append(no + len(n) + 1); o = struct.unpack_from("<H", mem, oa + 2 * k)[0]; need(o < nf, "ordinal %d" % o); need(n > last, "export names %s and %s are not in order" % (last, n)); last = n; ex[n] = struct.unpack_from("<I", mem, fa + 4 * o)[0]
        need(ex == {P.deco(n): at[n] for n in P.exports}, "exports %s" % ex); C.count("exports", nn); need(min(fa, na, oa) >= va + 40 and max(ends) == va + sz, "export directory 0x%x has 0x%x bytes, its tables end at 0x%x" % (va, sz, max(ends)))
    else: need(not sz, "export directory without exports")
    need(not rel, "base relocation of 0x%x, where no address is" % min(rel or [0]))


# ---------------------------------------------------------------- MZ and flat images
def mz_program(rng, fmt):
    P = Prog(rng); P.bits = rng.choice([16, 16, 32]) if fmt == "mz" else rng.choice([16, 32, 64]); src = P.src; P.fmt = fmt
    src.append({16: ".286", 32: ".386", 64: ".x64"}[P.bits]); src.append("option casemap:none")
    P.flat = fmt == "bin" and P.bits > 16
    if P.flat: src.append(".model flat" if P.bits == 32 else ".model flat, fastcall")
    P.opt = None
    if fmt == "mz" and rng.random() < .4: P.opt = (rng.choice([0x1e, 0x20, 0x40, 0x7c]), rng.choice([16, 32, 512]), rng.choice([0, 5, 0x300]), rng.choice([0x10, 0xffff])); src.append("option mz:%d:%d:%d:%d" % P.opt)
    P.seq = rng.choice(["", "", ".dosseg", ".alpha"]) if not P.flat else ""
    if P.seq: src.append(P.seq)
    P.org = rng.choice([0, 0, 0x100, 0x7c00]) if fmt == "bin" and P.seq != ".alpha" else 0
    ns = rng.choice([1, 2, 3, 5]) if fmt == "mz" else rng.choice([1, 1, 2, 4]); segs = []
    for i in range(ns):
        k = "code" if i == 0 else rng.choice(["code", "data", "data", "bss"])
        segs.append(("%s%d" % (rng.choice(["SG", "AA", "ZZ"]), i), k, rng.choice(["byte", "word", "dword", "para", "page"]) if P.bits < 64 else rng.choice(["word", "para", "align(32)"])))
    uses = "flat " if P.flat else {16: "use16 ", 32: "use32 "}[P.bits]
    # groups of data segments or of code segments
    P.group = {}
    if not P.flat:
        if fmt == "bin" and rng.random() < .6: P.group = {n: "GA" for n, k, a in segs}
        elif rng.random() < .6:
            d = [n for n, k, a in segs if k != "code"]; P.group = {n: "GA" for n in d}
            if rng.random() < .5: P.group.update({n: "GB" for n, k, a in segs if k == "code"})
    P.abs = None
    if not P.flat and rng.random() < .4:
        P.abs = (rng.choice([0x40, 0xb800, 0xf000]), rng.choice([0, 0x17, 0x1234])); src += ["zABS segment at 0%xh" % P.abs[0], " org %d" % P.abs[1], "zk label %s" % rng.choice(["byte", "word"]), "zABS ends"]
    names = ["x%d" % i for i in range(rng.choice([3, 8, 20]))]; plan = list(segs) + [rng.choice(segs) for _ in range(rng.choice([0, 2, 5]))]
    where = {n: rng.randrange(len(plan)) for n in names}; kindof = {n: plan[v][1] for n, v in where.items()}; segof = {n: plan[v][0] for n, v in where.items()}
    P.align = {"byte": 1, "word": 2, "dword": 4, "para": 16, "page": 256, "align(32)": 32}
    if P.group and rng.random() < .5:
        # groups declared before the segments' contents
        for n, k, a in segs: src += ["%s segment %s %spublic '%s'" % (n, a, uses, {"code": "CODE", "data": "DATA", "bss": "BSS"}[k]), "%s ends" % n]
        for g in sorted(set(P.group.values())): src.append("%s group %s" % (g, ", ".join(n for n, k, a in segs if P.group.get(n) == g)))
        opened = {n for n, k, a in segs}; late = []
    else: opened = set(); late = ["%s group %s" % (g, ", ".join(n for n, k, a in segs if P.group.get(n) == g)) for g in sorted(set(P.group.values()))]
    for v, (sn, k, al) in enumerate(plan):
        src.append("%s segment" % sn if sn in opened else "%s segment %s %spublic '%s'" % (sn, al, uses, {"code": "CODE", "data": "DATA", "bss": "BSS"}[k])); opened.add(sn)
        if sn not in P.segs:
            P.segs[sn] = {"chunks": [], "size": 0, "kind": k, "align": P.align[al], "own": True}; P.order.append(sn)
            if len(P.order) == 1 and P.org: src.append(" org %d" % P.org)
            elif (fmt == "mz" or len(P.order) > 1 and sn in P.group and P.seq != ".alpha") and k != "bss" and rng.random() < .3:
                o = rng.choice([1, 16, 0x123]); src.append(" org %d" % o); P.cur = sn; P.put(bytes(o))      # the gap of a later segment is in the image
        if k == "code" and not P.flat: src.append(" assume cs:%s" % P.group.get(sn, sn))
        P.cur = sn; mine = [n for n in names if where[n] == v]
        if k == "bss":
            for n in mine:
                z = rng.choice([1, 4, 16, 300]); src.append("%s db %d dup (?)" % (n, z)); P.bss[n] = (sn, P.segs[sn]["size"], z); P.segs[sn]["size"] += z
            if not mine: src.append(" db 8 dup (?)"); P.segs[sn]["size"] += 8
        else:
            todo = [("l", n) for n in mine] + [("r", 0)] * rng.choice([0, 2, 6]) + [("f", 0)] * rng.choice([0, 1, 2]); rng.shuffle(todo)
            if v == 0: todo.insert(0 if fmt == "bin" else rng.randrange(len(todo) + 1), ("l", "start_"))
            elif not mine and not P.segs[sn]["chunks"] or len(P.segs[sn]["chunks"]) == 1: todo.insert(0, ("l", "first_%d" % v))
            for t, n in todo:
                if t == "f": P.fill()
                elif t == "l": P.label(n, "near" if k == "code" else "byte")
                else:
                    if P.abs and rng.random() < .25:
                        f, o = P.abs; t, z, v = rng.choice([(" dw zABS", 2, f), (" dw seg zk", 2, f), (" dw offset zk", 2, o)] + ([(" dd far ptr zk", 4, f << 16 | o), (" dd zk", 4, f << 16 | o)] if P.bits == 16 else []) + ([(" mov ax, seg zk", 2, f)] if k == "code" else []))
                        P.ref(t, (b"" if P.bits == 16 else b"\x66") + b"\xb8" if "mov" in t else b"", z, b"", "fix", "zk", v); continue
                    n = rng.choice(names); a = rng.choice([0, 0, 0, 1, 8]); x = n + ("+%d" % a if a else ""); g = P.group.get(segof[n]); q = rng.random(); osz = {16: 2, 32: 4, 64: 8}[P.bits]; D = {2: "w", 4: "d", 8: "q"}[osz]
                    if fmt == "mz":
                        W = 2 if P.bits == 16 else 4
                        if q < .2: P.ref(" d%s %s%s" % ({2: "d", 4: "f"}[W], "far ptr " if kindof[n] == "code" else "", x), b"", W + 2, b"", "far", n, a)
                        elif q < .4 and kindof[n] == "code" and k == "code" and segof[n] != sn: P.ref(" call far ptr " + n, b"\x9a", W + 2, b"", "far", n, 0)
                        elif q < .55: P.ref(" d%s offset %s:%s\n dw %s" % (D, segof[n], x, segof[n]), b"", W + 2, b"", "far", n, a)
                        elif q < .7 and g: P.ref(" d%s offset %s:%s\n dw %s" % (D, g, x, g), b"", W + 2, b"", "far", n, a)
                        elif q < .85: P.ref(" d%s %s\n dw seg %s" % (D, x if kindof[n] != "code" else "offset " + x, n), b"", W + 2, b"", "far" if not g else "farg", n, a)
                        elif segof[n] == sn and k == "code": P.ref(" call " + n, b"\xe8", W, b"", "rel", n, 0)
                        else: P.ref(" dw seg %s" % n, b"", 2, b"", "seg", n, 0)
                    else:
                        if k == "code" and kindof[n] == "code" and q < .3 and (segof[n] == sn or P.flat or g and not late and P.group.get(sn) == g): P.ref(" call " + n, b"\xe8", 2 if P.bits == 16 else 4, b"", "rel", n, 0)
                        elif k == "code" and P.bits == 64 and q < .5: P.ref(" lea rax, " + n, b"\x48\x8d\x05", 4, b"", "rel", n, 0)
                        elif k == "code" and P.bits == 16 and q < .45: h = rng.choice(["low", "high"]); P.ref(" mov al, %s offset %s" % (h, x), b"\xb0", 1, b"", h, n, a)
                        elif k == "code" and P.bits < 64 and q < .5: P.ref(" mov %s, offset %s" % ("bx" if P.bits == 16 else "ebx", x), b"\xbb", osz, b"", "off", n, a)
                        else: P.ref(" d%s offset %s" % (D, x), b"", osz, b"", "off", n, a)
        src.append("%s ends" % sn)
    src += late; P.stack = 0
    if fmt == "mz" and rng.random() < .7: P.stack = rng.choice([16, 256, 0x1000]); src += ["zSTK segment para stack 'STACK'", " db %d dup (?)" % P.stack, "zSTK ends"]
    src.append("end" if fmt == "bin" and (P.seq == ".alpha" or P.flat) else "end start_"); return P

def order_check(P, segat):
    n = [s for s in P.order if P.segs[s]["size"]]; end = 0; up = lambda e, s: (e + P.segs[s]["align"] - 1) // P.segs[s]["align"] * P.segs[s]["align"]
    if P.seq == ".alpha": n = sorted(n)
    elif P.seq == ".dosseg": n = [s for k in ("code", "data", "bss") for s in n if P.segs[s]["kind"] == k]
    P.pos = {}
    for s in n:
        a = segat.get(s, up(end, s)); P.pos[s] = a; need(a == up(end, s), "segment %s is at 0x%x, the one before ends at 0x%x, alignment %d (order %s)" % (s, a, end, P.segs[s]["align"], P.seq)); end = a + P.segs[s]["size"]
    return end

def bssplace(P, segat, name, t):
    s, o, z = P.bss[name]; need(segat.setdefault(s, t - o) == t - o, "%s of segment %s has two addresses: 0x%x and 0x%x" % (name, s, t, segat[s] + o))

def mz_check(P, b, C, _):
    cblp, cp, crlc, cpar, mn, mx, ss, sp, cs, ip, cs_, lf = None, None, None, None, None, None, None, None, None, None, None, None
    need(b[:2] == b"MZ" and len(b) >= 28, "no MZ header"); cblp, cp, crlc, cpar, mn, mx, ss, sp, csum, ip, cs_, lf = struct.unpack_from("<12H", b, 2)
    need(cp and (cp - (cblp > 0)) * 512 + cblp == len(b), "pages %d, bytes in the last page %d, file has %d bytes" % (cp, cblp, len(b))); h = cpar * 16; need(lf + 4 * crlc <= h <= len(b), "header of 0x%x bytes, %d relocations at 0x%x" % (h, crlc, lf))
    if P.opt: need(lf == P.opt[0] and h % P.opt[1] == 0 and mn >= P.opt[2] and mx == max(P.opt[3], mn), "OPTION MZ %s: relocations at 0x%x, header 0x%x, memory %d %d" % (P.opt, lf, h, mn, mx))
    else: need(mx == 0xffff, "maximum memory %d" % mx)
    base = P.rng.choice([0, 0x123, 0x1000]); mem = bytearray(b[h:]); rel = set()
    for k in range(crlc):
        o, s = struct.unpack_from("<HH", b, lf + 4 * k); a = s * 16 + o; need(a + 2 <= len(mem), "relocation %04x:%04x outside the image" % (s, o)); need(a not in rel, "relocation %04x:%04x twice" % (s, o)); rel.add(a); struct.pack_into("<H", mem, a, (struct.unpack_from("<H", mem, a)[0] + base) & 0xffff)
    P2 = P; at = {}; R = []
    at, segat, _R = place(P2, mem, 0) if all(r[2] in (1, 2, 4, 8) for r in P.refs) else place_mz(P, mem)
    for m, pre, size, suf, kind, name, add, sg, off in P.refs:
        a = find(mem, m, "reference to " + name) + NM + len(pre); C.case(("mz", P.bits, kind, size, P.segs[sg]["kind"], name in P.bss, add != 0, P.group.get(sg) is not None), sample="MZ %s %s%+d" % (kind, name, add)); C.count("references")
        if kind == "fix": v = struct.unpack_from("<" + wordfmt(size), mem, a)[0]; need(v == add, "reference to the absolute segment: 0x%x, declared %04x:%04x" % (v, *P.abs)); continue
        if kind in ("far", "farg"):
            w = size - 2; o = struct.unpack_from("<" + wordfmt(w), mem, a)[0]; s = struct.unpack_from("<H", mem, a + w)[0]; t = ((s - base) & 0xffff) * 16 + o - add
            need(a + w in rel, "segment of the reference to %s at 0x%x has no relocation" % (name, a)); rel.discard(a + w); C.count("relocated")
            if name in P.bss: bssplace(P, segat, name, t)
            else: need(t == at[name], "%s reference at 0x%x: %04x:%04x is 0x%x, %s%+d is at 0x%x" % (kind, a, s - base, o, t + add, name, add, at[name] + add))
        elif kind == "seg":
            s = struct.unpack_from("<H", mem, a)[0]; need(a in rel, "SEG %s at 0x%x has no relocation" % (name, a)); rel.discard(a); t = ((s - base) & 0xffff) * 16
            if name not in P.bss: need(t <= at[name] < t + 0x10000, "SEG %s is %04x" % (name, s - base))
        else:
            v = struct.unpack_from("<" + wordfmt(size), mem, a)[0]; t = (a + size + v) & (0xffff if size == 2 else 0xffffffff); need(t == at[name] & (0xffff if size == 2 else 0xffffffff), "call at 0x%x goes to 0x%x, %s is at 0x%x" % (a, t, name, at[name]))
    need(not rel, "relocation of 0x%x, where no segment value is" % min(rel or [0]))
    end = order_check(P, segat); need(cs_ * 16 + ip == at["start_"], "entry %04x:%04x, start label at 0x%x" % (cs_, ip, at["start_"]))
    if P.stack: need(sp == P.stack and ss * 16 + sp >= P.stack and ss * 16 >= max([segat[s] + P.segs[s]["size"] for s in segat if P.segs[s]["kind"] != "bss"] or [0]), "stack %04x:%04x, declared %d" % (ss, sp, P.stack)); end = max(end, ss * 16 + sp)
    need(len(mem) + mn * 16 >= end, "the program needs 0x%x bytes, image 0x%x and minimum memory 0x%x" % (end, len(mem), mn * 16))
    if not P.opt or P.opt[2] == 0: need(len(mem) + mn * 16 < end + 32 + 16 * (P.opt[2] if P.opt else 0) or not P.stack, "minimum memory 0x%x" % (mn * 16))

def place_mz(P, mem):
    at = {}; segat = {}
    for n, (sg, off, m) in P.labels.items():
        at[n] = find(mem, m, "label %s" % n); b = at[n] - off; need(segat.setdefault(sg, b) == b, "label %s is at +0x%x of segment %s, declared at +0x%x" % (n, at[n] - segat[sg], sg, off))
    for sg, b in segat.items():
        q = b
        for c in P.segs[sg]["chunks"]:
            if isinstance(c, int): q += c
            else: need(bytes(mem[q:q + len(c)]) == c, "segment %s, offset 0x%x: bytes %s, declared %s" % (sg, q - b, bytes(mem[q:q + min(len(c), 16)]).hex(), c[:16].hex())); q += len(c)
    return at, segat, []

def bin_check(P, b, C, _):
    mem = b; at, segat, R = place_mz(P, mem)
    end = order_check(P, segat); gb = {}
    for s in P.pos:
        if s in P.group: gb.setdefault(P.group[s], P.pos[s])
    for m, pre, size, suf, kind, name, add, sg, off in P.refs:
        a = find(mem, m, "reference to " + name) + NM + len(pre); v = struct.unpack_from("<" + wordfmt(size), mem, a)[0]; M = (1 << 8 * size) - 1
        C.case(("bin", P.bits, kind, size, P.segs[sg]["kind"], name in P.bss, add != 0, bool(P.group), P.org > 0), sample="BIN%d %s %s%+d" % (P.bits, kind, name, add)); C.count("references")
        if kind == "fix": need(v == add, "reference to the absolute segment: 0x%x, declared %04x:%04x" % (v, *P.abs)); continue
        ts = P.bss[name][0] if name in P.bss else P.labels[name][0]
        if kind in ("low", "high"):
            if name not in P.bss:
                if ts in P.group:
                    if P.group[ts] not in gb: continue
                    og = P.org if P.group.get(P.order[0]) == P.group[ts] else 0; w = at[name] + add + og - (gb[P.group[ts]] if og else gb[P.group[ts]] & ~15)
                else: w = P.labels[name][1] + add + (P.org if ts == P.order[0] else 0) + (segat[ts] & 15)
                w = w >> (8 if kind == "high" else 0) & 0xff; need(v == w, "%s reference at 0x%x to %s%+d: 0x%x, should be 0x%x" % (kind, a, name, add, v, w))
            continue
        if kind == "rel": t = a + size + v
        elif P.flat: t = v - P.org - add
        elif ts in P.group:
            if P.group[ts] not in gb: continue
            og = P.org if P.group.get(P.order[0]) == P.group[ts] else 0; t = v - og - add + (gb[P.group[ts]] if og else gb[P.group[ts]] & ~15)
        else:
            o = (P.bss[name][1] if name in P.bss else P.labels[name][1]) + add
            if ts in segat: o += (P.org if ts == P.order[0] else 0) + (segat[ts] & 15); need(v == o & M, "offset of %s%+d is 0x%x, in its segment 0x%x" % (name, add, v, o))
            continue
        if name in P.bss:
            if name in P.bss and P.segs[ts]["kind"] == "bss" and size > 1: bssplace(P, segat, name, t & 0xffffffff) if size > 2 else None
        else: need(t & M == at[name] & M, "%s reference at 0x%x to %s%+d: 0x%x, the label is at 0x%x" % (kind, a, name, add, v, at[name]))
    need(segat[P.order[0]] == 0 or P.seq, "the image starts with 0x%x bytes before the first segment" % segat[P.order[0]])
    fe = max(segat[s] + P.segs[s]["size"] for s in segat if P.segs[s]["kind"] != "bss"); need(len(b) == fe, "file has 0x%x bytes, the last segment with contents ends at 0x%x" % (len(b), fe))

def check():
    C = vf.Check("C17", "exploration", "a reference, import call or header field of an image that a loader of our own found at its final address and compared with the address of the label it names; distinct by (format, kind of reference, size, kind of segment, uninitialised target, displacement)",
                 ["own loaders for PE, MZ and flat images", "every label and reference follows ten random bytes by which the loader finds it"])
    exe = vf.build("plain"); k = 1 if not vf.THOROUGH else 30; R = lambda: random.Random(C.rng.getrandbits(64))
    jobs = [(f, R()) for f in ("pe", "mz", "bin") for _ in range(500 * k)]
    def job(j):
        fmt, rng = j; P = pe_program(rng) if fmt == "pe" else mz_program(rng, fmt); P.fmt = fmt
        S = "\n".join(P.src) + "\n"; return fmt, P, S, vf.asm(exe, S, ("-q", "-W0", "-" + fmt), out="t.exe" if fmt != "bin" else "t.bin")
    for fmt, P, S, r in vf.pmap(job, jobs):
        cmd = ["uasm", "-q", "-W0", "-" + fmt, "-Fo", "t.exe", "t.asm"]; out = r.files.get("t.exe") or r.files.get("t.bin")
        if r.rc or not out: C.violation("rejected:" + fmt, "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), {"t.asm": S}, cmd); continue
        try: {"pe": pe_check, "mz": mz_check, "bin": bin_check}[fmt](P, out, C, 0)
        except Bad as e: C.violation("%s:%s" % (fmt, re.sub(r"0x[0-9a-f]+|\d+|\b(x\d+|(SG|AA|ZZ)\d+|first_\d+|_?imp_\w+)\b|[0-9a-f]{4}:[0-9a-f]+", "", str(e))[:30].strip()), str(e), {"t.asm": S}, cmd)
        except (struct.error, ValueError, IndexError) as e: C.violation("%s:malformed" % fmt, "table outside the image: %s" % e, {"t.asm": S}, cmd)
    return C.finish(25)
if __name__ == "__main__": vf.main(check)
