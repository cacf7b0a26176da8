#!/usr/bin/env python3
"""C20: debug information maps addresses to the right source lines."""
import hashlib, os, random, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objread

INS = {16: [("nop", 1), ("mov ax, 5", 3), ("inc ax", 1), ("xor ax, ax", 2), ("cld", 1)], 32: [("nop", 1), ("mov eax, 5", 5), ("inc eax", 1), ("xor eax, eax", 2), ("cld", 1)],
       64: [("nop", 1), ("mov eax, 5", 5), ("xor eax, eax", 2), ("cld", 1), ("mov rax, 112233445566778h", 10)]}

def program(rng, fmt, big=0):
    """model: ins[segment] = [(offset, line, file)], procs[name] = (segment, start, length), data[name] = (segment, offset)"""
    bits = {"coff": 32, "win64": 64, "omf32": 32, "omf16": 16}[fmt]
    files = {"t.asm": []}; M = {"ins": {}, "procs": {}, "data": {}, "size": {}, "label": {}}; cur = {"f": "t.asm", "seg": None, "proc": None}
    src = lambda l: files[cur["f"]].append(l)
    def at(n=1):
        """an instruction of n bytes on the line just written"""
        s = cur["seg"]; o = M["size"].get(s, 0); M["ins"].setdefault(s, []).append((o, len(files[cur["f"]]), cur["f"])); M["size"][s] = o + n
    def raw(n): M["size"][cur["seg"]] = M["size"].get(cur["seg"], 0) + n
    src({16: ".286", 32: ".686", 64: "option casemap:none"}[bits])
    if bits == 32: src(".model flat, c")
    elif bits == 16: src(".model small, c")
    macs = {}
    for i in range(rng.choice([0, 1, 3])):
        b = [rng.choice(INS[bits]) for _ in range(rng.choice([1, 2, 5]))]; src("mac%d macro p1, p2" % i)
        for t, n in b: src("  " + t)
        src("endm"); macs["mac%d" % i] = [n for t, n in b]
    ninc = [0]; ndat = 0; nproc = 0; nlab = 0
    def body(n, depth):
        nonlocal ndat, nlab
        for _ in range(n):
            k = rng.random()
            if k < .5: t, z = rng.choice(INS[bits]); src(" %s%s" % (t, rng.choice(["", "", " ; text"]))); at(z)
            elif k < .58: src(rng.choice(["", "; comment", " "]))
            elif k < .66 and macs:
                m = rng.choice(list(macs)); src(" %s %s" % (m, rng.choice(["", "1", "1, 2"]))); o = len(files[cur["f"]])
                for z in macs[m]: at(z)
            elif k < .71: src(" db %s" % ",".join(["90h"] * 3)); raw(3)
            elif k < .76:
                r = rng.choice([1, 2, 4]); src(" rept %d" % r); b = [rng.choice(INS[bits]) for _ in range(2)]
                for t, z in b: src("  " + t)
                src(" endm")
                for _ in range(r):
                    for t, z in b: at(z)
            elif k < .8: src(" mov eax, \\" if bits > 16 else " mov ax, \\"); src("   7"); at(5 if bits > 16 else 3)
            elif k < .85: nlab += 1; src("lab%d:" % nlab)
            elif k < .91 and depth < 2:
                ninc[0] += 1; f = "i%d.inc" % ninc[0]; src(" include " + f); sv = cur["f"]; cur["f"] = f; files[f] = []
                for _ in range(rng.choice([0, 3])): src("")
                body(rng.choice([1, 3, 8]), depth + 1); cur["f"] = sv; M["inc"] = 1
                if cur["proc"]: M["incproc"] = 1
            else: src(" .if %s" % ("eax" if bits > 16 else "ax")); at(4 if bits > 16 else 4); t, z = rng.choice(INS[bits]); src("  " + t); at(z); src(" .endif")
    segs = []
    for i in range(rng.choice([1, 2, 4, 7])):
        k = rng.random()
        if k < .2:
            ndat += 1; src(".data"); sv = cur["seg"]; cur["seg"] = "_DATA"; M["data"]["dat%d" % ndat] = M["size"].get("_DATA", 0); src("dat%d dd %d" % (ndat, i)); raw(4)
            if rng.random() < .3: src("public dat%d" % ndat)
            cur["seg"] = sv
        own = k > .8; s = "SEG%d" % rng.randrange(2) if own else "_TEXT"; cur["seg"] = s
        if bits == 16 or not own: src("%s segment %s 'CODE'" % (s, "" if s in M["size"] else "para public") if own else ".code")
        else: src("%s segment%s 'CODE'" % (s, "" if s in M["size"] else " para public"))
        M["size"].setdefault(s, 0)
        if own and bits < 64: src("assume cs:%s" % s)
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .6: body(rng.choice([0, 1, 4, 12]), 0)
            if rng.random() < .7:
                nproc += 1; n = rng.choice(["proc%d", "a_longer_procedure_name%d"]) % nproc; a = bits == 32 and rng.random() < .5; vis = rng.choice(["", "", " private"])
                src("%s proc%s%s" % (n, vis, " a1:dword" if a else "")); cur["proc"] = n; st = M["size"][s]; pl = len(files["t.asm"])
                if a: M["ins"].setdefault(s, []).append((st, pl, "t.asm")); raw(3)      # prologue: push ebp; mov ebp, esp
                body(rng.choice([1, 3, 10]), 0)
                src(" ret"); at(2 if a else 1); src("%s endp" % n); cur["proc"] = None; M["procs"][n] = (s, st, M["size"][s] - st, vis, pl)
        if big: n = big; src(" db %d dup (90h)" % n); raw(n); t, z = INS[bits][0]; src(" nop"); at(1)
        if own: src("%s ends" % s)
    src("end")
    M["files"] = files; M["bits"] = bits
    return M, {f: "\n".join(l) + "\n" for f, l in files.items()}

def lookup(tab, o):
    """line of address o: the last entry at or before it (the last of several at one address)"""
    r = None
    for e in tab:
        if e[0] <= o: r = e
    return r

def cofflines(o):
    """section -> [(offset, line)] with the function-relative numbers resolved"""
    T = {}; byidx = {y.i: y for y in o.syms if y}
    for s in o.secs:
        out = []; fn = None; base = None
        for a, l in s.lines:
            if l == 0:
                y = byidx.get(a)
                if y is None or y.type != 32 or not y.aux: raise objread.Bad("line table names symbol %d, not a function" % a)
                if y.sec != s.i: raise objread.Bad("function %s is in another section" % y.name)
                tag, size, lp, nxt = struct.unpack_from("<IIII", y.aux[0]); bf = byidx.get(tag)
                if bf is None or bf.name != ".bf": raise objread.Bad("function %s: tag %d is no .bf" % (y.name, tag))
                base = struct.unpack_from("<H", bf.aux[0], 4)[0]; fn = y
            else:
                if base is None: raise objread.Bad("line before any function in %s" % s.name)
                if a >= max(1, s.size): raise objread.Bad("line entry at 0x%x outside %s (0x%x)" % (a, s.name, s.size))
                if a < fn.value: raise objread.Bad("line entry at 0x%x before its function %s" % (a, fn.name))
                out.append((a, (base + (0 if l == 0x7fff else l)) & 0xffff, None))
        T[s.name] = out
    fns = {y.i for y in o.syms if y and y.type == 32 and y.aux and y.cls in (2, 3)}; nxts = []
    for y in o.syms:
        if y and y.i in fns:
            tag, size, lp, nxt = struct.unpack_from("<IIII", y.aux[0])
            if nxt and nxt not in fns: raise objread.Bad("function %s: next function is symbol %d" % (y.name, nxt))
            if nxt: nxts.append(nxt)
            s = o.secs[y.sec - 1]
            if y.value + size > s.size: raise objread.Bad("function %s: size 0x%x runs past its section" % (y.name, size))
    if len(set(nxts)) != len(nxts): raise objread.Bad("two functions have the same next function")
    return T

def records(d, p, end):
    while p < end:
        if p + 4 > end: raise objread.Bad("CodeView record header at 0x%x" % p)
        ln, ty = struct.unpack_from("<HH", d, p)
        if ln < 2 or p + 2 + ln > end: raise objread.Bad("CodeView record %04x at 0x%x: length %d" % (ty, p, ln))
        yield p, ty, d[p + 4:p + 2 + ln]; p += 2 + ln

def cvsymbols(d, rng, rel, W, M, fail, C):
    depth = 0; seen = set()
    for p, ty, b in rng:
        C.count("codeview_records"); fx = {k - p - 4: v for k, v in rel.items() if p <= k < p + 4 + len(b)}
        def name(o): return b[o + 1:o + 1 + b[o]].decode("latin1") if W != 8 else b[o:b.index(b"\0", o)].decode("latin1")
        if ty in (0x110, 0x204, 0x205, 0x100a, 0x100b, 0x110f, 0x1110):
            depth += 1; ln = struct.unpack_from("<I", b, 12)[0]; old = ty < 0x1000; o, n = (24, name(33)) if old else (28, name(35))
            if n in M["procs"]:
                s, st, sz, vis, pl = M["procs"][n]; seen.add(n)
                if ln != sz: fail("debug record of procedure %s: length %d, declared %d" % (n, ln, sz))
                if o not in fx or not fx[o].endswith(n): fail("debug record of procedure %s refers to %s" % (n, fx.get(o)))
                if (ty in (0x204, 0x100a, 0x110f)) != bool(vis): fail("debug record of procedure %s has type 0x%x" % (n, ty))
                C.count("procedure_records")
        elif ty == 6:
            depth -= 1
            if depth < 0: raise objread.Bad("S_END without a block")
        elif ty in (0x201, 0x202, 0x1007, 0x1008, 0x110c, 0x110d):
            o, n = (0, name(8)) if ty < 0x1000 else (4, name(10))
            if n in M["data"]:
                seen.add(n)
                if o not in fx or not fx[o].endswith(n): fail("debug record of variable %s refers to %s" % (n, fx.get(o)))
                C.count("variable_records")
    if depth: raise objread.Bad("%d blocks not closed" % depth)
    for n in list(M["procs"]) + list(M["data"]):
        if n not in seen: fail("%s has no debug record" % n)

def cv8(o, d, rel, M, fail, C):
    p = 4; T = {}; strs = b""; files = {}; blocks = []
    while p < len(d):
        if p + 8 > len(d): raise objread.Bad("subsection header at 0x%x" % p)
        t, l = struct.unpack_from("<II", d, p); q = p + 8; e = q + l
        if e > len(d): raise objread.Bad("subsection 0x%x at 0x%x: length %d" % (t, p, l))
        if t == 0xf3: strs = d[q:e]
        elif t == 0xf4:
            while q < e:
                so, n, k = struct.unpack_from("<IBB", d, q); files[q - p - 8] = (strs[so:strs.index(b"\0", so)].decode("latin1"), k, d[q + 6:q + 6 + n]); q += (6 + n + 3) // 4 * 4
        elif t == 0xf2:
            a, sg, fl, cb = struct.unpack_from("<IHHI", d, q); sym = rel.get(q); q += 12
            while q < e:
                if q + 12 > e: raise objread.Bad("file block header at 0x%x" % q)
                f, n, z = struct.unpack_from("<III", d, q)
                if z != 12 + 8 * n or q + z > e: raise objread.Bad("file block of %d lines has %d bytes" % (n, z))
                blocks.append((sym, cb, f, list(struct.iter_unpack("<II", d[q + 12:q + 12 + 8 * n])))); q += z
        elif t == 0xf1: cvsymbols(d, records(d, q, e), rel, 8, M, fail, C)
        else: raise objread.Bad("subsection type 0x%x" % t)
        p = (e + 3) // 4 * 4
    return files, blocks

def check():
    C = vf.Check("C20", "exploration", "an instruction whose address was looked up in the debug line table and compared with the source line that produced it; distinct by (format, option, in a procedure / macro / include / second segment, table size)",
                 ["own readers of the COFF, OMF and CodeView 4/5/8 formats", "line of a macro: the invocation; of a loop: its last line; of a continued line: its last part"])
    exe = vf.build("plain"); k = 1 if not vf.THOROUGH else 30; R = lambda: random.Random(C.rng.getrandbits(64))
    kinds = [("coff", "-Zd"), ("coff", "-Zi"), ("coff", "-Zi5"), ("coff", "-Zi8"), ("win64", "-Zd"), ("win64", "-Zi"), ("win64", "-Zi8"), ("omf32", "-Zd"), ("omf32", "-Zi"), ("omf16", "-Zd"), ("omf16", "-Zi")]
    jobs = [(f, o, R(), 0) for f, o in kinds for _ in range(45 * k)] + [(f, o, R(), C.rng.choice([70000, 0x100000, 0x250000])) for f, o in kinds if f != "omf16" for _ in range(2)]
    def job(j):
        fmt, opt, rng, big = j; M, S = program(rng, fmt, big); ff = fmt[:3] if fmt[:3] == "omf" else fmt; ex = {f: t for f, t in S.items() if f != "t.asm"}
        return j, M, S, vf.asm(exe, S["t.asm"], ("-q", "-W0", "-" + ff, opt), out="t.o", extra=ex), vf.asm(exe, S["t.asm"], ("-q", "-W0", "-" + ff), out="t.o", extra=ex)
    for (fmt, opt, rng, big), M, S, r, r0 in vf.pmap(job, jobs):
        cmd = ["uasm", "-q", "-W0", "-" + (fmt[:3] if fmt[:3] == "omf" else fmt), opt, "-Fo", "t.o", "t.asm"]
        fail = lambda m, kd="record": C.violation("%s:%s:%s" % (kd, fmt, opt), m, S, cmd)
        if r0.rc or r.rc or "t.o" not in r.files: C.violation("rejected:%s:%s" % (fmt, opt), "valid program not assembled (%s, without debug information %s): %s" % (r.rc, r0.rc, (r.text() or r0.text())[-300:]), S, cmd); continue
        try:
            if fmt[:3] == "omf":
                o = objread.omf(r.files["t.o"]); o0 = objread.omf(r0.files["t.o"])
                A = [(s.name, s.cls, s.length, bytes(s.data), [(f.off, f.size, f.loc, f.disp) for f in s.fix]) for s in o.segs[1:] if s and s.name[:2] != "$$"]; B = [(s.name, s.cls, s.length, bytes(s.data), [(f.off, f.size, f.loc, f.disp) for f in s.fix]) for s in o0.segs[1:] if s]
                T = {}
                for sg, l, a, m in o.srclines: T.setdefault(o.segs[sg].name, []).append((a, l, os.path.basename(m)))
                for s in o.segs[1:]:
                    if s and s.name == "$$SYMBOLS":
                        d = bytes(s.data)
                        for p, ty, b in records(d, 4 if d[:4] == b"\1\0\0\0" else 0, len(d)): C.count("codeview_records")
                P0 = {(p.name, p.seg, p.value) for p in o0.pubs}; P1 = {(p.name, p.seg, p.value) for p in o.pubs}
            else:
                o = objread.coff(r.files["t.o"]); o0 = objread.coff(r0.files["t.o"])
                sy = lambda o, r: o.syms[r.sym].name
                A = [(s.name, s.chars, s.data, [(x.off, x.type, sy(o, x)) for x in s.rel]) for s in o.secs if s.name[:6] != ".debug"]; B = [(s.name, s.chars, s.data, [(x.off, x.type, sy(o0, x)) for x in s.rel]) for s in o0.secs]
                P0 = {(y.name, y.sec, y.value) for y in o0.syms if y and y.cls == 2}; P1 = {(y.name, y.sec, y.value) for y in o.syms if y and y.cls == 2}
                T = cofflines(o); nm = {"_TEXT": ".text", "_DATA": ".data"}
                dbg = {s.name: s for s in o.secs}
                if opt != "-Zd":
                    s = dbg.get(".debug$S"); t = dbg.get(".debug$T")
                    if not s or not t: raise objread.Bad("no debug sections")
                    sig = {"-Zi": 1, "-Zi5": 2, "-Zi8": 4}[opt]
                    if s.data[:4] != struct.pack("<I", sig) or t.data[:4] != s.data[:4]: raise objread.Bad("signature %s" % s.data[:4].hex())
                    rel = {x.off: sy(o, x) for x in s.rel if x.type == 11}
                    n = 0
                    for p, ty, b in records(t.data, 4, len(t.data)): n += 1
                    C.count("codeview_types", n)
                    if opt == "-Zi8":
                        files, blocks = cv8(o, s.data, rel, M, fail, C); T = {}
                        for f, (pth, kd, md) in files.items():
                            b = re.split(r"[\\/]", pth)[-1]
                            if b not in S: fail("source file %s in the debug information" % pth, "file"); continue
                            if kd != 1 or md != hashlib.md5(S[b].encode("latin1")).digest(): fail("source file %s: checksum %s" % (b, md.hex()), "checksum")
                            C.count("checksums")
                        order = [q for q in M["size"] if q in M["ins"]]
                        for sym, cb, f, ls in blocks:
                            # the block names its section with the label of the first code segment only
                            if sym is None: T.setdefault(None, []); C.count("unlocated_blocks"); C.violation("unlocated:" + opt, "line block without a relocation: the lines of a second code segment have no section", S, cmd); continue
                            y = [y for y in o.syms if y and y.name == sym][0]; n = o.secs[y.sec - 1].name
                            if cb != len(o.secs[y.sec - 1].data): fail("line block of %s covers 0x%x bytes of 0x%x" % (n, cb, len(o.secs[y.sec - 1].data)), "block")
                            if f not in files: fail("line block names file entry %d" % f, "block"); continue
                            T.setdefault(n, []); T[n] += [(y.value + a, l & 0xffffff, re.split(r"[\\/]", files[f][0])[-1]) for a, l in ls]
                    else: cvsymbols(s.data, records(s.data, 4, len(s.data)), rel, 4, M, fail, C)
        except objread.Bad as e: fail(str(e), "malformed"); continue
        if A != B:
            n = next((x[0] for x, y in zip(A, B) if x != y), "count"); fail("section %s differs from the one assembled without %s" % (n, opt), "changed")
        if not P0 <= P1: fail("public symbols %s are missing or moved with %s" % (sorted(P0 - P1)[:3], opt), "changed")
        for s, ins in M["ins"].items():
            n = s if fmt[:3] == "omf" else {"_TEXT": ".text"}.get(s, s)
            if opt == "-Zi8" and fmt[:3] != "omf" and n not in T: continue
            tab = T.get(n, [])
            for x, y in zip(tab, tab[1:]):
                if y[0] < x[0]: fail("line entries of %s are not in order: 0x%x after 0x%x" % (n, y[0], x[0]), "order")
            for a, l, f in tab:
                if a > M["size"][s]: fail("line entry at 0x%x outside %s (0x%x)" % (a, n, M["size"][s]), "outside")
            names = {f for a, l, f in tab}
            for a, l, f in ins:
                e = lookup(tab, a); C.case((fmt, opt, f != "t.asm", any(v[0] == s and v[1] <= a < v[1] + v[2] for v in M["procs"].values()), s != "_TEXT", len(tab) // 10, big), sample="%s %s: %s+0x%x is %s(%d)" % (fmt, opt, n, a, f, l))
                kd = "line"
                if e is not None and fmt[:3] != "omf" and opt != "-Zi8" and f != "t.asm": kd = "line-include"
                if e is None or e[1] != l & 0xffff and fmt != "x" or e[2] is not None and e[2] != f:
                    fail("%s+0x%x comes from %s line %d, the line table says %s" % (n, a, f, l, e), kd); break
        C.count("line_entries", sum(len(x) for x in T.values()))
    return C.finish(150)
if __name__ == "__main__": vf.main(check)
