#!/usr/bin/env python3
"""C14: ELF objects are well formed and link to the intended image."""
import os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objgen, objread

def place(rng, M, secs):
    """random addresses for sections, externals and commons"""
    a = rng.randrange(0x10, 0x4000) * 0x1000; at = {}
    for n in secs: at[n] = a; a += 0x1000 * rng.randrange(1, 20) + (len(M.segs[n].data) + 4095) // 4096 * 4096
    sy = {}
    for n in M.externs: sy[n] = rng.getrandbits(31) if M.externs[n].kind != "abs" else rng.getrandbits(16)
    for n in M.comms: sy[n] = a; a += 4096
    return at, sy

def resolver(M, at, sy):
    def value(n):
        s = M.syms[n]
        return sy[n] if s.seg is None else at[s.seg] + s.off
    def res(r, S, addr):
        v = value(r.sym) + r.add
        return v - (addr + r.end) if r.kind == "pc" else v
    return res

def link(M, E, at, sy, C, fail):
    """own linker: section contents with relocations applied, and the inline words found there"""
    byname = {s.name: s for s in E.secs}; base = {}
    for n, S in M.segs.items():
        if S.out in byname: base[byname[S.out].i] = at[n]
    mem = {}
    for n, S in M.segs.items():
        s = byname[S.out]; d = bytearray(s.data if s.type != 8 else bytes(s.size))
        for r in s.rel:
            y = E.syms[r.sym]
            if y.shndx == 0 or y.shndx == 0xfff2: v = sy.get(y.name)
            elif y.shndx == 0xfff1: v = y.value
            else: v = base[y.shndx] + y.value
            if v is None: fail("relocation against unknown symbol %s" % y.name); v = 0
            if E.bits == 64: sz, pc = {1: (8, 0), 2: (4, 1), 10: (4, 0), 11: (4, 0), 4: (4, 1), 24: (8, 1), 14: (1, 0), 15: (1, 1), 12: (2, 0), 13: (2, 1)}.get(r.type, (0, 0))
            else: sz, pc = {1: (4, 0), 2: (4, 1), 20: (2, 0), 21: (2, 1), 22: (1, 0), 23: (1, 1)}.get(r.type, (0, 0))
            if not sz: fail("relocation type %d" % r.type); continue
            C.seen("relocation_types", (E.bits, r.type))
            a = r.addend if r.addend is not None else int.from_bytes(d[r.off:r.off + sz], "little")
            d[r.off:r.off + sz] = ((v + a - (at[n] + r.off if pc else 0)) & ((1 << 8 * sz) - 1)).to_bytes(sz, "little")
        mem[n] = bytes(d)
    return mem

def structure(M, E, C, fail):
    byname = {}
    for s in E.secs:
        if s.name in byname and s.type == 1: fail("two sections named %s" % s.name)
        byname.setdefault(s.name, s)
    for n, S in M.segs.items():
        s = byname.get(S.out)
        if s is None: fail("section %s is missing" % S.out); continue
        if s.size != len(S.data): fail("section %s has 0x%x bytes, declared 0x%x" % (S.out, s.size, len(S.data)))
        if s.align != S.align and s.size: fail("section %s aligned %d, declared %d" % (S.out, s.align, S.align))
        want = {"code": 6, "data": 3, "const": 2, "bss": 3}[S.kind]
        if s.flags & 7 != want: fail("section %s (%s) has flags %x" % (S.out, S.kind, s.flags))
        if S.kind == "bss" and s.type != 8: fail("section %s of class BSS has type %d" % (S.out, s.type))
    gl = {}
    for y in E.syms:
        if y.bind == 1:
            if y.name in gl: fail("global %s twice" % y.name)
            gl[y.name] = y
    for n in M.publics:
        s = M.syms[n]; y = gl.get(n)
        if y is None: fail("public %s is not in the symbol table" % n); continue
        sec = E.secs[y.shndx] if y.shndx < len(E.secs) else None
        if sec is None or sec.name != M.segs[s.seg].out or y.value != s.off: fail("public %s is %s+0x%x, declared %s+0x%x" % (n, sec and sec.name, y.value, s.seg, s.off))
        C.count("publics")
    for n, v in M.pabs.items():
        y = gl.get(n)
        if y is None: fail("public constant %s is not in the symbol table" % n); continue
        if y.shndx != 0xfff1 or (y.value - v) % (1 << E.bits): fail("public constant %s: section %x value %x, declared %d" % (n, y.shndx, y.value, v))
        C.count("public_constants")
    for n, c in M.comms.items():
        y = gl.get(n)
        if y is None or y.shndx != 0xfff2 or y.size != c.size: fail("common %s: %r" % (n, y))
    used = {r.sym for S in M.segs.values() for r in S.refs}
    for n in M.externs:
        y = gl.get(n)
        if y is not None and y.shndx != 0: fail("external %s is defined" % n)
        if y is None and n in used: fail("external %s is missing" % n)
    for n in gl:
        if n not in M.publics and n not in M.comms and n not in M.externs and n not in M.pabs: fail("unexpected global %s" % n)

def reallink(M, obj, d, C, fail, bits):
    """GNU ld: accepts the object, and its image holds the intended values"""
    p = os.path.join(d, "x.s")
    ext = [".section .ext,\"aw\"\n"] + ["%s.globl %s\n.org %d\n%s: .byte 1\n" % ("", n, 16 * i + 3, n) for i, n in enumerate(n for n in M.externs if M.externs[n].kind != "abs")]
    ext += [".globl %s\n%s = 0x%x\n" % (n, n, 0x4321) for n in M.externs if M.externs[n].kind == "abs"]
    open(p, "w").write("".join(ext)); open(os.path.join(d, "t.o"), "wb").write(obj)
    b = "--%d" % bits
    if subprocess.run(["as", b, "-o", d + "/x.o", p], capture_output=True).returncode: raise vf.HarnessError("gas failed")
    q = subprocess.run(["ld", "-m", "elf_x86_64" if bits == 64 else "elf_i386", "-z", "noexecstack", "--no-relax", "-e", "0", "-Ttext", "0x400000", "-o", d + "/out", d + "/t.o", d + "/x.o"], capture_output=True, text=True)
    if q.returncode: fail("ld: " + (q.stderr + q.stdout)[:600]); return
    t = subprocess.run(["readelf", "-SsW", d + "/out"], capture_output=True, text=True).stdout
    at = {}; off = {}; sy = {}
    import re
    for m in re.finditer(r"^\s+\[\s*\d+\] (\S+)\s+(\S+)\s+([0-9a-f]+) ([0-9a-f]+) ([0-9a-f]+)", t, re.M): at[m[1]] = int(m[3], 16); off[m[1]] = (int(m[4], 16), m[2] == "NOBITS")
    for m in re.finditer(r"^\s+\d+: ([0-9a-f]+)\s+\d+ \S+\s+\S+\s+\S+\s+\S+ (\S+)$", t, re.M): sy[m[2]] = int(m[1], 16)
    img = open(d + "/out", "rb").read(); A = {}; mem = {}
    for n, S in M.segs.items():
        if S.out not in at:
            if len(S.data): fail("section %s lost in the linked image" % S.out); return
            A[n] = 0; mem[n] = b""; continue
        A[n] = at[S.out]; o, nb = off[S.out]; mem[n] = bytes(len(S.data)) if nb else img[o:o + len(S.data)]
    C.count("linked_with_ld")
    return A, sy, mem

def check():
    C = vf.Check("C14", "exploration", "a reference (code or data, to a local, public, external or common symbol) whose linked value was compared with its target's address; distinct by (format, segment kinds, reference kind, size, addend sign, target kind)",
                 ["own ELF reader and linker, 10 % of the objects also linked with GNU ld"])
    exe = vf.build("plain")
    N = 500 if not vf.THOROUGH else 12000
    jobs = [(C.rng.choice(["elf32", "elf64"]), random.Random(C.rng.getrandbits(64)), 0) for _ in range(N)]
    jobs += [(f, random.Random(C.rng.getrandbits(64)), n) for f in ("elf32", "elf64") for n in [C.rng.choice([-11, -10, -9, 70000])]]
    def job(j):
        fmt, rng, big = j
        M = objgen.program(rng, fmt, big)
        return j, M, vf.asm(exe, M.src, ("-q", "-" + ("elf" if fmt == "elf32" else "elf64")), out="t.o")
    def judge(x):
        (fmt, rng, big), M, r = x
        F = {"t.asm": M.src}; cmd = ["uasm", "-q", "-elf" if fmt == "elf32" else "-elf64", "-Fo", "t.o", "t.asm"]
        if r.rc != 0 or "t.o" not in r.files:
            C.violation("rejected:%s:%s" % (fmt, (r.errors() or [(0, 0, 0, "?")])[0][3]), "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), F, cmd); return
        F["t.o"] = r.files["t.o"]
        fail = lambda m, k="structure": C.violation("%s:%s" % (k, fmt), m, F, cmd)
        try: E = objread.elf(r.files["t.o"])
        except objread.Bad as e: fail("not a valid ELF object: %s" % e, "malformed"); return
        if E.bits != M.bits: fail("class %d" % E.bits); return
        n0 = len(C.viol); structure(M, E, C, fail)
        if len(C.viol) > n0: return
        inline = {s.name: s.data for s in E.secs}
        def compare(at, sy, mem, what):
            res = resolver(M, at, sy)
            for n in M.segs:
                S = M.segs[n]
                if S.kind == "bss": continue
                def onref(q, got, want):
                    t = M.syms[q.sym]; tk = "ext" if q.sym in M.externs else "comm" if q.sym in M.comms else ("pub" if q.sym in M.publics else "loc") + ("same" if t.seg == n else "other")
                    C.case((fmt, S.kind, q.kind, q.size, (q.add > 0) - (q.add < 0), tk, t.kind), sample="%s: %s+%x -> %s%+d = %x" % (fmt, n, q.off, q.sym, q.add, want))
                    if got != want:
                        k = "value"
                        # known: ELF64 keeps the written displacement in the section instead of r_addend
                        il = int.from_bytes(inline[S.out][q.off:q.off + q.size], "little"); m = (1 << 8 * q.size) - 1
                        if fmt == "elf64" and q.add and il == q.add & m and got == (want - q.add) & m: k = "rela-addend-inline"
                        C.violation("%s:%s" % (k, fmt), "%s: %s+0x%x refers to %s%+d: linked value 0x%x, expected 0x%x (%s)" % (what, n, q.off, q.sym, q.add, got, want, q.kind), F, cmd)
                e = objgen.check_image(M, n, mem[n], at[n], res, onref)
                if e: C.violation("bytes:%s" % fmt, "%s: section %s: %s" % (what, n, e), F, cmd)
        at, sy = place(rng, M, list(M.segs))
        compare(at, sy, link(M, E, at, sy, C, fail), "own linker")
        C.count("objects")
        if rng.random() < .1:
            d = vf.newdir(); l = reallink(M, r.files["t.o"], d, C, lambda m: fail(m, "ld"), M.bits); shutil.rmtree(d)
            if l: compare(l[0], l[1], l[2], "GNU ld")
    vf.pmap(judge, vf.pmap(job, jobs))
    return C.finish(100)
if __name__ == "__main__": vf.main(check)
