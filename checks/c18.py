#!/usr/bin/env python3
"""C18: Mach-O objects are well formed and carry the intended bytes and relocations."""
import os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objgen, objread
NAME = {"_TEXT": ("__TEXT", "__text"), "_DATA": ("__DATA", "__data"), "CONST": ("__DATA", "_rdata"), "_BSS": ("__DATA", "__bss")}
def secname(S): return NAME.get(S.name) or ("__TEXT" if S.kind == "code" else "__DATA", S.name[:16])

def place(rng, M):
    a = 0x100000000 + rng.randrange(1, 100) * 0x1000; at = {}
    for n in M.segs: at[n] = a; a += 0x1000 * rng.randrange(1, 20) + (len(M.segs[n].data) + 4095) // 4096 * 4096
    return at, {n: 0x100000000 + rng.getrandbits(28) for n in list(M.externs) + list(M.comms)}

def link(M, E, at, sy, C, fail):
    by = {(s.seg, s.name): s for s in E.secs}; base = {}
    for n, S in M.segs.items(): base[by[secname(S)].i] = at[n]
    mem = {}
    for n, S in M.segs.items():
        s = by[secname(S)]; d = bytearray(s.data)
        for r in s.rel:
            C.seen("relocation_types", (r.type, r.len, r.ext))
            sz = 1 << r.len
            if (r.type, r.len, r.pcrel) not in ((0, 3, 0), (0, 2, 0), (1, 2, 1), (2, 2, 1), (6, 2, 1), (7, 2, 1), (8, 2, 1)): fail("relocation type %d length %d pcrel %d" % (r.type, r.len, r.pcrel)); continue
            if r.off + sz > len(d): fail("relocation at 0x%x+%d outside %s" % (r.off, sz, n)); continue
            a = int.from_bytes(d[r.off:r.off + sz], "little", signed=True)
            if r.ext:
                y = E.syms[r.sym]
                if y.sect: v = base[y.sect] + y.value - E.secs[y.sect - 1].addr
                else:
                    v = sy.get(y.name)
                    if v is None: fail("relocation against unknown symbol %s" % y.name); continue
                x = v + a - (at[n] + r.off + 4 if r.pcrel else 0)
                if r.type in (6, 7, 8): C.count("signed_n_relocations")
            else: x = a + base[r.sym] - E.secs[r.sym - 1].addr - (at[n] - s.addr if r.pcrel else 0)
            d[r.off:r.off + sz] = (x & ((1 << 8 * sz) - 1)).to_bytes(sz, "little")
        mem[n] = bytes(d)
    return mem

def structure(M, E, C, fail):
    by = {}
    for s in E.secs:
        if (s.seg, s.name) in by: fail("section %s,%s twice" % (s.seg, s.name))
        by[s.seg, s.name] = s
    for n, S in M.segs.items():
        s = by.get(secname(S))
        if s is None: fail("section %s is missing" % n); continue
        if s.size != len(S.data): fail("section %s has 0x%x bytes, declared 0x%x" % (n, s.size, len(S.data)))
        zf = s.flags & 255 == 1
        if zf != (S.kind == "bss"): fail("section %s (%s) has flags 0x%x" % (n, S.kind, s.flags))
        if S.kind == "code" and not s.flags & 0x80000400: fail("code section %s has flags 0x%x" % (n, s.flags), "codeflags")
        if (s.align < S.align or s.addr % s.align) and s.size: fail("section %s aligned %d, declared %d" % (n, s.align, S.align), "align:" + (n if n in NAME else "other"))
    sm = {}
    for y in E.syms:
        if y.name in sm: fail("symbol %s twice" % y.name)
        sm[y.name] = y
    used = {r.sym for S in M.segs.values() for r in S.refs}
    for n, s in M.syms.items():
        y = sm.get(n)
        if y is None:
            if n in M.publics or s.seg is None and n in used: fail("symbol %s is missing" % n)
            continue
        if s.seg is None:
            if y.type != 1 or y.sect: fail("external %s has type 0x%x section %d" % (n, y.type, y.sect))
            want = M.comms[n].size if n in M.comms else 0
            if y.value != want: fail("external %s has value %d, declared %s" % (n, y.value, "common of size %d" % want if want else "undefined"), "extern-value")
        else:
            if y.type & ~1 != 0xe or bool(y.type & 1) != (n in M.publics): fail("symbol %s has type 0x%x (public: %s)" % (n, y.type, n in M.publics)); continue
            q = E.secs[y.sect - 1]
            if (q.seg, q.name) != secname(M.segs[s.seg]) or y.value - q.addr != s.off: fail("symbol %s is %s+0x%x, declared %s+0x%x" % (n, q.name, y.value - q.addr, s.seg, s.off))
        C.count("symbols")
    for n in sm:
        if n not in M.syms and n not in M.pabs: fail("unexpected symbol %s" % n)
    for n, v in M.pabs.items():
        y = sm.get(n)
        if y is None: fail("public constant %s is missing" % n); continue
        if y.type != 3 or y.sect or (y.value - v) % (1 << 64): fail("public constant %s: type 0x%x section %d value %x, declared %d" % (n, y.type, y.sect, y.value, v))
        C.count("public_constants")
    for n in M.comms:
        if n not in sm: fail("common %s is missing" % n)

def readers(M, obj, d, C, fail):
    p = d + "/t.o"; open(p, "wb").write(obj)
    q = subprocess.run(["llvm-objdump-18", "--macho", "-r", "-t", "-h", p], capture_output=True, text=True)
    if q.returncode or "error" in q.stderr: fail("llvm-objdump: " + q.stderr[:400], "reader")
    C.count("read_by_llvm_objdump")
    if any(s.kind == "abs" for s in M.externs.values()): return
    q = subprocess.run(["ld64.lld-18", "-arch", "x86_64", "-platform_version", "macos", "10.15", "10.15", "-dylib", "-undefined", "dynamic_lookup", "-o", d + "/out", p], capture_output=True, text=True)
    # an absolute 32-bit reference can't be linked into a 64-bit image, by any linker
    err = [l for l in q.stderr.split("\n") if "error:" in l]
    if err and not any("X86_64_RELOC_UNSIGNED" in l or "out of range" in l or "text-relocations" in l or "read-only" in l or "must be PIC" in l for l in err): fail("ld64.lld: " + err[0][:400], "ld")
    C.count("linked_with_lld" if not err else "lld_refused_absolute")

def check():
    C = vf.Check("C18", "exploration", "a reference whose value after linking the Mach-O object was compared with its target's address; distinct by (segment kinds, reference kind, size, addend sign, target kind)",
                 ["own Mach-O reader and linker; llvm-objdump reads every third object and ld64.lld links it"])
    exe = vf.build("plain")
    N = 400 if not vf.THOROUGH else 10000
    jobs = [random.Random(C.rng.getrandbits(64)) for _ in range(N)]
    def job(rng):
        M = objgen.program(rng, "macho64")
        return rng, M, vf.asm(exe, M.src, ("-q", "-macho64"), out="t.o")
    def judge(x):
        rng, M, r = x
        F = {"t.asm": M.src}; cmd = ["uasm", "-q", "-macho64", "-Fo", "t.o", "t.asm"]
        if r.rc != 0 or "t.o" not in r.files:
            C.violation("rejected:%s" % (r.errors() or [(0, 0, 0, "?")])[0][3], "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), F, cmd); return
        F["t.o"] = r.files["t.o"]
        fail = lambda m, k="structure": C.violation(k, m, F, cmd)
        try: E = objread.macho(r.files["t.o"])
        except objread.Bad as e: fail("not a valid Mach-O object: %s" % e, "malformed"); return
        n0 = len(C.viol); structure(M, E, C, fail)
        if len(C.viol) > n0: return
        at, sy = place(rng, M); mem = link(M, E, at, sy, C, fail)
        calls = {(n, r2.off): r2 for n, S in M.segs.items() for r2 in S.refs if r2.kind == "pc" and M.syms[r2.sym].kind == "code" and M.syms[r2.sym].seg is None}
        by = {(s.seg, s.name): s for s in E.secs}
        for (n, o), r2 in calls.items():
            ty = [q.type for q in by[secname(M.segs[n])].rel if q.off == o]
            if ty != [2]: fail("call or jump at %s+0x%x to external %s has relocation types %r" % (n, o, r2.sym, ty), "branch-type")
        def res(r, S, addr):
            s = M.syms[r.sym]; v = (sy[r.sym] if s.seg is None else at[s.seg] + s.off) + r.add
            return v - (addr + r.end) if r.kind == "pc" else v
        for n in M.segs:
            S = M.segs[n]
            if S.kind == "bss": continue
            def onref(q, got, want):
                t = M.syms[q.sym]; tk = "ext" if q.sym in M.externs else "comm" if q.sym in M.comms else ("pub" if q.sym in M.publics else "loc") + ("same" if t.seg == n else "other")
                C.case((S.kind, q.kind, q.size, (q.add > 0) - (q.add < 0), q.end - q.off, tk, t.kind) if q.kind == "pc" else (S.kind, q.kind, q.size, (q.add > 0) - (q.add < 0), tk, t.kind), sample="%s+%x -> %s%+d = %x" % (n, q.off, q.sym, q.add, want))
                if got != want: C.violation("value:%s:%d" % (q.kind, q.size), "%s+0x%x refers to %s%+d: linked value 0x%x, expected 0x%x (%s)" % (n, q.off, q.sym, q.add, got, want, q.kind), F, cmd)
            e = objgen.check_image(M, n, mem[n], at[n], res, onref)
            if e: C.violation("bytes", "section %s: %s" % (n, e), F, cmd)
        C.count("objects")
        if rng.random() < .33:
            d = vf.newdir(); readers(M, r.files["t.o"], d, C, fail); shutil.rmtree(d)
    vf.pmap(judge, vf.pmap(job, jobs))
    return C.finish(60)
if __name__ == "__main__": vf.main(check)
