#!/usr/bin/env python3
"""C15: COFF objects (32 and 64-bit) are well formed and link to the intended image."""
import os, random, re, shutil, struct, subprocess, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objgen, objread
IMGBASE = {32: 0x400000, 64: 0x140000000}

def place(rng, M):
    base = IMGBASE[M.bits]; a = base + rng.randrange(1, 40) * 0x1000; at = {}
    for n in M.segs: at[n] = a; a += 0x1000 * rng.randrange(1, 20) + (len(M.segs[n].data) + 4095) // 4096 * 4096
    sy = {}
    for n in M.externs: sy[n] = base + rng.getrandbits(28) if M.externs[n].kind != "abs" else rng.getrandbits(16)
    for n in M.comms: sy[n] = a; a += 4096
    return at, sy

def resolver(M, at, sy):
    base = IMGBASE[M.bits]
    def res(r, S, addr):
        s = M.syms[r.sym]; v = (sy[r.sym] if s.seg is None else at[s.seg] + s.off) + r.add
        if r.kind == "pc": return v - (addr + r.end)
        if r.kind == "rva": return v - base
        if r.kind == "secrel": return s.off + r.add
        return v
    return res

def deco(n): return n
def link(M, E, at, sy, C, fail):
    base = IMGBASE[M.bits]; idx = {}; byname = {s.name: s for s in E.secs}
    for n, S in M.segs.items():
        if S.out in byname: idx[byname[S.out].i] = at[n]
    undec = {n: n for n in list(M.externs) + list(M.comms)}
    mem = {}
    T64 = {1: (8, "va"), 2: (4, "va"), 3: (4, "rva"), 4: (4, 4), 5: (4, 5), 6: (4, 6), 7: (4, 7), 8: (4, 8), 9: (4, 9), 10: (2, "sec"), 11: (4, "secrel")}
    T32 = {6: (4, "va"), 7: (4, "rva"), 10: (2, "sec"), 11: (4, "secrel"), 20: (4, 4)}
    for n, S in M.segs.items():
        s = byname[S.out]; d = bytearray(s.data if not s.bss else bytes(s.size))
        for r in s.rel:
            y = E.syms[r.sym]; t = (T64 if M.bits == 64 else T32).get(r.type)
            if t is None: fail("relocation type %d" % r.type); continue
            C.seen("relocation_types", (M.bits, r.type))
            if y.sec == 0:
                nm = y.name
                if nm not in sy: fail("relocation against unknown symbol %s" % nm); continue
                v = sy[nm]
            elif y.sec == -1: v = y.value
            else: v = idx.get(y.sec, 0) + y.value
            sz, k = t
            if r.off + sz > len(d): fail("relocation at 0x%x+%d outside %s" % (r.off, sz, n)); continue
            a = int.from_bytes(d[r.off:r.off + sz], "little")
            if k == "va": x = v + a
            elif k == "rva": x = v + a - base
            elif k == "secrel": x = y.value + a
            elif k == "sec": x = y.sec + a
            else: x = v + a - (at[n] + r.off + k)
            d[r.off:r.off + sz] = (x & ((1 << 8 * sz) - 1)).to_bytes(sz, "little")
        mem[n] = bytes(d)
    return mem

def structure(M, E, C, fail):
    byname = {}
    for s in E.secs:
        if s.name in byname: fail("two sections named %s" % s.name)
        byname.setdefault(s.name, s)
    for n, S in M.segs.items():
        s = byname.get(S.out)
        if s is None: fail("section %s is missing" % S.out); continue
        if s.size != len(S.data): fail("section %s has 0x%x bytes, declared 0x%x" % (S.out, s.size, len(S.data)))
        if s.align != S.align: fail("section %s aligned %d, declared %d" % (S.out, s.align, S.align))
        want = {"code": 0x60000020, "data": 0xC0000040, "const": 0x40000040, "bss": 0xC0000080}[S.kind]
        if S.chars: want = want & 0xE0 | S.chars
        if s.chars & 0xFE0000E0 != want: fail("section %s (%s) has characteristics %08x" % (S.out, S.kind, s.chars))
    if E.machine != (0x8664 if M.bits == 64 else 0x14c): fail("machine %x" % E.machine)
    gl = {}
    for y in E.syms:
        if y and y.cls == 2:
            if y.name in gl: fail("external symbol %s twice" % y.name)
            gl[y.name] = y
        if y and y.cls == 3 and y.aux and y.sec > 0 and y.value == 0 and y.name == E.secs[y.sec - 1].name:
            ln, nr, nl = struct.unpack_from("<IHH", y.aux[0]); s = E.secs[y.sec - 1]
            if ln != s.size or nr != min(len(s.rel), 0xffff): fail("auxiliary record of section %s: length %x, %d relocations" % (s.name, ln, nr))
        if y and y.cls in (3, 6) and y.sec > 0 and y.name in M.syms and not y.aux:
            t = M.syms[y.name]
            if E.secs[y.sec - 1].name != M.segs[t.seg].out or y.value != t.off: fail("local symbol %s is %s+%x, declared %s+%x" % (y.name, E.secs[y.sec - 1].name, y.value, t.seg, t.off))
    for n in M.publics:
        s = M.syms[n]; y = gl.get(n)
        if y is None: fail("public %s is not in the symbol table" % n); continue
        sec = E.secs[y.sec - 1] if y.sec > 0 else None
        if sec is None or sec.name != M.segs[s.seg].out or y.value != s.off: fail("public %s is %s+0x%x, declared %s+0x%x" % (n, sec and sec.name, y.value, s.seg, s.off))
        C.count("publics")
    for n, v in M.pabs.items():
        y = gl.get(n)
        if y is None: fail("public constant %s is not in the symbol table" % n); continue
        if y.sec not in (-1, 0xffff) or (y.value - v) % (1 << 32): fail("public constant %s: section %d value %x, declared %d" % (n, y.sec, y.value, v))
        C.count("public_constants")
    for n, c in M.comms.items():
        y = gl.get(n)
        if y is None or y.sec != 0 or y.value != c.size: fail("common %s: %r, declared size %d" % (n, y, c.size))
    used = {r.sym for S in M.segs.values() for r in S.refs}
    for n in M.externs:
        y = gl.get(n)
        if y is not None and (y.sec != 0 or y.value != 0): fail("external %s: %r" % (n, y))
        if y is None and n in used: fail("external %s is missing" % n)
    for n in gl:
        if n not in M.publics and n not in M.comms and n not in M.externs and n not in M.pabs: fail("unexpected external symbol %s" % n)

def reallink(M, obj, d, C, fail):
    """lld-link accepts the object and its image holds the intended values"""
    b = M.bits
    ext = [".section .ext,\"dw\"\n"] + [".globl %s\n.org %d\n%s: .byte 1\n" % (n, 16 * i + 3, n) for i, n in enumerate(M.externs)]
    ext += [".globl %s\n.org %d\n%s: .byte 1\n" % (n, 0x2000 + 16 * i, n) for i, n in enumerate(["start__", "_start__"])]
    open(d + "/x.s", "w").write("".join(ext)); open(d + "/t.obj", "wb").write(obj)
    q = subprocess.run(["llvm-mc-18", "-triple=%s-pc-windows-msvc" % ("x86_64" if b == 64 else "i386"), "-filetype=obj", "-o", d + "/x.obj", d + "/x.s"], capture_output=True, text=True)
    if q.returncode: raise vf.HarnessError("llvm-mc failed: " + q.stderr[:300])
    q = subprocess.run(["lld-link-18" if shutil.which("lld-link-18") else "lld-link", "/nologo", "/entry:start__", "/subsystem:console", "/nodefaultlib", "/fixed", "/safeseh:no", "/align:8192", "/filealign:512", "/map:out.map", "/out:out.exe", "/ignore:4210", "t.obj", "x.obj", "/opt:noref,noicf", "/lldmap:o2.map"] + (["/largeaddressaware:no"] if b == 64 else []), cwd=d, capture_output=True, text=True)
    if q.returncode: fail("lld-link: " + (q.stderr + q.stdout)[:600]); return None
    img = open(d + "/out.exe", "rb").read(); pe = struct.unpack_from("<I", img, 60)[0]
    ns, = struct.unpack_from("<H", img, pe + 6); oh, = struct.unpack_from("<H", img, pe + 20)
    base = struct.unpack_from("<Q", img, pe + 24 + 24)[0] if b == 64 else struct.unpack_from("<I", img, pe + 24 + 28)[0]
    secs = []
    for i in range(ns):
        o = pe + 24 + oh + 40 * i; vs, va, rs, pr = struct.unpack_from("<IIII", img, o + 8); secs.append((va, vs, pr, rs))
    def at_va(va, n):
        for v, vs, pr, rs in secs:
            if v <= va < v + max(vs, rs): q = img[pr + va - v:pr + va - v + n]; return q + bytes(n - len(q))
        return None
    A = {}; sy = {}
    # /lldmap lists every input section: "Address Size Align Out In Symbol"
    for l in open(d + "/o2.map", errors="replace"):
        m = re.match(r"([0-9a-f]{8}) ([0-9a-f]{8})\s+\d+\s+(?:t\.obj|.*[/\\]t\.obj):\((.*)\)", l)
        if m: A[m[3]] = int(m[1], 16) + base
        m = re.match(r"([0-9a-f]{8}) ([0-9a-f]{8})\s+\d+\s{9,}(\S+)$", l)
        if m: sy[m[3]] = int(m[1], 16) + base
    return base, A, sy, at_va

def special(rng):
    """sections for the linker: COMDAT, INFO, weak externals, .drectve, .sxdata. -> source, options, expectation"""
    b = rng.choice([32, 64]); lang = rng.choice(["c", "stdcall", ""]) if b == 32 else ""; X = objgen.Sec(com={}, info={}, weak={}, seh=[], dir=[], procs={}, bits=b)
    o = ["-coff" if b == 32 else "-win64"] + [f for f in ("-zls", "-zlf", "-zlp", "-zze", "-zzs") if rng.random() < .3]
    safe = b == 32 and rng.random() < .6
    if safe: o.append("-safeseh")
    L = [".686\n.model flat%s" % (", " + lang if lang else "")] if b == 32 else []
    L.append("option casemap:none")
    def deco(n, args=0): return n if b == 64 or not lang else "_%s@%d" % (n, 4 * args) if lang == "stdcall" else "_" + n
    body = []; cs = []
    for i in range(rng.choice([0, 1, 2, 4])):
        n = "cd%d" % i + "x" * rng.choice([0, 0, 9]); cls = rng.choice(["CODE", "DATA", "BSS", "CONST"]); sel = rng.choice([1, 2, 3, 4, 6] + [5] * 3 if cs else [1, 2, 3, 4, 6]); a = rng.choice(cs) if sel == 5 else None
        d = bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 21]))); X.com[n] = (sel, a, d, cls)
        if sel != 5: cs.append(n)
        body.append(["%s segment comdat(%d%s) '%s'" % (n, sel, "," + a if a else "", cls), "public q%d\nq%d label byte" % (i, i)] + ([" db %d dup (?)" % len(d)] if cls == "BSS" else [" db " + ",".join(map(str, d))]) + ["%s ends" % n])
        X.procs[deco("q%d" % i) if lang != "stdcall" else "_q%d" % i] = n
    for i in range(rng.choice([0, 0, 1])): X.info["nf%d" % i] = rng.choice([3, 40]); body.append(["nf%d segment info" % i, " db %d dup (41h)" % X.info["nf%d" % i], "nf%d ends" % i])
    rng.shuffle(body) if not cs else None
    ps = []
    for i in range(rng.choice([1, 2, 4])):
        n = "fn%d" % i + "_long_name" * rng.choice([0, 0, 1]); k = rng.choice([0, 1, 3]) if lang else 0; vis = rng.choice(["export", "public", "private", "export"])
        ps.append([".code", "%s proc %s%s" % (n, vis, "".join((" " if j == 0 else ", ") + "v%d:dword" % j for j in range(k))), " ret", "%s endp" % n]); D = deco(n, k)
        if vis == "export": X.dir.append("-export:%s%s" % (n + "=" if "-zze" in o else "", D))
        if safe and rng.random() < .6: ps.append([".safeseh " + n]); X.seh.append(D)
        X.procs[D] = None if vis == "private" else ".text" if b == 32 else "*"
    ex = []
    if safe and rng.random() < .5: ex += ["handler proto%s" % (" :dword" if lang == "stdcall" else ""), ".safeseh handler"]; X.seh.insert(0, deco("handler", 1))
    if rng.random() < .5:
        for i in range(rng.choice([1, 2])): ex += ["extern alt%d:near" % i, "extern wk%d(alt%d):near" % (i, i)]; X.weak[("_" if lang else "") * (b == 32) + "wk%d" % i] = ("_" if lang else "") * (b == 32) + "alt%d" % i; ps.append([".code", " call wk%d" % i])
    u = ("_" if lang else "") * (b == 32); tg = [v[len(u):] for v in X.weak.values()] + [q[1].split()[0] for q in ps if len(q) > 2 and "private" not in q[1]]
    for i in range(rng.choice([0, 0, 1, 3]) if tg else 0): t = rng.choice(tg); ps.append(["alias <als%d> = <%s>" % (i, t)]); X.weak[u + "als%d" % i] = t
    libs = []
    for i in rng.sample(range(9), rng.choice([0, 0, 1, 3])): n = rng.choice(["lib%d.lib", "my lib%d.lib", "d\\l%d.lib"]) % i; ex.append("includelib " + n); libs.append('-defaultlib:"%s"' % n if " " in n else "-defaultlib:" + n)
    X.dir += libs; end = "end"
    if rng.random() < .5:
        f = next(iter([p[1].split() for p in ps if len(p) > 2])); end = "end " + f[0]
        D = deco(f[0], 0 if f[2:3] in (["export"], ["public"], ["private"]) and len(f) == 3 else len([w for w in f if ":" in w]))
        X.procs[D] = X.procs[D] or (".text" if b == 32 else "*")       # the entry has to be public
        X.dir.append("-entry:" + (D if "-zzs" in o or not lang or b == 64 else D[1:]))
    return "\n".join(L + ex + [l for q in body + ps for l in q] + [end]) + "\n", o, X

def judge_special(X, o, E, C, fail):
    S = {s.name: s for s in E.secs}; Y = {y.name: y for y in E.syms if y}; C.count("special_objects")
    def need(ok, m):
        if not ok: fail(m, "special")
    for n, (sel, a, d, cls) in X.com.items():
        s = S.get(n); need(s is not None and s.chars & 0x1000, "section %s isn't a COMDAT" % n)
        if s is None: return
        q = [y for y in E.syms if y and y.sec == s.i]; need(len(q) >= 2 and q[0].name == n and q[0].cls == 3 and len(q[0].aux) == 1, "COMDAT %s: first symbol isn't the section symbol with one auxiliary record" % n)
        if not (q and q[0].aux): return
        ln, nr, nl, ck, num, se = struct.unpack_from("<IHHIHB", q[0].aux[0]); want = zlib.crc32(d, 0xffffffff) ^ 0xffffffff
        need(ln == len(d) and se == sel, "COMDAT %s: length %d, selection %d" % (n, ln, se)); need(sel != 5 or num == S[a].i, "COMDAT %s is associated with section %d, not %d" % (n, num, sel == 5 and S[a].i))
        need(cls == "BSS" or ck == want, "COMDAT %s: checksum %x, data %x" % (n, ck, want)); C.case(("comdat", sel, cls, "-zls" in o), sample=n)
        need(cls == "BSS" or s.data == d, "COMDAT %s: data" % n)
    for n, k in X.info.items(): need(n in S and S[n].chars & 0x200 and S[n].size == k, "section %s isn't an INFO section of %d bytes" % (n, k)); C.case(("info", X.bits, "-zls" in o))
    for n, t in X.weak.items():
        y = Y.get(n); need(y is not None and y.cls == 105 and y.sec == 0 and len(y.aux) == 1, "%s isn't a weak external" % n)
        if y is not None and y.aux: i, = struct.unpack_from("<I", y.aux[0]); z = E.syms[i] if i < len(E.syms) else None; need(z is not None and (z.name == t or re.sub("^_|@.*", "", z.name) == t), "weak external %s resolves to %s, declared %s" % (n, z and z.name, t)); C.case(("weak", X.bits, "-zls" in o, "-zlf" in o, "-safeseh" in o))
    for n, sec in X.procs.items():
        y = Y.get(n)
        if sec is None: need(y is None and "-zlp" in o or y is not None and y.cls == 3, "private procedure %s" % n) if n not in X.seh else None; continue
        need(y is not None and y.cls == 2 and y.sec > 0 and (sec == "*" or E.secs[y.sec - 1].name == sec), "public %s: %r" % (n, y))
    f = Y.get("@feat.00"); need((f is not None and f.sec == -1 and f.value & 1) if "-safeseh" in o else f is None, "@feat.00: %r" % f)
    need((".file" in Y) == ("-zlf" not in o), ".file symbol")
    x = S.get(".sxdata"); need((x is not None) == bool(X.seh), ".sxdata %s" % ("missing" if X.seh else "unexpected"))
    if x and X.seh:
        g = [E.syms[i].name if i < len(E.syms) and E.syms[i] else i for i, in struct.iter_unpack("<I", x.data)]; need(g == X.seh, ".sxdata lists %r, declared %r" % (g, X.seh)); need(x.chars & 0x200, ".sxdata isn't an INFO section"); C.case(("sxdata", len(g), "-zlp" in o, "-zls" in o))
    d = S.get(".drectve"); g = d.data.decode("latin1").replace("\0", " ").strip() if d else ""
    need(g == " ".join(X.dir), ".drectve: %r, declared %r" % (g, " ".join(X.dir)))
    if d: need(d.chars & 0xA00 == 0xA00, ".drectve has characteristics %08x" % d.chars); C.case(("drectve", tuple(sorted({q.split(":")[0] for q in X.dir})), X.bits, "-zze" in o, "-zzs" in o))

def check():
    C = vf.Check("C15", "exploration", "a reference whose linked value (VA, image-relative, section-relative or PC-relative) was compared with its target's address; distinct by (format, segment kind, reference kind, size, addend sign, target kind)",
                 ["own COFF reader and linker; 10 % of the objects also linked with lld-link (acceptance and image)"])
    exe = vf.build("plain")
    N = 500 if not vf.THOROUGH else 12000
    jobs = [(C.rng.choice(["coff32", "coff64"]), random.Random(C.rng.getrandbits(64)), 0) for _ in range(N)]
    jobs += [(f, random.Random(C.rng.getrandbits(64)), n) for f in ("coff32", "coff64") for n in [-11, -10, -9]]
    def job(j):
        fmt, rng, big = j
        M = objgen.program(rng, fmt, big)
        return j, M, vf.asm(exe, M.src, ("-q", "-coff" if fmt == "coff32" else "-win64"), out="t.obj")
    def judge(x):
        (fmt, rng, big), M, r = x
        F = {"t.asm": M.src}; cmd = ["uasm", "-q", "-coff" if fmt == "coff32" else "-win64", "-Fo", "t.obj", "t.asm"]
        if r.rc != 0 or "t.obj" not in r.files:
            C.violation("rejected:%s:%s" % (fmt, (r.errors() or [(0, 0, 0, "?")])[0][3]), "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), F, cmd); return
        F["t.obj"] = r.files["t.obj"]
        fail = lambda m, k="structure": C.violation("%s:%s" % (k, fmt), m, F, cmd)
        try: E = objread.coff(r.files["t.obj"])
        except (objread.Bad, struct.error) as e: fail("not a valid COFF object: %s" % e, "malformed"); return
        n0 = len(C.viol); structure(M, E, C, fail)
        if len(C.viol) > n0: return
        def compare(at, sy, mem, what, res=None):
            res = res or resolver(M, at, sy)
            for n in M.segs:
                S = M.segs[n]
                if S.kind == "bss" or n not in mem: continue
                def onref(q, got, want):
                    t = M.syms[q.sym]; tk = "ext" if q.sym in M.externs else "comm" if q.sym in M.comms else ("pub" if q.sym in M.publics else "loc") + ("same" if t.seg == n else "other")
                    C.case((fmt, S.kind, q.kind, q.size, (q.add > 0) - (q.add < 0), tk, t.kind), sample="%s: %s+%x -> %s%+d = %x" % (fmt, n, q.off, q.sym, q.add, want))
                    if got != want: C.violation("value:%s:%s" % (fmt, q.kind), "%s: %s+0x%x refers to %s%+d: linked value 0x%x, expected 0x%x (%s)" % (what, n, q.off, q.sym, q.add, got, want, q.kind), F, cmd)
                e = objgen.check_image(M, n, mem[n], at[n], res, onref)
                if e: C.violation("bytes:%s" % fmt, "%s: section %s: %s" % (what, n, e), F, cmd)
        at, sy = place(rng, M)
        compare(at, sy, link(M, E, at, sy, C, fail), "own linker")
        C.count("objects")
        if rng.random() < .1 and not any(e.kind == "abs" for e in M.externs.values()):
            d = vf.newdir(); l = reallink(M, r.files["t.obj"], d, C, lambda m: fail(m, "lld"))
            shutil.rmtree(d)
            if l:
                base, A, sy, at_va = l; C.count("linked_with_lld")
                at = {n: A[S.out] for n, S in M.segs.items() if S.out in A}
                mem = {n: at_va(at[n] - base, len(M.segs[n].data)) for n in at}
                mem = {n: m for n, m in mem.items() if m is not None}
                def res(q, S, addr):
                    t = M.syms[q.sym]
                    if t.seg is None and q.sym not in sy or t.seg and t.seg not in at or q.kind == "secrel": return None
                    v = (sy[q.sym] if t.seg is None else at[t.seg] + t.off) + q.add
                    return v - (addr + q.end) if q.kind == "pc" else v - base if q.kind == "rva" else v
                C.count("sections_compared_in_lld_image", len(mem))
                compare(at, sy, mem, "lld-link", res)
    vf.pmap(judge, vf.pmap(job, jobs))
    sp = [special(C.rng) for _ in range(400 if not vf.THOROUGH else 8000)]
    def one(x):
        src, o, X = x; r = vf.asm(exe, src, ("-q", *o), out="t.obj"); F = {"t.asm": src}; cmd = ["uasm", "-q", *o, "-Fo", "t.obj", "t.asm"]
        if r.rc != 0 or "t.obj" not in r.files: C.violation("rejected:special:%s" % (r.errors() or [(0, 0, 0, "?")])[0][3], "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), F, cmd); return
        F["t.obj"] = r.files["t.obj"]; fail = lambda m, k="special": C.violation("%s:%d:%s" % (k, X.bits, re.sub(r"[0-9'].*", "", m)), m, F, cmd)
        try: E = objread.coff(r.files["t.obj"])
        except (objread.Bad, struct.error, IndexError) as e: fail("not a valid COFF object: %s" % e, "malformed"); return
        judge_special(X, o, E, C, fail)
    vf.pmap(one, sp)
    return C.finish(100)
if __name__ == "__main__": vf.main(check)
