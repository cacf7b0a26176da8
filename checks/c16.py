#!/usr/bin/env python3
"""C16: OMF modules are valid record streams that load to the intended image."""
import os, random, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objgen, objread

def place(rng, M):
    """linear base of every segment (any multiple of its alignment), frame and offset of every external"""
    a = rng.randrange(0x40, 0x400) * 16; at = {}; order = list(M.segs)
    for n in order:
        S = M.segs[n]; al = S.align; a += rng.choice([0, 0, 16, 48, rng.randrange(64)]); a = -(-a // al) * al; at[n] = a; a += len(S.data)
    fr = {n: (0 if M.bits == 32 else at[n] >> 4) for n in order}
    grp = None
    if M.group:
        grp = min(at[n] for n in M.group[1]) >> 4
        for n in M.group[1]: fr[n] = grp
    ex = {}
    for n in list(M.externs) + list(M.comms):
        ab = n in M.externs and M.externs[n].kind == "abs"
        f = 0 if M.bits == 32 or ab else rng.randrange(0x40, 0xf000)
        ex[n] = (f, rng.getrandbits(16 if M.bits == 16 else 30))
    return at, fr, grp, ex

def load(M, O, at, fr, grp, ex, C, fail):
    name2 = {}
    for i, s in enumerate(O.segs):
        if s: name2[i] = s.name
    def gframe(i): return 0 if O.grps[i].name == "FLAT" else grp
    segname = {i: n for i, n in name2.items()}
    mem = {}
    ownfr = lambda n: 0 if M.bits == 32 else at[n] >> 4
    for i, s in enumerate(O.segs):
        if not s or s.name not in M.segs: continue
        d = bytearray(s.data); loc0 = at[s.name]; done = set()
        for f in s.fix:
            for b in range(f.off, f.off + f.size):
                if b in done: fail("two fixups for byte 0x%x of %s" % (b, s.name))
                done.add(b)
            tk, ti = f.target
            if tk == 0: T = at[segname[ti]] + f.disp; tf = ownfr(segname[ti])
            elif tk == 1:
                if gframe(ti) is None: fail("target group %s" % O.grps[ti].name); continue
                T = gframe(ti) * 16 + f.disp; tf = gframe(ti)
            else:
                n = O.exts[ti].name
                if n not in ex: fail("fixup to unknown external %s" % n); continue
                T = ex[n][0] * 16 + ex[n][1] + f.disp; tf = ex[n][0]
            m, fi = f.frame
            if m == 0: F = ownfr(segname[fi])
            elif m == 1: F = gframe(fi)
            elif m == 2: F = ex[O.exts[fi].name][0]
            elif m == 4: F = ownfr(s.name)
            else: F = tf
            if F is None: fail("frame group"); continue
            C.seen("fixups", (M.bits, f.loc, f.segrel, m, tk))
            get = lambda o, z: int.from_bytes(d[f.off + o:f.off + o + z], "little")
            def put(o, z, v): d[f.off + o:f.off + o + z] = (v & ((1 << 8 * z) - 1)).to_bytes(z, "little")
            if not f.segrel:
                z = f.size
                if f.loc not in (0, 1, 5, 9, 13): fail("self-relative fixup of location type %d" % f.loc); continue
                put(0, z, get(0, z) + T - (loc0 + f.off + z))
            elif f.loc in (0,): put(0, 1, get(0, 1) + T - F * 16)
            elif f.loc in (1, 5): put(0, 2, get(0, 2) + T - F * 16)
            elif f.loc in (9, 13): put(0, 4, get(0, 4) + T - F * 16)
            elif f.loc == 2: put(0, 2, get(0, 2) + F)
            elif f.loc == 3: put(0, 2, get(0, 2) + T - F * 16); put(2, 2, get(2, 2) + F)
            elif f.loc == 11: put(0, 4, get(0, 4) + T - F * 16); put(4, 2, get(4, 2) + F)
            elif f.loc == 4: put(0, 1, get(0, 1) + ((T - F * 16) >> 8))
        mem[s.name] = bytes(d)
    return mem

def structure(M, O, C, fail):
    by = {}
    for s in O.segs[1:]:
        if s.name in by: fail("segment %s defined twice" % s.name)
        by[s.name] = s
    for n, S in M.segs.items():
        s = by.get(n)
        if s is None: fail("segment %s is missing" % n); continue
        if s.length != len(S.data): fail("segment %s has 0x%x bytes, declared 0x%x" % (n, s.length, len(S.data)))
        al = S.align if hasattr(S, "cls") else {"code": 4, "data": 4, "const": 4, "bss": 4}[S.kind] if ".486" not in M.src and ".686" not in M.src else 16
        if s.align != al: fail("segment %s aligned %d, declared %d" % (n, s.align, al))
        if hasattr(S, "cls"):
            if s.cls != S.cls: fail("segment %s has class %s, declared %s" % (n, s.cls, S.cls))
            w = {"public": 2, "private": 0, "stack": 5, "common": 6}[S.combine]
            if s.combine != w: fail("segment %s has combine type %d, declared %s" % (n, s.combine, S.combine))
        if s.use32 != (M.bits == 32): fail("segment %s: use32=%d" % (n, s.use32))
        for i in range(len(S.data)):
            if S.mask[i] == 1 and not s.mask[i] and S.data[i]: fail("byte 0x%x of %s is in no record" % (i, n)); break
        else:
            if S.kind == "bss" and any(s.mask): fail("data record for the BSS segment %s" % n)
    if M.group:
        g = [x for x in O.grps[1:] if x.name == "GRP"]
        if len(g) != 1 or [O.segs[i].name for i in g[0].segs] != M.group[1]: fail("group GRP: %r" % (g,))
    got = {}
    for p in O.pubs:
        if p.name in got: fail("public %s twice" % p.name)
        got[p.name] = p
        if p.name not in M.publics and p.name not in M.pabs: fail("unexpected public %s" % p.name)
    for n in M.publics:
        p = got.get(n); s = M.syms[n]
        if p is None: fail("public %s is missing" % n); continue
        if O.segs[p.seg] is None or O.segs[p.seg].name != s.seg or p.value != s.off: fail("public %s is %s+0x%x, declared %s+0x%x" % (n, O.segs[p.seg] and O.segs[p.seg].name, p.value, s.seg, s.off))
        if M.group:
            want = "GRP" if s.seg in M.group[1] else None
            if (O.grps[p.grp].name if p.grp else None) != want: fail("public %s has group %r, declared %s" % (n, p.grp, want))
        C.count("publics")
    for n, v in M.pabs.items():
        p = got.get(n)
        if p is None: fail("public constant %s is missing" % n); continue
        if p.seg or p.grp or (p.value - v) % (1 << M.bits): fail("public constant %s: segment %r value %x, declared %d" % (n, p.seg, p.value, v))
        C.count("public_constants")
    e = {x.name: x for x in O.exts[1:]}
    if len(e) != len(O.exts) - 1: fail("external defined twice")
    used = {r.sym for S in M.segs.values() for r in S.refs}
    for n, c in M.comms.items():
        if n not in e or e[n].kind != "comm" or e[n].size != c.size: fail("common %s: %r" % (n, e.get(n)))
    for n in M.externs:
        if n in used and (n not in e or e[n].kind != "ext"): fail("external %s is missing" % n)
    for n in e:
        if n not in M.externs and n not in M.comms: fail("unexpected external %s" % n)
    if bool(M.entry) != bool(O.modend): fail("entry point: %s in MODEND, declared %s" % (O.modend, M.entry))
    if M.entry and O.modend:
        s = M.syms[M.entry]; t, i = O.modend.target
        if t != 0 or O.segs[i].name != s.seg or O.modend.disp != s.off: fail("entry point %r, declared %s+0x%x" % (O.modend, s.seg, s.off))
        C.count("entry_points")

def special(rng):
    """records for the linker: libraries, exports, weak externals, aliases, DOSSEG. -> source, options, expectation"""
    b = rng.choice([16, 32]); lang = rng.choice(["", "c", "stdcall", "pascal"]); X = objgen.Sec(libs=[], exps=[], weak={}, alias={}, dosseg=rng.random() < .3)
    def deco(n, k=0): return n if not lang else n.upper() if lang == "pascal" else "_%s@%d" % (n, k * b // 8) if lang == "stdcall" else "_" + n
    und = lambda n: deco(n) if lang != "stdcall" else "_" + n
    o = ["-omf"] + (["-zze"] if rng.random() < .2 else [])
    L = [".686" if b == 32 else ".286", ".model %s%s" % ("flat" if b == 32 else "small", ", " + lang if lang else ""), "option casemap:none"] + ([".dosseg"] if X.dosseg else [])
    body = []; pub = []
    for i in range(rng.choice([0, 1, 3, 40])):
        n = "fn%d" % i + "_longer" * rng.choice([0, 0, 3]); k = rng.choice([0, 1, 3, 33]) if lang else 0; vis = rng.choice(["export", "public", "private"])
        body.append([".code", "%s proc %s%s" % (n, "far export" if b == 16 and vis == "export" else vis, "".join((" " if j == 0 else ", ") + "v%d:%s" % (j, "dword" if b == 32 else "word") for j in range(k))), " ret", "%s endp" % n])
        if vis == "export": X.exps.append((k & 31, n if "-zze" in o else deco(n, k)))
        if vis != "private" and k == 0 and (b == 32 or vis == "public"): pub.append(n)
    tg = list(pub); ne = rng.choice([0, 1, 3, 130])
    for i in range(ne): L.append("extern xt%d:near" % i); body.append([".code", " call xt%d" % i]); tg.append("xt%d" % i)
    D = lambda n: und(n) if n[0] == "x" else deco(n)
    for i in range(rng.choice([0, 1, 4]) if tg else 0): t = rng.choice(tg); L.append("extern wk%d(%s):near" % (i, t)); X.weak[und("wk%d" % i)] = D(t); body.append([".code", " call wk%d" % i])
    for i in range(rng.choice([0, 1, 4]) if tg else 0): t = rng.choice(tg); body.append(["alias <als%d> = <%s>" % (i, t)]); X.alias[und("als%d" % i)] = D(t)
    for i in rng.sample(range(9), rng.choice([0, 0, 1, 3])): n = rng.choice(["lib%d.lib", "a/longer/path/l%d", "l%d"]) % i; L.append("includelib " + n); X.libs.append(n)
    return "\n".join(L + [l for q in body for l in q] + ["end"]) + "\n", o, X

def judge_special(X, o, O, C, fail):
    C.count("special_modules"); pick = lambda c: [d for a, k, d in O.coments if k == c]
    def cmp(what, got, want): (fail("%s: %r, declared %r" % (what, got, want), "special") if got != want else C.case((what, want is True or min(len(want), 3), "-zze" in o), sample=repr(want)[:60]) if want else None)
    cmp("default libraries", [d.decode("latin1") for d in pick(0x9F)], X.libs)
    ex = []
    for d in pick(0xA0):
        if d[0] == 2: n = d[2]; ex.append((d[1], d[3:3 + n].decode("latin1"))); (fail("EXPDEF size: %r" % d, "special") if len(d) != n + 4 or d[-1] else 0)
    cmp("exports", ex, X.exps); cmp("DOSSEG", bool(pick(0x9E)), X.dosseg); wk = {}
    for d in pick(0xA8):
        v = []; p = 0
        while p < len(d):
            if d[p] & 0x80: v.append((d[p] & 127) << 8 | d[p + 1]); p += 2
            else: v.append(d[p]); p += 1
        if len(v) % 2 or any(not 0 < i < len(O.exts) for i in v): fail("WKEXT %r, %d externals" % (v, len(O.exts) - 1), "special"); return
        for i in range(0, len(v), 2): wk[O.exts[v[i]].name] = O.exts[v[i + 1]].name
    cmp("weak externals", wk, X.weak); cmp("aliases", dict(O.aliases), X.alias)

def check():
    C = vf.Check("C16", "exploration", "a reference whose value after loading the module was compared with its target's address; distinct by (word size, segment kind, reference kind, size, addend sign, target kind, crosses segment)",
                 ["own OMF record reader and loader written from the OMF specification"])
    exe = vf.build("plain")
    N = 600 if not vf.THOROUGH else 15000
    jobs = [(C.rng.choice(["omf16", "omf16", "omf32"]), random.Random(C.rng.getrandbits(64)), 0) for _ in range(N)]
    jobs += [(f, random.Random(C.rng.getrandbits(64)), n) for f in ("omf16", "omf32") for n in C.rng.sample([200, 255, 256, 340, 341, 512, 513, 1000, 1023, 1024, 1025, 2047, 3000, 9000], 8 if not vf.THOROUGH else 14)]
    def job(j):
        fmt, rng, big = j
        M = objgen.program(rng, fmt, big)
        return j, M, vf.asm(exe, M.src, ("-q", "-omf"), out="t.obj")
    def judge(x):
        (fmt, rng, big), M, r = x
        F = {"t.asm": M.src}; cmd = ["uasm", "-q", "-omf", "-Fo", "t.obj", "t.asm"]
        if any(len(S.data) > 0xffff for S in M.segs.values()) and M.bits == 16: return
        if r.rc != 0 or "t.obj" not in r.files:
            C.violation("rejected:%s:%s" % (fmt, (r.errors() or [(0, 0, 0, "?")])[0][3]), "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), F, cmd); return
        F["t.obj"] = r.files["t.obj"]
        fail = lambda m, k="structure": C.violation("%s:%s" % (k, fmt), m, F, cmd)
        try: O = objread.omf(r.files["t.obj"])
        except objread.Bad as e: fail("not a valid OMF module: %s" % e, "malformed"); return
        C.count("records", len(O.records))
        for t, d in O.records: C.seen("record_types", "%02X" % t)
        n0 = len(C.viol); structure(M, O, C, fail)
        if len(C.viol) > n0: return
        at, fr, grp, ex = place(rng, M)
        mem = load(M, O, at, fr, grp, ex, C, fail)
        def res(r, S, addr):
            s = M.syms[r.sym]
            if s.seg is None: f, o = ex[r.sym]; lin = f * 16 + o
            else: f = fr[s.seg]; lin = at[s.seg] + s.off; o = lin - f * 16
            if r.kind == "pc": return lin + r.add - (addr + r.end)
            if r.kind == "seg": return f
            if r.kind == "far": return ((o + r.add) & 0xffff) | (f & 0xffff) << 16
            return o + r.add
        for n in M.segs:
            S = M.segs[n]
            if S.kind == "bss" or n not in mem: continue
            def onref(q, got, want):
                t = M.syms[q.sym]; tk = "ext" if q.sym in M.externs else "comm" if q.sym in M.comms else ("pub" if q.sym in M.publics else "loc") + ("same" if t.seg == n else "other") + ("grp" if M.group and t.seg in M.group[1] else "")
                C.case((fmt, S.kind, q.kind, q.size, (q.add > 0) - (q.add < 0), tk, t.kind), sample="%s: %s+%x -> %s%+d = %x" % (fmt, n, q.off, q.sym, q.add, want))
                if got != want: C.violation("value:%s:%s" % (fmt, q.kind), "%s+0x%x refers to %s%+d: loaded value 0x%x, expected 0x%x (%s)" % (n, q.off, q.sym, q.add, got, want, q.kind), F, cmd)
            e = objgen.check_image(M, n, mem[n], at[n], res, onref)
            if e: C.violation("bytes:%s" % fmt, "segment %s: %s" % (n, e), F, cmd)
        C.count("objects")
    vf.pmap(judge, vf.pmap(job, jobs))
    sp = [special(C.rng) for _ in range(400 if not vf.THOROUGH else 8000)]
    def one(x):
        src, o, X = x; r = vf.asm(exe, src, ("-q", *o), out="t.obj"); F = {"t.asm": src}; cmd = ["uasm", "-q", *o, "-Fo", "t.obj", "t.asm"]
        if r.rc != 0 or "t.obj" not in r.files: C.violation("rejected:special:%s" % (r.errors() or [(0, 0, 0, "?")])[0][3], "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), F, cmd); return
        F["t.obj"] = r.files["t.obj"]; fail = lambda m, k="special": C.violation("%s:%s" % (k, re.sub(r"[0-9'].*", "", m)), m[:600], F, cmd)
        try: O = objread.omf(r.files["t.obj"])
        except (objread.Bad, struct.error, IndexError) as e: fail("not a valid OMF module: %s" % e, "malformed"); return
        judge_special(X, o, O, C, fail)
    vf.pmap(one, sp)
    return C.finish(60)
if __name__ == "__main__": vf.main(check)
