#!/usr/bin/env python3
"""C26: names resolve in the right scope and are decorated as the convention says."""
import os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objread
KEYS = "xchg lea aaa daa lahf sahf bound into cwde xlatb stc cmc repne substr sizestr purge name comm echo subtitle opattr".split()
LANGS = ["c", "stdcall", "pascal", "fastcall", "syscall", "vectorcall", "basic", "fortran"]
FIRST = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_?$@"; REST = FIRST + "0123456789"

def recase(rng, n): return "".join(rng.choice([c.upper(), c.lower()]) for c in n)

# ---------------------------------------------------------------- scopes
def scopes(rng, fault=None):
    """32-bit flat program of labels, procedures, anonymous labels, macro locals
    with a byte model; fault: None, 'undef' or 'dup': lines that must be refused"""
    cs = rng.random() < .6; L = []; out = []; fix = []; bad = []; F = {"refs": 0, "loc": 0, "shadow": 0, "anon": 0, "mac": 0, "stack": 0}
    L += [".686", ".model flat, " + rng.choice(["stdcall", "c"]), "option casemap:" + ("none" if cs else rng.choice(["all", "notpublic"])), "option prologue:none, epilogue:none"]
    off = rng.sample(KEYS, rng.choice([0, 2, 5])); ren = {}
    if off: L.append("option nokeyword:<%s>" % " ".join(off))
    if rng.random() < .4:
        k = rng.choice([x for x in ("bswap", "cpuid", "cdq") if x not in off]); ren = {k: "zz_" + k}; L.append("option renamekeyword:<%s>=zz_%s" % (k, k)); off.append(k)
    enc = {"bswap": (" zz_bswap eax", b"\x0f\xc8"), "cpuid": (" zz_cpuid", b"\x0f\xa2"), "cdq": (" zz_cdq", b"\x99")}
    pool = ["n%d" % i for i in range(1, rng.choice([4, 8, 14]))] + off
    pool += ["_q", "?w1", "@at", "$d1", "L" * 240 + "a", "L" * 240 + "b"][:rng.choice([0, 3, 6])]
    pool += [p.upper() for p in pool if p.islower() and p not in off and rng.random() < .5] if cs else []
    pool = list(dict.fromkeys(pool)); key = (lambda n: n) if cs else str.lower
    sp = (lambda n: n) if cs else (lambda n: recase(rng, n) if rng.random() < .5 else n)
    glob = {}      # key -> ("off", pos) | ("const", v) | ("data", pos)
    anon = []; pos = [0]; fields = {}
    if rng.random() < .5:
        o = 0; L.append("S_1 struct")
        for n in rng.sample(pool, min(len(pool), 4)): L.append(" %s dd ?" % n); fields[n] = o; o += 4
        L.append("S_1 ends")
    L += ["mloc macro p1, deep", " local lb1, lb2", " lb1: nop", " dd lb1, lb2, p1", " if deep", "  mloc p1+1, deep-1", " endif", " lb2: nop", " dd lb1", " endm"]
    L.append(".code")
    def emit(b): out.append(b); pos[0] += len(b)
    def ref(kind, name, sc, an):
        """reference resolved after everything is known; kind dd | call | mov"""
        fix.append((len(out), kind, name, sc, an, len(L)));
    def macexp(v, d):
        a = pos[0]; emit(b"\x90"); i = len(out); emit(bytes(12))
        if d: macexp(v + 1, d - 1)
        b = pos[0]; emit(b"\x90"); out[i] = struct.pack("<III", a, b, v & 0xffffffff); emit(struct.pack("<I", a))
    N = rng.choice([6, 15, 40, 90]); procs = 0; cur = None; allscopes = []
    unused = lambda: [n for n in pool if key(n) not in glob]
    for step in range(N):
        inproc = cur is not None; k = rng.random()
        if not inproc and k < .25 or step == 0:
            free = unused()
            nm = rng.choice(free) if free and rng.random() < .4 else "proc_%d" % procs
            procs += 1; cur = {"name": nm, "loc": {}, "stk": {}}; allscopes.append(cur); glob[key(nm)] = ("off", pos[0])
            cand = [n for n in unused()]; rng.shuffle(cand); ps = cand[:rng.choice([0, 0, 1, 3])] if rng.random() < .8 else []
            if not cs: ps = list({key(p): p for p in ps}.values())
            L.append("%s proc%s" % (nm, "".join("%s %s:dword" % ("," if i else "", p) for i, p in enumerate(ps))))
            for i, p in enumerate(ps): cur["stk"][key(p)] = 8 + 4 * i
            ls = [n for n in cand if n not in ps and key(n) not in cur["stk"]][:rng.choice([0, 0, 1, 2])]
            if not cs: ls = list({key(p): p for p in ls}.values())
            for i, p in enumerate(ls): L.append(" local %s:dword" % p); cur["stk"][key(p)] = -4 * (i + 1)
        elif inproc and k < .12: L.append("%s endp" % sp(cur["name"])); cur = None
        elif k < .36:
            # a label
            cand = [n for n in unused() if not inproc or key(n) not in cur["loc"] and key(n) not in cur["stk"]]
            if not cand: continue
            n = rng.choice(cand)
            if inproc and rng.random() < .75: cur["loc"][key(n)] = pos[0]; L.append(" %s: nop" % n); F["loc"] += 1; emit(b"\x90")
            elif rng.random() < .25: glob[key(n)] = ("const", rng.getrandbits(20)); L.append(" %s %s %d" % (n, rng.choice(["equ", "="]) if not inproc else "equ", glob[key(n)][1]))
            elif rng.random() < .3: glob[key(n)] = ("data", pos[0]); v = rng.getrandbits(31); L.append(" %s dd %d" % (n, v)); emit(struct.pack("<I", v))
            else: glob[key(n)] = ("off", pos[0]); L.append(" %s%s nop" % (n, "::" if inproc or rng.random() < .3 else ":")); emit(b"\x90")
        elif k < .46: anon.append((pos[0], cur)); L.append(" @@: nop"); emit(b"\x90")
        elif k < .54:
            v = rng.getrandbits(16); d = rng.choice([0, 0, 1, 3]); L.append(" mloc %d, %d" % (v, d)); macexp(v, d); F["mac"] += 1
        elif k < .58 and ren:
            t, b = enc[list(ren)[0]]; L.append(t); emit(b)
        elif k < .62 and fields:
            n = rng.choice(list(fields)); L.append(" mov eax, [ebx].S_1.%s" % (n if cs else n)); emit(b"\x8b\x43" + bytes([fields[n]]) if fields[n] else b"\x8b\x03")
        else:
            kind = rng.choice(["dd", "dd", "call", "mov", "stk"])
            if kind == "stk":
                if not (inproc and cur["stk"]): continue
                kk = rng.choice(list(cur["stk"])); n = [p for p in pool if key(p) == kk][0]; L.append(" mov eax, %s" % sp(n)); emit(b"\x8b\x45" + struct.pack("b", cur["stk"][kk])); F["stack"] += 1; continue
            if rng.random() < .25:
                w = rng.choice(["@F", "@B", "@f", "@b"])
                if w[1] in "bB" and not anon: continue
                L.append(" %s %s" % ("dd" if kind == "mov" else kind, w)); ref("dd" if kind == "mov" else kind, w, cur, len(anon)); emit(bytes(5 if kind == "call" else 4)); continue
            n = rng.choice(pool); L.append(" dd 0"); ref(kind, n, cur, None); emit(bytes(5 if kind != "dd" else 4))
    if cur: L.append("%s endp" % cur["name"]); cur = None
    L.append(" @@: nop"); anon.append((pos[0], None)); emit(b"\x90")
    # resolve: the generator wrote placeholders for the named references
    for i, kind, n, sc, an, ln in fix:
        at = sum(len(x) for x in out[:i]) if 0 else None
    at = [0]
    for x in out: at.append(at[-1] + len(x))
    und = []
    for i, kind, n, sc, an, ln in fix:
        if an is not None:
            v, own = anon[an] if n[1] in "fF" else anon[an - 1]
            if own is not None and own is not sc: L[ln - 1] = " dd 0" if kind == "dd" else " db 5 dup (0)"; continue     # an anonymous label of a procedure is local, too
            F["anon"] += 1
        else:
            kk = key(n); t = None
            if sc and kk in sc["stk"]: kk = None
            elif sc and kk in sc["loc"]: t = ("off", sc["loc"][kk]); F["shadow"] += kk in glob
            elif kk in glob: t = glob[kk]
            if t is None or kind == "call" and t[0] != "off" or kind == "mov" and t[0] != "data":
                # not usable here: a constant of the same size instead
                und.append((i, kind, n, sc, ln)) if kk is not None and t is None else 0
                L[ln - 1] = " dd 0" if kind == "dd" else " db 5 dup (0)"; continue
            L[ln - 1] = {"dd": " dd %s", "call": " call %s", "mov": " mov eax, %s"}[kind] % sp(n); v = t[1]; F["refs"] += 1
        out[i] = b"\xe8" + struct.pack("<i", v - at[i] - 5) if kind == "call" else b"\xa1" + struct.pack("<I", v) if kind == "mov" else struct.pack("<I", v)
    if fault == "undef":
        for i, kind, n, sc, ln in rng.sample(und, min(len(und), 3)):
            L[ln - 1] = {"dd": " dd %s", "call": " call %s", "mov": " mov eax, offset %s"}[kind] % n; bad.append(ln)
        if not bad: L.append(" dd no_such_name"); bad.append(len(L))
    if fault == "dup":
        g = [(k2, n) for n in pool for k2 in [key(n)] if k2 in glob]
        for k2, n in rng.sample(g, min(len(g), 2)):
            t = rng.choice([" %s: nop", " %s dd 5", " %s label near"]); L.append(t % sp(n)); bad.append(len(L))
        if not bad: L += [" dupl: nop", " dupl: nop"]; bad.append(len(L))
    F["case"] = cs; F["kw"] = len(off)
    return "\n".join(L) + "\nend\n", b"".join(out), bad, F

# ---------------------------------------------------------------- population
def population(rng, n):
    cs = rng.random() < .5; names = {}; L = [".686", "option casemap:%s" % ("none" if cs else "all")]
    while len(names) < n:
        k = rng.random()
        if names and k < .3: b = rng.choice(lastn); nm = b[:-1] + rng.choice(REST) if rng.random() < .5 else recase(rng, b) if cs else b + rng.choice(REST)
        else: nm = rng.choice(FIRST) + "".join(rng.choice(REST) for _ in range(rng.choice([3, 5, 8, 20, 60, 200, 246]))) + "_"
        nm = nm[:247]
        kk = nm if cs else nm.lower()
        if kk in names or len(nm) < 4 or nm[:2] == "@@": continue
        names[kk] = (nm, rng.getrandbits(31)); lastn = (lastn if len(names) > 1 else []) + [nm]
    it = list(names.values()); rng.shuffle(it); L.append("_D segment use32 'DATA'"); exp = b""; late = it[:n // 10]; it2 = it[n // 10:]; pos = {}
    for nm, v in it2:
        if rng.random() < .5: L.append("%s equ %d" % (nm, v)); pos[nm] = v
        else: pos[nm] = len(exp); L.append("%s dd %d" % (nm, v)); exp += struct.pack("<I", v)
    refs = rng.sample(it, min(len(it), 3000)); hole = []
    for nm, v in refs: L.append(" dd " + (nm if cs else recase(rng, nm) if rng.random() < .6 else nm)); hole.append((len(exp), nm)); exp += bytes(4)
    for nm, v in late: pos[nm] = len(exp); L.append("%s dd %d" % (nm, v)); exp += struct.pack("<I", v)
    b = bytearray(exp)
    for o, nm in hole: b[o:o + 4] = struct.pack("<I", pos[nm])
    return "\n".join(L + ["_D ends", "end"]) + "\n", bytes(b), len(hole)

# ---------------------------------------------------------------- decoration
def deco(name, lang, isproc, size, bits, O, lab=0):
    if O["macho"]: return name
    if lang == "c": return name if O["zcw"] else "_" + name
    if lang == "stdcall": return name if O["zt"] == 0 else "_%s@%d" % (name, size) if isproc and O["zt"] == 2 else "_" + name
    if lang in ("pascal", "basic", "fortran"): return name.upper()
    if lang in ("fastcall", "vectorcall") and bits == 32 and O["zf"]: return name + "_" if isproc or lab else "_" + name   # Watcom
    if lang == "vectorcall" and isproc and O["zv"] == 2: return "%s@@%d" % (name, size)
    if lang == "fastcall" and isproc and bits == 32: return "@%s@%d" % (name, size)
    if lang == "vectorcall" and isproc and bits == 32: return "@%s@%d" % (name, size)
    return name

def decorated(rng, fmt):
    bits = 64 if fmt.endswith("64") else 32; W = bits // 8; head = []; D = []; T = []; tail = []; opts = []; O = {"macho": fmt == "macho64", "zcw": 0, "zt": 2, "zv": 2, "zf": 0}
    dl = rng.choice([None, "c", "stdcall", "syscall"] + (["pascal", "fastcall", "basic", "fortran"] if bits == 32 else []))
    if bits == 32:
        head.append(".686\n.xmm"); how = rng.choice(["model", "option", "cmd"]) if dl in ("c", "stdcall", "pascal", "fastcall") else rng.choice(["model", "option"])
        head.append(".model flat" + (", " + dl if dl and how == "model" else ""))
        if dl and how == "option": head.append("option language:" + dl)
        if dl and how == "cmd": opts.append({"c": "-Gd", "stdcall": "-Gz", "pascal": "-Gc", "fastcall": "-Gr"}[dl])
    else:
        dl = "fastcall"
    upper = fmt == "omf" and rng.random() < .3
    if upper: opts += rng.choice([[], ["-Cu"]]); head += [] if opts and opts[-1] == "-Cu" else ["option casemap:all"]
    else: head.append("option casemap:none")
    head.append("option prologue:none, epilogue:none")
    if rng.random() < .3: O["zcw"] = 1; opts.append("-zcw")
    if rng.random() < .4: O["zt"] = rng.randrange(3); opts.append("-zt%d" % O["zt"])
    if rng.random() < .4: O["zv"] = rng.randrange(3); opts.append("-zv%d" % O["zv"])
    if bits == 32 and rng.random() < .3: O["zf"] = 1; opts.append("-zf1")
    priv = rng.random() < .2
    if priv: head.append("option proc:private")
    G = {}; E = {}; P = {}; nid = [0]
    def nm(p): nid[0] += 1; return rng.choice(["%s%d", "%s_Mixed%d", "_%s%d", "%s_a_much_longer_name_than_eight_%d"]) % (p, nid[0])
    def mark(): nid[0] += 1; return 0x5a000000 + rng.getrandbits(16) * 256 + nid[0] % 256
    def lang(): return rng.choice([None, None] + LANGS)
    def full(n, l, isproc, size, lab=0):
        r = deco(n, l or dl, isproc, size, bits, O, lab); return r.upper() if upper else r
    TY = [("byte", 1), ("word", 2), ("dword", 4), ("sdword", 4), ("ptr", W), ("ptr byte", W)] + [("qword", 8)]
    def args(vec=0):
        a = [rng.choice(TY) for _ in range(rng.choice([0, 1, 2, 3, 5]))]; return [x[0] for x in a], sum((x[1] + W - 1) // W * W for x in a)
    kinds = []
    for _ in range(rng.choice([2, 6, 14])):
        l = lang(); lt = (l if l != "syscall" or bits == 32 else "syscall_") + " " if l else ""; k = rng.choice(["data", "code", "proc", "proc", "extd", "extc", "proto", "proto", "comm", "xdef", "xint", "pre"])
        if l is None and not dl and k in ("proc", "proto", "pre"): l = "c"; lt = "c "
        n = nm(k); v = mark(); kinds.append((k, l or dl, "def" if l is None else "own"))
        if k == "data":
            (head if rng.random() < .5 else tail).append("public %s%s" % (lt, n)); D.append("%s dd 0%xh" % (n, v)); G[full(n, l, 0, 0)] = v
        elif k == "xint":
            head.append("externdef %s%s:dword" % (lt, n)); D.append("%s dd 0%xh" % (n, v)); G[full(n, l, 0, 0)] = v
        elif k == "code":
            (head if rng.random() < .5 else tail).append("public %s%s" % (lt, n)); T += ["%s:" % n, " dd 0%xh" % v]; G[full(n, l, 0, 0, 1)] = v
        elif k in ("proc", "pre"):
            a, sz = args(); vis = rng.choice(["", "", "public", "private", "export" if fmt != "omf" else "public"])
            if k == "pre": head.append("%s proto %s%s" % (n, lt, ", ".join(":" + x for x in a)))
            T += ["%s proc %s%s %s" % (n, lt, vis, ", ".join("a%d_%d:%s" % (nid[0], i, x) for i, x in enumerate(a))), " dd 0%xh" % v, "%s endp" % n]
            if vis == "private" or vis == "" and priv and k == "proc": P[full(n, l, 1, sz)] = v
            elif vis == "" and priv: pass; G[full(n, l, 1, sz)] = v; P[full(n, l, 1, sz)] = v
            else: G[full(n, l, 1, sz)] = v
        elif k == "comm": head.append("comm %s%s:dword%s" % (lt, n, rng.choice(["", ":3"]))); E[full(n, l, 0, 0)] = None
        else:
            if k == "extd": head.append("%s %s%s:%s" % (rng.choice(["extern", "extrn"]), lt, n, rng.choice(["dword", "byte", "ptr"]))); f = full(n, l, 0, 0)
            elif k == "extc": head.append("%s %s%s:near" % (rng.choice(["extern", "extrn"]), lt, n)); f = full(n, l, 0, 0, 1)
            elif k == "xdef": t = rng.choice(["near", "dword"]); head.append("externdef %s%s:%s" % (lt, n, t)); f = full(n, l, 0, 0, t == "near")
            else: a, sz = args(); head.append("%s proto %s%s" % (n, lt, ", ".join(rng.choice([":%s", "p%d:%%s" % i]) % x for i, x in enumerate(a)))); f = full(n, l, 1, sz)
            if rng.random() < .8: D += [" dd 0%xh" % v, " %s %s" % ("dd" if bits == 32 else "dq", n)]; E[f] = v
            else: E[f] = 0
    src = "\n".join(head + [".data", " dd 1"] + D + [".code", " nop"] + T + tail + ["end"]) + "\n"
    return src, opts, G, E, P, kinds, priv

def symbols(fmt, b):
    """defined: name -> 4 bytes there; undefined: set; references: marker -> name"""
    d = {}; u = set(); refs = {}
    def scan(data, rel, W):
        for o, n in rel:
            if o >= 4: refs[struct.unpack_from("<I", data, o - 4)[0]] = n
    at = lambda data, o: struct.unpack_from("<I", data, o)[0] if o + 4 <= len(data) else None
    if fmt in ("coff", "win64"):
        o = objread.coff(b)
        for y in o.syms:
            if y and y.cls == 2:
                if y.sec > 0: d.setdefault(y.name, []).append(at(o.secs[y.sec - 1].data, y.value))
                else: u.add(y.name)
        for s in o.secs: scan(s.data, [(r.off, o.syms[r.sym].name) for r in s.rel], 4)
    elif fmt in ("elf", "elf64"):
        o = objread.elf(b)
        for y in o.syms:
            if y.bind == 1:
                if 0 < y.shndx < 0xff00: d.setdefault(y.name, []).append(at(o.secs[y.shndx].data, y.value))
                else: u.add(y.name)
        for s in o.secs: scan(s.data, [(r.off, o.syms[r.sym].name) for r in s.rel], 4)
    elif fmt == "macho64":
        o = objread.macho(b)
        for y in o.syms:
            if y.sect and y.type & 1: q = o.secs[y.sect - 1]; d.setdefault(y.name, []).append(at(q.data, y.value - q.addr))
            elif not y.sect: u.add(y.name)
        for s in o.secs: scan(s.data, [(r.off, o.syms[r.sym].name) for r in s.rel if r.ext], 4)
    else:
        o = objread.omf(b)
        for p in o.pubs: d.setdefault(p.name, []).append(at(bytes(o.segs[p.seg].data), p.value))
        u = {x.name for x in o.exts[1:]}
        for s in o.segs[1:]:
            if s: scan(bytes(s.data), [(f.off, o.exts[f.target[1]].name) for f in s.fix if f.target[0] == 2], 4)
    return d, u, refs

def check():
    C = vf.Check("C26", "exploration", "a program whose name resolution was observed: (scopes) distinct by case mode, kinds of reference and disabled keywords present; (population) by size; (decoration) by format, declaration kind, language and options",
                 ["own scope model: procedure labels and parameters are local when a language is set, :: and everything else is global", "decoration rules of the MASM documentation"])
    exe = vf.build("plain"); k = 1 if not vf.THOROUGH else 25; R = lambda: random.Random(C.rng.getrandbits(64))
    A = [(R(), None) for _ in range(500 * k)] + [(R(), C.rng.choice(["undef", "dup"])) for _ in range(150 * k)]
    def ja(x):
        src, exp, bad, F = scopes(*x); r = vf.asm(exe, src, ("-q", "-bin", "-e500"), out="t.bin"); return x, src, exp, bad, F, r
    for (rng, fault), src, exp, bad, F, r in vf.pmap(ja, A):
        fl = {"t.asm": src}; cmd = ["uasm", "-q", "-bin", "-Fo", "t.bin", "t.asm"]; lines = src.split("\n")
        if fault is None:
            for q in F: C.count("scope_" + q, int(F[q]))
            if r.rc != 0 or "t.bin" not in r.files: C.violation("scope-rejected:%s" % (r.errors() or [(0, 0, 0, "?")])[0][3], "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), fl, cmd); continue
            C.case(("scope", F["case"], F["kw"], F["shadow"] > 0, F["anon"] > 3, F["mac"] > 2, F["stack"] > 0, F["refs"] // 5), sample=src[:300])
            if r.files["t.bin"] != exp:
                g = r.files["t.bin"]; i = next((i for i in range(min(len(g), len(exp))) if g[i] != exp[i]), min(len(g), len(exp)))
                C.violation("scope-bytes", "byte 0x%x of 0x%x (model 0x%x): got %s expected %s" % (i, len(g), len(exp), g[i:i + 8].hex(), exp[i:i + 8].hex()), fl, cmd)
        else:
            got = {e[1] for e in r.errors() if e[2] != "Warning"}; C.count("refusals_expected", len(bad)); C.case(("fault", fault, F["case"], len(bad)), sample=src[-200:])
            if r.rc == 0 or "t.bin" in r.files: C.violation("accepted:" + fault, "program with %s names at lines %s assembled" % (fault, bad), fl, cmd); continue
            for b in bad:
                if b not in got: C.violation("undiagnosed:" + fault, "line %d `%s` (%s) has no diagnostic: %s" % (b, lines[b - 1][:80], fault, r.text()[:200]), fl, cmd)
            for g in got - set(bad): C.violation("refused:" + fault, "line %s `%s` is correct but refused: %s" % (g, lines[g - 1][:80] if 0 < g <= len(lines) else "", r.text()[:300]), fl, cmd)
    def jb(x):
        src, exp, n = population(*x); return x[1], src, exp, n, vf.asm(exe, src, ("-q", "-bin"), out="t.bin", timeout=120)
    for n, src, exp, nr, r in vf.pmap(jb, [(R(), C.rng.choice([50, 400, 3000])) for _ in range(16 * k)] + [(R(), 20000)] * k):
        C.count("population_references", nr); C.case(("population", n), sample=n)
        fl = {"t.asm": src}; cmd = ["uasm", "-q", "-bin", "-Fo", "t.bin", "t.asm"]
        if r.rc != 0 or "t.bin" not in r.files: C.violation("population-rejected", "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), fl, cmd); continue
        if r.files["t.bin"] != exp:
            g = r.files["t.bin"]; i = next((i for i in range(min(len(g), len(exp))) if g[i] != exp[i]), min(len(g), len(exp)))
            C.violation("population-bytes", "%d names: byte 0x%x of 0x%x (model 0x%x): got %s expected %s" % (n, i, len(g), len(exp), g[i:i + 8].hex(), exp[i:i + 8].hex()), fl, cmd)
    def jc(x):
        rng, fmt = x; m = decorated(rng, fmt); return fmt, m, vf.asm(exe, m[0], ["-q", "-" + fmt] + m[1], out="t.o")
    for fmt, (src, opts, G, E, P, kinds, priv), r in vf.pmap(jc, [(R(), f) for f in ("coff", "elf", "omf", "win64", "elf64", "macho64") for _ in range(110 * k)]):
        fl = {"t.asm": src}; cmd = ["uasm", "-q", "-" + fmt] + opts + ["-Fo", "t.o", "t.asm"]
        if r.rc != 0 or "t.o" not in r.files: C.violation("deco-rejected:%s:%s" % (fmt, (r.errors() or [(0, 0, 0, "?")])[0][3]), "valid program not assembled (%s): %s" % (r.rc, r.text()[-300:]), fl, cmd); continue
        try: d, u, refs = symbols(fmt, r.files["t.o"])
        except objread.Bad as e: C.violation("deco-malformed:" + fmt, str(e), fl, cmd); continue
        for q in kinds: C.case((fmt,) + q + tuple(sorted(o for o in opts if o[:2] in ("-z", "-C"))), sample=src[:200])
        fail = lambda kd, m: C.violation("deco-%s:%s" % (kd, fmt), m + " (%s)" % " ".join(opts), fl, cmd)
        for n, v in G.items():
            if n not in d and not (n in P): fail("public", "public name %s is not in the symbol table: %s" % (n, sorted(d)))
            elif n in d and d[n] != [v]: fail("public", "%s denotes %r, declared at marker 0x%x" % (n, d[n], v))
            C.count("publics")
        for n in d:
            if n not in G: fail("public", "unexpected global %s (declared: %s)" % (n, sorted(G)))
        for n, v in E.items():
            if n not in u and v != 0: fail("external", "external name %s is not in the symbol table: %s" % (n, sorted(u)))
            if v and refs.get(v) != n: fail("reference", "reference to %s goes to %s" % (n, refs.get(v)))
            C.count("externals")
        for n in u:
            if n not in E: fail("external", "unexpected external %s (declared: %s)" % (n, sorted(E)))
    return C.finish(200)
if __name__ == "__main__": vf.main(check)
