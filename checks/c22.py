#!/usr/bin/env python3
"""C22: the output depends only on the source and the options that matter.
Every program is assembled again under changed circumstances - other memory
layout and fill, other compiler, other directory and environment, other clock,
between other modules of one command line, with other presentation options -
and everything produced is compared byte for byte."""
import os, random, re, shutil, struct, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, corpus, hostile
PRES = [["-Fl=l.lst"], ["-Fl=l.lst", "-Sn"], ["-Fl=l.lst", "-Sg", "-Sa"], ["-Fl=l.lst", "-Sf"], ["-Fl=l.lst", "-Sg", "-Sx", "-Sn"], ["-W0"], ["-W4"], ["-Fw=e.err"], ["-nologo"], ["-less"], ["-e500"], ["-eq"], []]
def stamps(data):
    """offsets of the documented time stamps"""
    r = set()
    if data[:2] == b"MZ" and len(data) > 64:
        o = struct.unpack_from("<I", data, 60)[0]
        if data[o:o + 4] == b"PE\0\0": r.update(range(o + 8, o + 12)); r.add(("pe",))
    elif data[:2] in (b"\x4c\x01", b"\x64\x86"): r.update(range(4, 8))
    return r
def check():
    C = vf.Check("C22", "exploration", "a program whose output was compared, byte for byte, between two different circumstances; distinct by program, options and circumstance; only programs that produce an object or messages")
    os.environ["TZ"] = "UTC"
    ft = [os.path.join(vf.VERIF, "native", "faketime.c")]
    A = vf.build("detA", ft, "det"); B = vf.build("detB", ft, "det")
    L = corpus.load(1 << 20); rng = random.Random("C22/%d" % vf.SEED)
    inc = {d: corpus.includes(d) for d in {e.dir for e in L}}
    def files(e): return inc[e.dir] if b"nclu" in e.src.lower() or b"incbin" in e.src.lower() else {}
    def go(exe, opts, names, fl, env=None, deep="", q="-q", at=None):
        """{name: bytes} of the produced files, stdout, rc; at: the directory (its name is an input: debug information holds it)"""
        d = os.path.join(vf.scratch(), "w%d" % at); os.mkdir(d); w = os.path.join(d, deep) if deep else d; os.makedirs(w, exist_ok=True)
        for n, c in fl.items():
            p = os.path.join(w, n); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f: f.write(c)
            os.utime(p, (1e9, 1e9))
        r = vf.run(exe, ([q] if q else []) + list(opts) + names, {}, cwd=w, timeout=120, env=env, read=False)
        out = {}
        for root, _, fs in os.walk(w):
            for f in fs:
                rel = os.path.relpath(os.path.join(root, f), w)
                if rel not in fl:
                    with open(os.path.join(root, f), "rb") as h: out[rel] = h.read()
                    if f.lower().endswith(".lst"): out[rel] = re.sub(rb"\b\d+ ms\b", b"# ms", out[rel])     # the time it took
        r.out = re.sub(rb"\b\d+ ms\b", b"# ms", r.out)
        shutil.rmtree(d, ignore_errors=True)
        return out, r
    def obj(out): return {k: v for k, v in out.items() if not k.lower().endswith((".lst", ".err"))}
    def diff(a, b):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b: return "%s produced only %s" % (k, "the second time" if k not in a else "the first time"), None
            if a[k] != b[k]:
                i = next((i for i in range(min(len(a[k]), len(b[k]))) if a[k][i] != b[k][i]), min(len(a[k]), len(b[k])))
                return "%s differs at offset %d of %d/%d: %s / %s" % (k, i, len(a[k]), len(b[k]), a[k][i:i + 12].hex(), b[k][i:i + 12].hex()), k
        return None
    rx = re.compile(rb"(?im)^(?:.*\(\d+\)|.*error) ?: .*$")
    def msgs(r): return sorted(x.strip() for x in rx.findall(re.sub(rb"\x1b\[[0-9;]*m", b"", r.out)))
    P = [(e.id, e.opts, e.src, files(e)) for e in L]
    H = list(hostile.programs())
    for h in rng.sample(H, 800 if not vf.THOROUGH else len(H)):
        if h[0].startswith("include."): continue
        P.append(("%s/%d" % (h[0], h[1]), h[2], h[3].encode("latin1"), {}))
    def one(p0):
        at, p = p0; name, opts, src, fl = p; dbg = any(o.startswith(("-Zi", "-Zd")) for o in opts); r = random.Random("%s/%d" % (name, vf.SEED)); bad = []
        f = dict(fl); f["t.asm"] = src
        a, ra = go(A, opts, ["t.asm"], f, at=at)
        if ra.timeout: return name, p, [("timeout", None)], 0
        if not a and not ra.out.strip(): return name, p, [], 0
        big = len(src) > 150000; n = 0
        # 1 other memory contents, layout, directory, environment size
        b, rb = go(A, opts, ["t.asm"], f, at=at, env={"MALLOC_PERTURB_": str(r.randrange(1, 255)), "X" * r.randrange(1, 3000): "y" * r.randrange(1, 5000), "HOME": "/x"}, deep="" if dbg else "d" * r.randrange(1, 90))
        n += 1; dd = diff(a, b)
        if dd or ra.rc != rb.rc or ra.out != rb.out: bad.append(("run", dd[0] if dd else "messages or exit code differ: %r / %r" % (ra.out[-300:], rb.out[-300:])))
        # 2 another compiler: uninitialised variables filled differently, other evaluation order, other layout
        b, rb = go(B, opts, ["t.asm"], f, at=at); n += 1; dd = diff(a, b)
        if dd or ra.rc != rb.rc or ra.out != rb.out: bad.append(("build", dd[0] if dd else "messages or exit code differ: %r / %r" % (ra.out[-300:], rb.out[-300:])))
        # 3 another time
        b, rb = go(A, opts, ["t.asm"], f, at=at, env={"VERIF_TIME": str(r.randrange(10 ** 9, 2 * 10 ** 9))}); n += 1
        if not re.search(rb"(?i)@date|@time", src):
            for k in a:
                if k in b and len(a[k]) == len(b[k]) and not k.lower().endswith((".lst", ".err")):
                    st = stamps(a[k]); ds = [i for i in range(len(a[k])) if a[k][i] != b[k][i]] if a[k] != b[k] else []
                    out = [i for i in ds if i not in st]
                    if ("pe",) in st and len(out) <= 4: out = []       # export directory
                    if out: bad.append(("clock", "%s depends on the clock at offset %d" % (k, out[0])))
                elif not k.lower().endswith(".lst"):
                    if k not in b or len(a[k]) != len(b[k]): bad.append(("clock", "%s depends on the clock" % k))
        # 4 presentation
        for po in r.sample(PRES, 2 if not vf.THOROUGH else len(PRES)):
            b, rb = go(A, list(opts) + po, ["t.asm"], f, at=at, q=None if po == [] else "-q"); n += 1
            if "-W4" in po or "-W0" in po or "-e500" in po or "-eq" in po:
                if ra.rc: continue
            dd = diff(obj(a), obj(b))
            if dd or ra.rc != rb.rc: bad.append(("option %s" % " ".join(po), dd[0] if dd else "exit code %s / %s" % (ra.rc, rb.rc)))
        return name, p, bad, n
    for name, p, bad, n in vf.pmap(one, list(enumerate(P))):
        if bad and bad[0][0] == "timeout": C.inconcl(name + " timeout"); continue
        if not n: C.count("nothing_produced"); continue
        C.case((name, tuple(p[1])), sample=name, n=n); C.count("programs")
        for k, m in bad: C.violation("%s:%s:%s" % (k.split()[0], name, " ".join(p[1])), "%s: %s" % (k, m), {"t.asm": p[2]}, ["uasm", "-q"] + list(p[1]) + ["t.asm"])
    # 5 position in a multi-file command line
    by = {}
    for e in L:
        if len(e.src) < 100000: by.setdefault((e.dir, tuple(e.opts)), []).append(e)
    G = []
    for (d, o), es in by.items():
        for _ in range(1 if not vf.THOROUGH else 6):
            x = es[:]; rng.shuffle(x)
            for i in range(0, len(x), 3): G.append((d, o, x[i:i + 3] + ([rng.choice(es)] if len(x[i:i + 3]) == 1 else [])))
        # neighbours that fail or use everything
    HS = [h for h in H if len(h[3]) < 20000 and not h[0].startswith("include.")]
    for _ in range(250 if not vf.THOROUGH else 4000):
        h = rng.choice(HS); e = rng.choice(L); es = [h]
        while len(es) < 3:
            k = rng.choice(HS)
            if k[2] == h[2] or rng.random() < .02: es.append(k)
        G.append((None, tuple(h[2]), es))
    def multi(g0):
        at, g = g0; at += 1000000; d, o, es = g; o = [x for x in o]; fl = {}; names = []
        for i, e in enumerate(es):
            n = "m%d.asm" % i; names.append(n); fl[n] = e.src if d else e[3].encode("latin1")
            if d: fl.update(files(e))
        alone = {}
        for n in names:
            out, r = go(A, o, [n], fl, at=at); alone[n] = (out, r.rc)
            if r.timeout: return g, fl, None
        bad = []
        rr = random.Random(str(names) + str(o)); seqs = [names, names[::-1], [rr.choice(names)] * 2 + names[:1]]
        for s in seqs:
            out, r = go(A, o, s, fl, at=at)
            if r.timeout: return g, fl, None
            for n in dict.fromkeys(s):
                st = n[:-4]; x = {k: v for k, v in out.items() if k.split(".")[0] == st}; y = {k: v for k, v in alone[n][0].items() if k.split(".")[0] == st}
                dd = diff(y, x)
                if dd: bad.append(("%s of %s" % (n, " ".join(s)), dd[0]))
            if (r.rc == 0) != all(alone[n][1] == 0 for n in s) : bad.append(("exit", "exit code %s for %s, alone: %s" % (r.rc, " ".join(s), [alone[n][1] for n in s])))
        return g, fl, bad
    for g, fl, bad in vf.pmap(multi, list(enumerate(G))):
        if bad is None: C.inconcl("multi timeout"); continue
        ids = [e.id if g[0] else "%s/%d" % (e[0], e[1]) for e in g[2]]
        C.case(("multi", tuple(ids), g[1]), n=3); C.count("multi_module_runs", 3)
        for k, m in bad: C.violation("multi:%s:%s" % ("+".join(ids), " ".join(g[1])), "%s: %s" % (k, m), {k2: v for k2, v in fl.items() if k2.endswith(".asm")}, ["uasm", "-q"] + list(g[1]) + ["m0.asm", "m1.asm", "m2.asm"])
    return C.finish(800)
if __name__ == "__main__": vf.main(check)
