"""Independent readers of the output formats.  Every reader raises Bad when
the file is not structurally valid."""
import struct

class Bad(Exception):
    pass
def need(c, m):
    if not c: raise Bad(m)

class Sec:
    def __init__(s, **k): s.__dict__.update(k)
    def __repr__(s): return "Sec(%s)" % ", ".join("%s=%r" % (a, b) for a, b in s.__dict__.items() if a not in ("data", "rel"))

# ---------------------------------------------------------------- ELF
def cstr(b, o):
    need(o < len(b), "string offset %d outside table of %d" % (o, len(b)))
    e = b.find(b"\0", o); need(e >= 0, "unterminated string")
    return b[o:e].decode("latin1")

def elf(b):
    need(b[:4] == b"\x7fELF" and len(b) >= 52, "no ELF header")
    w = b[4]; need(w in (1, 2) and b[5] == 1 and b[6] == 1, "ident")
    E = Sec(bits=32 * w)
    h = struct.unpack_from("<HHIQQQIHHHHHH" if w == 2 else "<HHIIIIIHHHHHH", b, 16)
    E.type, E.machine, E.version, E.entry, E.phoff, shoff, E.flags, ehs, _, _, shes, shn, shstr = h
    need(E.type == 1 and E.version == 1 and E.machine == (62 if w == 2 else 3), "type/machine %r" % (h,))
    need(ehs == (64 if w == 2 else 52) and shes == (64 if w == 2 else 40), "header sizes")
    need(shoff + shn * shes <= len(b) and shn > 0 and shstr < shn, "section table outside the file")
    S = []
    for i in range(shn):
        n, t, f, a, o, sz, lk, inf, al, es = struct.unpack_from("<IIQQQQIIQQ" if w == 2 else "<IIIIIIIIII", b, shoff + i * shes)
        if t not in (0, 8): need(o + sz <= len(b), "section %d outside the file" % i)
        S.append(Sec(i=i, n=n, type=t, flags=f, addr=a, off=o, size=sz, link=lk, info=inf, align=al or 1, es=es, data=b[o:o + sz] if t not in (0, 8) else b"", rel=[]))
    need(S[0].type == 0, "section 0 is not NULL")
    for s in S: s.name = cstr(S[shstr].data, s.n)
    # content may not overlap headers or other content
    ext = sorted([(0, ehs), (shoff, shoff + shn * shes)] + [(s.off, s.off + s.size) for s in S if s.type not in (0, 8) and s.size])
    for x, y in zip(ext, ext[1:]): need(x[1] <= y[0], "file ranges overlap: %r %r" % (x, y))
    E.secs = S; E.syms = []
    for s in S:
        need(s.align & (s.align - 1) == 0, "alignment %d" % s.align)
        if s.type == 2:
            need(s.es == (24 if w == 2 else 16) and s.size % s.es == 0, "symtab entry size")
            need(s.link < shn and S[s.link].type == 3, "symtab link")
            for k in range(s.size // s.es):
                if w == 2: n, inf, oth, shx, v, sz = struct.unpack_from("<IBBHQQ", s.data, k * 24)
                else: n, v, sz, inf, oth, shx = struct.unpack_from("<IIIBBH", s.data, k * 16)
                need(shx < shn or shx >= 0xff00, "symbol %d section index %d" % (k, shx))
                E.syms.append(Sec(name=cstr(S[s.link].data, n), value=v, size=sz, bind=inf >> 4, type=inf & 15, other=oth, shndx=shx))
            need(s.info <= len(E.syms), "symtab info")
            for k, y in enumerate(E.syms): need((y.bind == 0) == (k < s.info), "local/global order: symbol %d %s bind %d, first global %d" % (k, y.name, y.bind, s.info))
    for s in S:
        if s.type in (4, 9):
            rela = s.type == 4
            need(s.es == {(2, 1): 24, (2, 0): 16, (1, 1): 12, (1, 0): 8}[(w, int(rela))], "reloc entry size %d" % s.es)
            need(s.link < shn and S[s.link].type == 2 and 0 < s.info < shn, "reloc links")
            for k in range(s.size // s.es):
                f = struct.unpack_from("<" + ("QQq" if rela else "QQ") if w == 2 else "<" + ("IIi" if rela else "II"), s.data, k * s.es)
                r = Sec(off=f[0], type=f[1] & 0xffffffff if w == 2 else f[1] & 255, sym=f[1] >> 32 if w == 2 else f[1] >> 8, addend=f[2] if rela else None)
                need(r.sym < len(E.syms), "reloc symbol index")
                need(r.off < S[s.info].size, "reloc offset 0x%x outside %s (0x%x)" % (r.off, S[s.info].name, S[s.info].size))
                S[s.info].rel.append(r)
    return E

# ---------------------------------------------------------------- COFF
def coff(b):
    need(len(b) >= 20, "too short")
    mach, ns, ts, po, nsym, oh, ch = struct.unpack_from("<HHIIIHH", b, 0)
    need(mach in (0x14c, 0x8664) and oh == 0, "machine %x opt %d" % (mach, oh))
    E = Sec(machine=mach, secs=[], syms=[], timestamp=ts, chars=ch)
    strt = po + nsym * 18
    need(20 + 40 * ns <= len(b) and strt + 4 <= len(b) or nsym == 0, "tables outside the file")
    st = b[strt:]
    if nsym:
        sl = struct.unpack_from("<I", st)[0]; need(4 <= sl <= len(st), "string table size %d of %d" % (sl, len(st)))
        need(sl == len(st), "trailing bytes after the string table")
    def name(raw, sec=False):
        if raw[:4] == b"\0\0\0\0" and not sec:
            o = struct.unpack_from("<I", raw, 4)[0]; need(4 <= o, "name offset"); return cstr(st, o)
        s = raw.split(b"\0")[0].decode("latin1")
        if sec and s.startswith("/"): return cstr(st, int(s[1:]))
        return s
    ext = [(0, 20 + 40 * ns), (po, strt + len(st))] if nsym else [(0, 20 + 40 * ns)]
    for i in range(ns):
        raw, vs, va, rs, pr, prl, pln, nr, nl, c = struct.unpack_from("<8sIIIIIIHHI", b, 20 + 40 * i)
        s = Sec(i=i + 1, name=name(raw, True), vsize=vs, vaddr=va, size=rs, off=pr, chars=c, rel=[], lines=[], align=1 << (((c >> 20) & 15) - 1) if (c >> 20) & 15 else 1)
        bss = c & 0x80 and not c & 0x60 or pr == 0
        if not bss and rs: need(pr + rs <= len(b), "section data outside the file"); ext.append((pr, pr + rs))
        s.data = b"" if bss else b[pr:pr + rs]; s.bss = bool(bss)
        if c & 0x01000000:      # extended relocation count
            need(nr == 0xffff, "NRELOC_OVFL with %d" % nr); nr = struct.unpack_from("<I", b, prl)[0] - 1; ext.append((prl, prl + 10)); prl += 10
        if nr: ext.append((prl, prl + nr * 10)); need(prl + nr * 10 <= len(b), "relocs outside the file")
        for k in range(nr):
            o, sy, t = struct.unpack_from("<IIH", b, prl + 10 * k)
            need(sy < nsym, "reloc symbol index"); need(o < max(rs, 1), "reloc 0x%x outside section %s (0x%x)" % (o, s.name, rs))
            s.rel.append(Sec(off=o, sym=sy, type=t))
        if nl: ext.append((pln, pln + 6 * nl)); need(pln + 6 * nl <= len(b), "line numbers outside the file")
        for k in range(nl): s.lines.append(struct.unpack_from("<IH", b, pln + 6 * k))
        E.secs.append(s)
    ext.sort()
    for x, y in zip(ext, ext[1:]): need(x[1] <= y[0], "file ranges overlap: %r %r" % (x, y))
    i = 0
    while i < nsym:
        raw, v, sn, t, sc, na = struct.unpack_from("<8sIhHBB", b, po + 18 * i)
        need(-2 <= sn <= ns and i + na < nsym, "symbol %d: section %d aux %d" % (i, sn, na))
        aux = [b[po + 18 * (i + 1 + k):po + 18 * (i + 2 + k)] for k in range(na)]
        E.syms.append(Sec(i=i, name=name(raw), value=v, sec=sn, type=t, cls=sc, aux=aux))
        E.syms += [None] * na; i += 1 + na
    for s in E.secs:
        for r in s.rel: need(E.syms[r.sym] is not None, "reloc names an auxiliary record")
    return E

# ---------------------------------------------------------------- OMF
class OMF:
    pass
def omf(b):
    o = OMF(); o.records = []; i = 0
    while i < len(b):
        need(i + 3 <= len(b), "truncated record header at %d" % i)
        t = b[i]; ln = struct.unpack_from("<H", b, i + 1)[0]
        need(ln >= 1 and i + 3 + ln <= len(b), "record %02X at %d: length %d runs past the end (%d)" % (t, i, ln, len(b)))
        body = b[i + 3:i + 3 + ln - 1]; ck = b[i + 2 + ln]
        need(ck == 0 or sum(b[i:i + 3 + ln]) & 255 == 0, "record %02X at %d: bad checksum" % (t, i))
        need(ln <= 1024 + 8 or t not in (0xA0, 0xA1), "LEDATA of %d bytes" % ln)
        o.records.append((t, body)); i += 3 + ln
        if t in (0x8A, 0x8B): break
    need(i == len(b), "data after MODEND"); need(o.records and o.records[0][0] in (0x80, 0x82), "no THEADR")
    need(o.records[-1][0] in (0x8A, 0x8B), "no MODEND")
    o.names = [None]; o.segs = [None]; o.grps = [None]; o.exts = [None]; o.pubs = []; o.lines = []; o.srclines = []; o.coments = []; o.comdats = []; o.aliases = []
    o.modend = None
    def idx(d, p):
        need(p < len(d), "index past end")
        if d[p] & 0x80: need(p + 1 < len(d), "index past end"); return (d[p] & 0x7f) << 8 | d[p + 1], p + 2
        return d[p], p + 1
    def pstr(d, p): need(p < len(d) and p + 1 + d[p] <= len(d), "name past end"); return d[p + 1:p + 1 + d[p]].decode("latin1"), p + 1 + d[p]
    last = None; threads = {}
    for t, d in o.records:
        big = t & 1; p = 0; n = 4 if big else 2
        def val(p, n):
            need(p + n <= len(d), "field past end of record %02X" % t)
            return int.from_bytes(d[p:p + n], "little"), p + n
        if t == 0x80: o.module = pstr(d, 0)[0]
        elif t == 0x88: o.coments.append((d[0], d[1], d[2:]))
        elif t in (0x96, 0xCA):
            while p < len(d): s, p = pstr(d, p); o.names.append(s)
        elif t in (0x98, 0x99):
            a, p = val(p, 1); frame = None
            if a >> 5 == 0: frame, p = val(p, 2); _, p = val(p, 1)
            ln, p = val(p, n)
            if a & 2: need(ln == 0, "big segment with length"); ln = 1 << (32 if big else 16)
            nm, p = idx(d, p); cl, p = idx(d, p); ov, p = idx(d, p)
            need(nm < len(o.names) and cl < len(o.names), "SEGDEF name index")
            al = {0: 1, 1: 1, 2: 2, 3: 16, 4: 4096 if 0 else 256, 5: 4}.get(a >> 5, 0); need(a >> 5 != 7, "SEGDEF alignment 7")
            if a >> 5 == 6: al = 4096
            o.segs.append(Sec(name=o.names[nm], cls=o.names[cl], align=al, combine=(a >> 2) & 7, use32=a & 1, length=ln, frame=frame, data=bytearray(min(ln, 1 << 26)), mask=bytearray(min(ln, 1 << 26)), fix=[]))
            need(p == len(d), "SEGDEF size")
        elif t == 0x9A:
            nm, p = idx(d, p); need(nm < len(o.names), "GRPDEF name index"); g = Sec(name=o.names[nm], segs=[])
            while p < len(d):
                need(d[p] == 0xFF, "GRPDEF component type"); s, p = idx(d, p + 1); need(0 < s < len(o.segs), "GRPDEF segment index"); g.segs.append(s)
            o.grps.append(g)
        elif t in (0x8C, 0xB4, 0xBC):
            while p < len(d):
                if t == 0xBC: s, p = idx(d, p); need(s < len(o.names), "CEXTDEF"); s = o.names[s]
                else: s, p = pstr(d, p)
                _, p = idx(d, p); o.exts.append(Sec(name=s, kind="ext"))
        elif t in (0xB0, 0xB8):
            def cl(p):
                v, p = val(p, 1)
                if v < 0x81: return v, p
                return val(p, {0x81: 2, 0x84: 3, 0x88: 4}[v])
            while p < len(d):
                s, p = pstr(d, p); _, p = idx(d, p); k, p = val(p, 1)
                if k == 0x61: cnt, p = cl(p); sz, p = cl(p); size = cnt * sz
                else: need(k == 0x62, "COMDEF type %x" % k); size, p = cl(p)
                o.exts.append(Sec(name=s, kind="comm", size=size, far=k == 0x61))
        elif t in (0x90, 0x91, 0xB6, 0xB7):
            g, p = idx(d, p); s, p = idx(d, p); fr = None
            if s == 0: fr, p = val(p, 2)
            need(s < len(o.segs) and g < len(o.grps), "PUBDEF base")
            while p < len(d):
                nm, p = pstr(d, p); v, p = val(p, n); _, p = idx(d, p)
                if s: need(v <= o.segs[s].length, "public %s beyond its segment" % nm)
                o.pubs.append(Sec(name=nm, grp=g, seg=s, value=v, local=t >= 0xB6))
        elif t in (0xA0, 0xA1):
            s, p = idx(d, p); of, p = val(p, n); need(0 < s < len(o.segs), "LEDATA segment %d" % s)
            q = d[p:]; need(len(q) <= 1024, "LEDATA with %d data bytes" % len(q)); S = o.segs[s]
            need(of + len(q) <= S.length, "LEDATA 0x%x+%d outside segment %s (0x%x)" % (of, len(q), S.name, S.length))
            S.data[of:of + len(q)] = q; S.mask[of:of + len(q)] = b"\1" * len(q); last = (S, of, len(q))
        elif t in (0xA2, 0xA3):
            s, p = idx(d, p); of, p = val(p, n); S = o.segs[s]
            def blk(p):
                rep, p = val(p, n); bc, p = val(p, 2)
                if bc == 0: l, p = val(p, 1); need(p + l <= len(d), "LIDATA"); return d[p:p + l] * rep, p + l
                out = b""
                for _ in range(bc): x, p = blk(p); out += x
                return out * rep, p
            q = b""
            while p < len(d): x, p = blk(p); q += x
            need(of + len(q) <= S.length, "LIDATA outside segment"); S.data[of:of + len(q)] = q; S.mask[of:of + len(q)] = b"\1" * len(q); last = None
        elif t in (0x9C, 0x9D):
            while p < len(d):
                c, p = val(p, 1)
                if not c & 0x80:
                    m = (c >> 2) & 7; fr = c & 0x40; i = None
                    if not fr: m &= 3
                    if m < 3 or (not fr and m == 3): i, p = idx(d, p) if m < 3 else val(p, 2)
                    threads[(bool(fr), c & 3)] = (m, i); continue
                need(last is not None, "FIXUPP without LEDATA")
                S, of, ln = last
                c2, p = val(p, 1); off = (c & 3) << 8 | c2; loc = (c >> 2) & 15; segrel = bool(c & 0x40)
                fd, p = val(p, 1)
                if fd & 0x80: fm = threads.get((True, (fd >> 4) & 3)); need(fm, "undefined frame thread")
                else:
                    m = (fd >> 4) & 7; i = None
                    if m < 3: i, p = idx(d, p)
                    else: need(m in (4, 5), "frame method %d" % m)
                    fm = (m, i)
                if fd & 8: tm = threads.get((False, fd & 3)); need(tm, "undefined target thread")
                else: i, p = idx(d, p); tm = (fd & 3, i)
                need(tm[0] < 3, "target method %d" % tm[0])
                need(0 < tm[1] < len((o.segs, o.grps, o.exts)[tm[0]]), "fixup target index %r" % (tm,))
                if fm[0] < 3: need(0 < fm[1] < len((o.segs, o.grps, o.exts)[fm[0]]), "fixup frame index %r" % (fm,))
                dp = 0
                if not fd & 4: dp, p = val(p, n)
                size = {0: 1, 1: 2, 2: 2, 3: 4, 4: 1, 5: 2, 9: 4, 11: 6, 13: 4}.get(loc); need(size, "fixup location type %d" % loc)
                need(off + size <= ln, "fixup at %d+%d outside its LEDATA of %d" % (off, size, ln))
                S.fix.append(Sec(off=of + off, loc=loc, segrel=segrel, frame=fm, target=tm, disp=dp, size=size))
        elif t in (0x94, 0x95):
            g, p = idx(d, p); s, p = idx(d, p)
            while p < len(d): l, p = val(p, 2); a, p = val(p, n); o.lines.append((s, l, a)); o.srclines.append((s, l, a, o.module))
        elif t in (0x8A, 0x8B):
            mt, p = val(p, 1); o.main = bool(mt & 0x80)
            if mt & 0x40:
                fd, p = val(p, 1); m = (fd >> 4) & 7; fi = None
                if m < 3: fi, p = idx(d, p)
                ti, p = idx(d, p); dp = 0
                if not fd & 4: dp, p = val(p, n)
                o.modend = Sec(frame=(m, fi), target=(fd & 3, ti), disp=dp)
            need(p == len(d), "MODEND size")
        elif t in (0xC2, 0xC3): o.comdats.append(d); last = None
        elif t == 0xC6:
            while p < len(d): x, p = pstr(d, p); y, p = pstr(d, p); o.aliases.append((x, y))
        else: raise Bad("unknown record type %02X" % t)
    return o

# ---------------------------------------------------------------- Mach-O 64
def macho(b):
    need(len(b) >= 32, "too short")
    mg, cpu, sub, ft, nc, sc, fl, _ = struct.unpack_from("<8I", b, 0)
    need(mg == 0xfeedfacf and cpu == 0x01000007 and ft == 1, "header %x %x %x" % (mg, cpu, ft))
    need(32 + sc <= len(b), "load commands outside the file")
    E = Sec(secs=[], syms=[]); p = 32; sym = None; ext = [(0, 32 + sc)]
    for _ in range(nc):
        c, l = struct.unpack_from("<II", b, p); need(l >= 8 and p + l <= 32 + sc, "load command size")
        if c == 0x19:
            sn, va, vs, fo, fs, mp, ip, n, fg = struct.unpack_from("<16sQQQQIIII", b, p + 8); need(72 + 80 * n <= l, "segment command size")
            for i in range(n):
                nm, sg, a, sz, of, al, ro, nr, f, r1, r2, r3 = struct.unpack_from("<16s16sQQIIIIIIII", b, p + 72 + 80 * i)
                zero = f & 255 == 1
                s = Sec(i=i + 1, name=nm.rstrip(b"\0").decode("latin1"), seg=sg.rstrip(b"\0").decode("latin1"), addr=a, size=sz, off=of, align=1 << al, flags=f, rel=[], data=b"" if zero else b[of:of + sz])
                if not zero: need(of + sz <= len(b), "section data outside the file"); ext.append((of, of + sz))
                need(ro + 8 * nr <= len(b), "relocs outside the file")
                if nr: ext.append((ro, ro + 8 * nr))
                for k in range(nr):
                    a, w = struct.unpack_from("<iI", b, ro + 8 * k)
                    s.rel.append(Sec(off=a, sym=w & 0xffffff, pcrel=w >> 24 & 1, len=w >> 25 & 3, ext=w >> 27 & 1, type=w >> 28))
                E.secs.append(s)
        elif c == 2: sym = struct.unpack_from("<IIII", b, p + 8)
        p += l
    if sym:
        so, n, sto, sts = sym; need(so + 16 * n <= len(b) and sto + sts <= len(b), "symbol table outside the file")
        ext += [(so, so + 16 * n), (sto, sto + sts)]; st = b[sto:sto + sts]
        for i in range(n):
            x, t, s, d, v = struct.unpack_from("<IBBHQ", b, so + 16 * i)
            E.syms.append(Sec(name=cstr(st, x), type=t, sect=s, desc=d, value=v))
    ext = sorted(e for e in ext if e[1] > e[0])
    for x, y in zip(ext, ext[1:]): need(x[1] <= y[0], "file ranges overlap: %r %r" % (x, y))
    for s in E.secs:
        for r in s.rel: need(r.off < s.size, "reloc outside section"); need(r.sym < len(E.syms) if r.ext else 0 < r.sym <= len(E.secs), "reloc index")
    return E
