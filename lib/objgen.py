"""Random relocatable programs with a model: what every section contains, what
every reference denotes.  Used by C14 (ELF), C15 (COFF), C16 (OMF), C18 (Mach-O)."""
import random
from objread import Sec

class Model: pass

def imm(rng): return rng.choice([1, 5, 0x7f, 0x11, 0x42])
# code templates: (text, opcode bytes, size of reference, bytes after it, kind, needs)
# needs: d = data target, c = code target, a = absolute external; x = not in the current section
CHARS = {"discard": 0x02000000, "nocache": 0x04000000, "nopage": 0x08000000, "shared": 0x10000000, "execute": 0x20000000, "read": 0x40000000, "write": 0x80000000}
T64 = [("lea rax, {}", "488d05", 4, "", "pc", "dx"), ("mov eax, dword ptr {}", "8b05", 4, "", "pc", "dx"), ("mov r9, qword ptr {}", "4c8b0d", 4, "", "pc", "dx"),
       ("mov dword ptr {}, 12345678h", "c705", 4, "78563412", "pc", "dx"), ("mov byte ptr {}, 5", "c605", 4, "05", "pc", "dx"), ("mov word ptr {}, 1234h", "66c705", 4, "3412", "pc", "dx"),
       ("cmp byte ptr {}, 7", "803d", 4, "07", "pc", "dx"), ("add dword ptr {}, 3", "8305", 4, "03", "pc", "dx"), ("movaps xmm1, xmmword ptr {}", "0f280d", 4, "", "pc", "dx"),
       ("mov qword ptr {}, -2", "48c705", 4, "feffffff", "pc", "dx"), ("pshufd xmm0, xmmword ptr {}, 1bh", "660f7005", 4, "1b", "pc", "dx"),
       ("call {}", "e8", 4, "", "pc", "c"), ("jmp {}", "e9", 4, "", "pc", "cx"), ("jz {}", "0f84", 4, "", "pc", "cx"),
       ("mov rax, offset {}", "48b8", 8, "", "abs", "dc"), ("mov ecx, offset {}", "b9", 4, "", "abs", "dc")]
T32 = [("mov eax, dword ptr {}", "a1", 4, "", "abs", "d"), ("mov ecx, dword ptr {}", "8b0d", 4, "", "abs", "d"), ("mov dword ptr {}, 12345678h", "c705", 4, "78563412", "abs", "d"),
       ("mov byte ptr {}, 5", "c605", 4, "05", "abs", "d"), ("mov word ptr {}, 1234h", "66c705", 4, "3412", "abs", "d"), ("call {}", "e8", 4, "", "pc", "c"),
       ("jmp {}", "e9", 4, "", "pc", "cx"), ("jnz {}", "0f85", 4, "", "pc", "cx"), ("mov esi, offset {}", "be", 4, "", "abs", "dc"), ("push offset {}", "68", 4, "", "abs", "dc"),
       ("mov ecx, dword ptr {}[ebx*4]", "8b0c9d", 4, "", "abs", "d"), ("lea edx, {}", "8d15", 4, "", "abs", "d"), ("add dword ptr {}[esi], 7", "8386", 4, "07", "abs", "d"),
       ("cmp eax, offset {}", "3d", 4, "", "abs", "dc"), ("mov eax, {}", "b8", 4, "", "abs", "a"), ("mov dword ptr {}, eax", "a3", 4, "", "abs", "d")]
T16 = [("mov bx, offset {}", "bb", 2, "", "off", "dc"), ("mov cx, seg {}", "b9", 2, "", "seg", "dc"), ("call near ptr {}", "e8", 2, "", "pc", "cs"), ("call far ptr {}", "9a", 4, "", "far", "cx"),
       ("jmp far ptr {}", "ea", 4, "", "far", "cx"), ("mov dx, {}", "ba", 2, "", "abs", "a")]

ALIGN = {"byte": 1, "word": 2, "dword": 4, "para": 16, "page": 256}

def program(rng, fmt, big=0):
    """fmt: elf32 elf64 coff32 coff64 omf16 omf32 macho64"""
    M = Model(); M.fmt = fmt; M.bits = bits = 64 if fmt.endswith("64") else 16 if fmt.endswith("16") else 32
    simple = fmt not in ("omf16",); size = rng.choice([6, 15, 40, 120])
    M.segs = {}; M.syms = {}; head = []; L = []
    if bits == 64: head.append("option casemap:none")
    elif bits == 32: head += [rng.choice([".486", ".686\n.xmm"]), ".model flat" + (", stdcall" * 0), "option casemap:none"]
    else: head += [".286", "option casemap:none"]
    secname = {"elf": {"_TEXT": ".text", "_DATA": ".data", "CONST": ".rodata", "_BSS": ".bss"}, "coff": {"_TEXT": ".text", "_DATA": ".data", "CONST": ".rdata", "_BSS": ".bss"}}.get(fmt.rstrip("0123456789"), {})
    def seg(name, kind, align, opener, closer, **k):
        M.segs[name] = Sec(name=name, out=k.pop("out", secname.get(name, name)), kind=kind, align=align, opener=opener, closer=closer, refs=[], data=bytearray(), mask=bytearray(), first=True, chars=k.pop("chars", 0), **k)
    if simple:
        seg("_TEXT", "code", 16, ".code", None); seg("_DATA", "data", 16, ".data", None)
        if rng.random() < .6: seg("CONST", "const", 16, ".const", None)
        if rng.random() < .6: seg("_BSS", "bss", 16, ".data?", None)
    if 1:
        for i in range(rng.choice([0, 1, 2, 4, 8]) if simple else rng.choice([2, 3, 5, 9])):
            n = rng.choice(["SG%d", "Zq%d", "_LongSegmentName%d" if fmt != "macho64" else "sixteen_charact%d"]) % i
            kind = rng.choice(["code", "data", "data", "const", "bss"]); cls = {"code": "CODE", "data": "DATA", "const": "CONST", "bss": "BSS"}[kind]
            al = rng.choice(list(ALIGN)); atxt = al; av = ALIGN[al]; at = ""
            if fmt[:3] != "omf" and rng.random() < .3: av = rng.choice([2, 8, 32, 64, 512, 4096]); atxt = "align(%d)" % av
            comb = "public" if fmt[:3] != "omf" else rng.choice(["public", "private", "public", "stack"[:0] or "public"])
            u = "" if bits == 64 else " use%d" % bits
            out = n
            if fmt[:3] in ("cof", "elf") and rng.random() < .15: out = ".al%d" % i; at = ' alias("%s")' % out
            ro = kind == "data" and fmt[:3] in ("cof", "elf") and rng.random() < .25; chars = rng.sample(list(CHARS), rng.choice([1, 2, 4])) if fmt[:3] == "cof" and rng.random() < .2 else []
            attr = [atxt, comb] + ([u] if u else []) + ([at] if at else []) + chars; rng.shuffle(attr)
            op = "%s segment %s%s '%s'" % (n, "readonly " if ro else "", " ".join(attr), cls)
            seg(n, "const" if ro else kind, av, op, "%s ends" % n, cls=cls, combine=comb, out=out, reopen="%s segment" % n, chars=sum(CHARS[q] for q in chars))
    names = list(M.segs)
    M.externs = {}; M.comms = {}; M.group = None
    def ext(n, k, t): M.externs[n] = Sec(name=n, kind=k); M.syms[n] = Sec(name=n, kind=k, seg=None, off=0); head.append("%s %s:%s" % (rng.choice(["extern", "extrn", "externdef"]), n, t))
    for i in range(rng.choice([0, 1, 2, 6])): ext("extf%d" % i, "code", "far" if bits == 16 and rng.random() < .5 else "near"); M.syms["extf%d" % i].far = head[-1].endswith("far")
    for i in range(rng.choice([0, 1, 2, 5])): ext(rng.choice(["extd%d", "a_rather_long_external_name_%d"]) % i, "data", rng.choice(["dword", "byte", "word"]))
    for i in range(rng.choice([0, 0, 1, 2])):
        if bits < 64: ext("exta%d" % i, "abs", "abs")
    for i in range(rng.choice([0, 0, 1, 3])):
        n = "comm%d" % i; t, ts = rng.choice([("byte", 1), ("word", 2), ("dword", 4)]); c = rng.choice([1, 1, 7, 100])
        M.comms[n] = Sec(size=ts * c, unit=ts); M.syms[n] = Sec(name=n, kind="data", seg=None, off=0); head.append("comm %s%s:%s%s" % ("far " if bits == 16 and rng.random() < .0 else "", n, t, ":%d" % c if c > 1 or rng.random() < .2 else ""))
    M.pabs = {}; late = []      # public constants, declared before or after their definition
    for i in range(rng.choice([0, 0, 1, 3])):
        n = rng.choice(["pconst%d", "A_LONGER_CONSTANT_%d"]) % i; v = rng.choice([0, 1, 0x1234, 0x7fffffff, rng.getrandbits(31), -1, -300] if bits > 16 else [0, 1, 0x1234, 0xffff]); M.pabs[n] = v
        t = ["public " + n, "%s %s %d" % (n, rng.choice(["equ", "="]), v)]; rng.shuffle(t); head.append(t[0]); (head if rng.random() < .5 else late).append(t[1])
    if bits == 16 and rng.random() < .5:
        g = [n for n in names if rng.random() < .6]
        if len(g) > 1: M.group = ("GRP", g); 
    # labels, drawn first
    visits = []
    for n in names: visits.append(n)
    visits += [rng.choice(names) for _ in range(rng.choice([0, 3, 8]))]; rng.shuffle(visits)
    plan = []   # (seg, [labels])
    k = 0
    for v in visits:
        ls = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            kd = "code" if M.segs[v].kind == "code" and rng.random() < .7 else "data"
            nm = rng.choice(["L%d", "Lab_%d", "some_longer_label_name%d", "x%d_"]) % k; k += 1; ls.append((nm, kd)); M.syms[nm] = Sec(name=nm, kind=kd, seg=v, off=None)
        plan.append((v, ls))
    M.publics = [n for n in M.syms if M.syms[n].seg and rng.random() < .4]
    pubs = list(M.publics); rng.shuffle(pubs)
    if rng.random() < .5:
        for n in pubs: head.append("public " + n)
        pubs = []
    def targets(need, cur):
        r = []
        for s in M.syms.values():
            if s.kind == "code" and "c" not in need or s.kind == "data" and "d" not in need or s.kind == "abs" and "a" not in need: continue
            if "x" in need and s.seg == cur: continue
            if "s" in need and s.seg != cur and not (s.seg is None and not getattr(s, "far", 0)): continue
            if "s" in need and s.seg is None: continue
            r.append(s)
        return r
    def add_ref(S, size, kind, t, a, end):
        S.refs.append(Sec(off=len(S.data), size=size, kind=kind, sym=t.name, add=a, end=end)); S.data += bytes(size); S.mask += b"\2" * size
    def raw(S, b): S.data += b; S.mask += b"\1" * len(b)
    def line(S):
        r = rng.random(); code = S.kind == "code"
        if S.kind == "bss":
            n = rng.choice([1, 2, 8, 100]); L.append(" db %d dup (?)" % n); S.data += bytes(n); S.mask += bytes(n); return
        tpl = {64: T64, 32: T32, 16: T16}[bits]
        if code and r < .6:
            tx, op, sz, post, kind, need = rng.choice(tpl); c = targets(need, S.name)
            if fmt == "macho64" and kind == "abs" and sz == 4: c = []
            if kind == "far": c = [t for t in c if t.seg or getattr(t, "far", 0)]
            if not c: raw(S, b"\x90"); L.append(" nop"); return
            t = rng.choice(c); a = 0
            if kind in ("abs", "off") or kind == "pc" and "d" in need:
                if rng.random() < .4 and t.kind != "abs": a = rng.choice([1, 4, 8, 100, -1, -4, 0x1234, -100])
            txt = t.name + ("%+d" % a if a else "")
            if "[" in tx and a: tx = tx.replace("]", "%+d]" % a); txt = t.name
            L.append(" " + tx.format(txt)); raw(S, bytes.fromhex(op)); e = len(S.data) + sz + len(post) // 2
            add_ref(S, sz, kind, t, a, e); raw(S, bytes.fromhex(post)); return
        if r < .75:   # data reference
            kinds = {64: [("dq", 8, "abs"), ("dd", 4, "abs")], 32: [("dd", 4, "abs"), ("dd offset", 4, "abs")], 16: [("dw", 2, "off"), ("dw offset", 2, "off"), ("dw seg", 2, "seg"), ("dd", 4, "far")]}[bits]
            kinds = list(kinds)
            if fmt == "macho64": kinds = kinds[:1]
            if fmt[:4] == "coff": kinds += [("dd imagerel", 4, "rva"), ("dd sectionrel", 4, "secrel")]
            kw, sz, kind = rng.choice(kinds); c = targets("dc", S.name)
            if kind == "secrel": c = [t for t in c if t.seg]
            if not c: raw(S, b"\x07"); L.append(" db 7"); return
            n = rng.choice([1, 1, 1, 3]); ts = []
            for _ in range(n):
                t = rng.choice(c); a = rng.choice([0, 0, 1, 4, 50, -8, 0x777]) if kind in ("abs", "off", "far") else 0
                ts.append((t, a))
            its = ["%s%s%s" % ((kw.split(" ")[1] + " ") if " " in kw else "", t.name, "%+d" % a if a else "") for t, a in ts]
            if n == 1 and kind in ("abs", "off") and rng.random() < .15:
                d = rng.choice([2, 5, 40]); L.append(" %s %d dup (%s)" % (kw[:2], d, its[0])); ts = ts * d
            else: L.append(" %s %s" % (kw[:2], ", ".join(its)))
            for t, a in ts: add_ref(S, sz, kind, t, a, 0)
            return
        if r < .85:
            n = rng.choice([1, 3, 16, 60]) if rng.random() < .9 else rng.choice([700, 1000, 1023, 1024, 1025, 2100, 5000])
            if n <= 60: b = bytes(rng.randrange(1, 256) for _ in range(n)); L.append(" db " + ",".join(str(x) for x in b)) if n < 30 else [L.append(" db " + ",".join(str(x) for x in b[i:i + 25])) for i in range(0, n, 25)]
            else: v = rng.randrange(1, 256); b = bytes([v]) * n; L.append(" db %d dup (%d)" % (n, v))
            raw(S, b); return
        if r < .93 and S.align > 1:
            a = rng.choice([x for x in (2, 4, 8, 16) if x <= S.align] or [1]); n = -len(S.data) % a
            L.append(" align %d" % a); S.data += bytes(n); S.mask += bytes(n); return
        if r < .97 and S.kind == "data":
            n = rng.choice([1, 5, 64, 1500]); L.append(" db %d dup (?)" % n); S.data += bytes(n); S.mask += b"\1" * n if not 0 else b""; S.mask = S.mask; return
        v = rng.getrandbits(32); L.append(" dd 0%xh" % v); raw(S, v.to_bytes(4, "little"))
    body = []
    if bits == 16 and M.group:
        for n in names: body.append("%s\n%s ends" % (M.segs[n].opener, n)); M.segs[n].first = False
        body.append("GRP group " + ", ".join(M.group[1]))
    order = []
    per = max(1, size // max(1, len(plan)))
    for v, ls in plan:
        S = M.segs[v]
        if v not in order: order.append(v)
        L.append(S.opener if S.first or rng.random() < .5 or not getattr(S, "reopen", None) else S.reopen); S.first = False
        if bits == 16: L.append("assume cs:%s" % v if S.kind == "code" else "assume cs:nothing")
        for nm, kd in ls:
            for _ in range(rng.randrange(0, per + 1)): line(S)
            M.syms[nm].off = len(S.data)
            if kd == "code":
                L.append(nm + ("::" if rng.random() < .2 and nm not in M.publics else ":")); raw(S, b"\x90"); L.append(" nop")
            else:
                if S.kind == "bss": L.append("%s dd ?" % nm); S.data += bytes(4); S.mask += bytes(4)
                elif rng.random() < .5: L.append("%s label %s" % (nm, rng.choice(["byte", "word", "dword"]))); raw(S, b"\x66"); L.append(" db 66h")
                else: v2 = rng.getrandbits(32); L.append("%s dd 0%xh" % (nm, v2)); raw(S, v2.to_bytes(4, "little"))
        for _ in range(rng.randrange(0, per + 1)): line(S)
        if S.closer: L.append(S.closer)
        if pubs and rng.random() < .3: L.append("public " + pubs.pop())
    big_c = [t for t in M.syms.values() if t.kind in ("data", "code") and t.seg]; big_s = ["_DATA"] if simple else [n for n in names if M.segs[n].kind in ("data", "const")]
    if big and big_c and big_s:      # more references than a 16-bit count holds, or than one record holds
        v = big_s[0]; S = M.segs[v]; t = rng.choice([t for t in big_c if t.kind == "data"] or big_c); sz = {64: 8, 32: 4, 16: 2}[bits]
        if big < 0: big = 65545 + big - len(S.refs)      # -11 .. -9: 65534 .. 65536 relocations in all
        L.append(S.opener if simple else S.reopen); L.append(" %s %d dup (%s)" % ({8: "dq", 4: "dd", 2: "dw"}[sz], big, t.name))
        for _ in range(big): add_ref(S, sz, "abs" if bits > 16 else "off", t, 0, 0)
        if S.closer: L.append(S.closer)
    for n in pubs: L.append("public " + n)
    L += late
    M.entry = None
    codes = [s.name for s in M.syms.values() if s.kind == "code" and s.seg]
    if fmt[:3] == "omf" and codes and rng.random() < .5: M.entry = rng.choice(codes)
    M.order = names
    M.src = "\n".join(head + body + L) + "\nend%s\n" % (" " + M.entry if M.entry else "")
    return M

def check_image(M, seg, mem, addr, resolve, onref):
    """compares linked bytes `mem` of segment `seg` at address `addr` with the
    model; resolve(ref, addr_of_ref) -> expected integer.  onref(ref, got, want)"""
    S = M.segs[seg]
    if len(mem) != len(S.data): return "size 0x%x, declared 0x%x" % (len(mem), len(S.data))
    for i in range(len(mem)):
        if S.mask[i] == 1 and mem[i] != S.data[i]: return "byte 0x%x is %02x, declared %02x" % (i, mem[i], S.data[i])
    for r in S.refs:
        got = int.from_bytes(mem[r.off:r.off + r.size], "little"); want = resolve(r, S, addr)
        if want is not None: onref(r, got, want & ((1 << (8 * r.size)) - 1))
    return None
