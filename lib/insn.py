"""Random instructions from operand-kind templates, in UASM and GNU as syntax,
and the normal form in which two decodings are compared."""
import re
R64 = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
R32 = "eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d".split()
R16 = "ax cx dx bx sp bp si di r8w r9w r10w r11w r12w r13w r14w r15w".split()
R8L = "al cl dl bl ah ch dh bh".split()
R8X = "al cl dl bl spl bpl sil dil r8b r9b r10b r11b r12b r13b r14b r15b".split()
PTR = {"m8": "byte ptr ", "m16": "word ptr ", "m32": "dword ptr ", "m48": "fword ptr ", "m64": "qword ptr ", "m80": "tbyte ptr ",
       "m128": "xmmword ptr ", "m256": "ymmword ptr ", "m512": "zmmword ptr ", "m": ""}

def num(v):
    """(UASM text, gas text) of an integer"""
    if v < 0: return "-%d" % -v, "-%d" % -v
    h = "%x" % v
    return ("0" + h if h[0] in "abcdef" else h) + "h", "0x" + h

def disp(rng, bits):
    """a displacement, biased to the size boundaries"""
    r = rng.random()
    if r < .3: return rng.choice([1, 127, 128, -128, -129, -1, 126, 255, 256, 2, -127, 8, 16, 64, -64])
    if r < .6: return rng.randrange(-140, 140)
    if bits == 16: return rng.choice([0x7fff, -0x8000, rng.randrange(-0x8000, 0x8000)])
    if r < .7: return rng.choice([0x7fffffff, -0x80000000, 0x7ffffffe, 65536, 32768, -32769])
    if r < .85: return rng.randrange(-5000, 5000)
    return rng.randrange(-(1 << 31), 1 << 31)

def addr(rng, mode, vsib=None, simple=False, seg=False, evex=False, asize=None):
    """(uasm, gas, canonical) text of a bracketed address without size prefix"""
    a = asize or mode
    s = ""
    if seg and rng.random() < .3:
        s = rng.choice(["fs", "gs"] if mode == 64 else ["es", "cs", "ss", "ds", "fs", "gs"]) + ":"
    if a == 16 and not vsib:
        base = rng.choice(["bx", "bp", "si", "di", "bx+si", "bx+di", "bp+si", "bp+di"])
        d = disp(rng, 16) if rng.random() < .6 else 0
        u, g = [base], [base]
    else:
        regs = R64 if a == 64 else R32[:16 if mode == 64 else 8]
        base = rng.choice(regs) if rng.random() < .85 or simple else None
        idx = None
        if vsib:
            n = rng.randrange(32 if evex else 16) if mode == 64 else rng.randrange(8)
            idx = "%smm%d" % (vsib, n)
        elif not simple and (rng.random() < .6 or not base):
            idx = rng.choice([r for r in regs if r not in ("rsp", "esp")])
        sc = rng.choice([1, 2, 4, 8]) if idx else 1
        if not base and not vsib: sc = rng.choice([2, 4, 8])
        d = disp(rng, 32) if rng.random() < .6 or not base else 0
        u, g = [], []
        if base: u.append(base); g.append(base)
        if idx: u.append("%s*%d" % (idx, sc) if sc != 1 or vsib else idx); g.append("%s*%d" % (idx, sc))
    if d:
        un, gn = num(d)
        u.append(un); g.append(gn)
    j = lambda l: "+".join(l).replace("+-", "-")
    return s + "[" + j(u) + "]", s + "[" + j(g) + "]"

def reg8(rng, mode, high):
    if mode != 64: return rng.choice(R8L)
    return rng.choice(R8L) if high else rng.choice(R8X)

def operand(rng, mode, k, ctx):
    """(uasm, gas) text of one operand of kind k"""
    n = 16 if mode == 64 else 8
    same = lambda t: (t, t)
    if k in ("al", "ax", "eax", "rax", "cl", "dx", "es", "ds", "fs", "st"): return same(k)
    if k == "r8": return same(reg8(rng, mode, ctx["high"]))
    if k == "r16": return same(rng.choice(R16[:n]))
    if k == "r32": return same(rng.choice(R32[:n]))
    if k == "r64": return same(rng.choice(R64))
    if k == "sr": return same(rng.choice(["es", "ss", "ds", "fs", "gs"]))
    if k == "cr": return same("cr%d" % rng.choice([0, 2, 3, 4, 8] if mode == 64 else [0, 2, 3, 4]))
    if k == "dr": return same("dr%d" % rng.choice([0, 1, 2, 3, 6, 7]))
    if k == "sti": return same("st(%d)" % rng.randrange(8))
    if k == "mm": return same("mm%d" % rng.randrange(8))
    if k in ("x", "y", "z"):
        m = (32 if ctx["evex"] else 16) if mode == 64 else 8
        r = rng.randrange(m)
        if ctx.get("distinct"):
            while r in ctx["used"]: r = rng.randrange(m)
            ctx["used"].add(r)
        return same("%smm%d" % (k, r))
    if k == "k": return same("k%d" % rng.randrange(8))
    if k == "bnd": return same("bnd%d" % rng.randrange(4))
    if k in PTR:
        if ctx.get("addr"): u, g = ctx["addr"](rng)
        elif mode == 16: u, g = addr(rng, 16)
        else: u, g = addr(rng, mode, simple=ctx.get("simplemem", False))
        return PTR[k] + u, PTR[k] + g
    if k in ("vmx", "vmy", "vmz"):
        u, g = addr(rng, 64 if mode == 64 else 32, vsib=k[2], evex=ctx["evex"])
        m = re.search(r"[xyz]mm(\d+)", u); ctx["used"].add(int(m[1]))
        return u, g
    if k == "i1": return same("1")
    if k == "i8": return num(rng.choice([2, 3, 7, 0x7f, 0x7e, 0, rng.randrange(2, 128), rng.randrange(2, 128)]))
    if k == "in": return num(rng.choice([-1, -128, -127, rng.randrange(-128, 0)]))
    if k == "i16": return num(rng.choice([128, 129, 255, 256, 0x7fff, 0x7ffe, rng.randrange(128, 0x8000)]))
    if k == "i32": return num(rng.choice([0x8000, 0x10000, 0x7fffffff, 0xffff, rng.randrange(0x8000, 0x80000000)]))
    if k == "i64": return num(rng.choice([1 << 31, 1 << 32, (1 << 63) - 1, rng.randrange(1 << 31, 1 << 63)]))
    raise KeyError(k)

NOHIGH = {"r64", "rax"}
def insn(rng, mode, mn, kinds, evex=False, deco="", addrfn=None):
    """(uasm line, gas line).  deco: '' or comma list of km (mask on first
    operand), kz (mask+zero), bN (broadcast 1toN on the memory operand), and
    one of sae/rn/rd/ru/rz (rounding as trailing decorator)."""
    ctx = {"addr": addrfn, "evex": evex, "used": set(), "high": "r64" not in kinds and not any(k[0] == "m" and k != "mm" for k in kinds) or mode != 64,
           "distinct": "gather" in mn or "scatter" in mn}
    if mode == 64 and ctx["high"] and (rng.random() < .6 or {"r16", "r32", "rax", "r64"} & set(kinds)): ctx["high"] = False
    us, gs = [], []
    order = range(len(kinds))
    for i in order:
        u, g = operand(rng, mode, kinds[i], ctx)
        us.append(u); gs.append(g)
    ds = deco.split(",") if deco else []
    for d in ds:
        if d in ("km", "kz"):
            t = "{k%d}" % rng.randrange(1, 8) + ("{z}" if d == "kz" else "")
            us[0] += t; gs[0] += t
        elif d[0] == "b":
            for i in range(len(us)):
                if "[" in us[i]:
                    u = re.sub(r"^\w+ ptr ", "", us[i]); g = re.sub(r"^\w+ ptr ", "", gs[i])
                    us[i] = u.split("]")[0] + "]{1to%s}" % d[1:] + u.split("]")[1]; gs[i] = g.split("]")[0] + "]{1to%s}" % d[1:] + g.split("]")[1]
        else:
            t = "{sae}" if d == "sae" else "{%s-sae}" % d
            pos = len(us)
            us.insert(pos, t); gs.insert(pos, t)
    if ds and ds[-1] in ("sae", "rn", "rd", "ru", "rz") and kinds and kinds[-1] == "i8":
        us[-2], us[-1] = us[-1], us[-2]; gs[-2], gs[-1] = gs[-1], gs[-2]
    return mn + " " + ", ".join(us), mn + " " + ", ".join(gs)

# ------------------------------------------------------------ normal form
TO32 = dict(zip(R64, R32)); TO32.update(zip(R16, R32))
WIDEDST = re.compile(r"^(v?movmskp[sd]|v?pmovmskb|v?pextr[bw]|v?extractps|lar|lsl|smsw|str|sldt|mov)$")
SR = {"es", "cs", "ss", "ds", "fs", "gs"}
def mem(t, mode):
    """normal form of a bracketed operand: same address, same segment"""
    m = re.match(r"(?:(\w\w):)?\[([^]]*)\]$", t)
    if not m: return t
    seg, body = m[1], m[2]
    d = 0; regs = []
    for sg, term in re.findall(r"([+-]?)([^+-]+)", body):
        if term.startswith("0x") or term[0].isdigit():
            v = int(term, 0); d += -v if sg == "-" else v
        else:
            r, _, s = term.partition("*")
            if r in ("riz", "eiz"): continue
            regs.append((r, int(s or 1), bool(s)))
    if any(r in ("bx", "bp", "si", "di") for r, _, _ in regs): d &= 0xffff
    if any(r in R32 or r == "eip" for r, _, _ in regs): d &= 0xffffffff
    base = next((r for r, s, x in regs if not x), None)
    if not base and len(regs) == 1 and regs[0][1] == 1: base = regs[0][0]
    dflt = "ss" if base in ("bp", "ebp", "esp", "rbp", "rsp") else "ds"
    if mode == 64: dflt = "ds"; seg = None if seg in ("ds", "es", "ss", "cs") else seg
    seg = seg or dflt
    acc = {}
    for r, s, x in regs: acc[r] = acc.get(r, 0) + s
    if mode != 64 or "vsib" in acc: pass
    return "%s:[%s%+d]" % (seg, "+".join("%s*%d" % z for z in sorted(acc.items())), d)

def norm(t, mode):
    t = re.sub(r"(?:(?:data16|addr32|addr16|rex(?:\.\w+)?|\{evex\}|\{vex3?\}|ds|\{rex2?\}) )+(?=[a-z{])", lambda m: "data16 " if "data16" in m[0] and re.search(r"iret|popf|pushf|sysret|ret|push|pop|leave|enter|call|jmp|s[gi]dt|l[gi]dt", t) else "", t, count=1)
    t = re.sub(r"^data32 (?!ret|call|jmp|push|pop|iret|leave|enter|s[gi]dt|l[gi]dt)", "", t)
    t = re.sub(r"^(retf?) 0x0$", r"\1", t)
    t = re.sub(r"\b(\w\w):(0x[0-9a-f]+)\b", r"\1:[\2]", t)
    t = re.sub(r"^movabs ", "mov ", t)
    p = t.split(" ", 1)
    if len(p) < 2: return t
    mn, ops = p
    pre = ""
    while mn in ("lock", "rep", "repz", "repnz", "xacquire", "xrelease", "bnd", "data16", "notrack") and " " in ops:
        pre += mn + " "; mn, ops = ops.split(" ", 1)
    ol = []; cur = ""; depth = 0
    for ch in ops:
        if ch in "[({": depth += 1
        if ch in "])}": depth -= 1
        if ch == "," and depth == 0: ol.append(cur); cur = ""
        else: cur += ch
    ol.append(cur)
    r = []
    for o in ol:
        m = re.match(r"((?:[A-Z]+ (?:PTR|BCST) )?)((?:\w\w:)?\[[^]]*\])(.*)$", o)
        r.append(m[1] + mem(m[2], mode) + m[3] if m else o)
    if mn in ("test", "xchg"): r.sort()
    if WIDEDST.match(mn) and not (mn == "mov" and not (SR & set(r[:2]))):
        r[:] = [TO32.get(x, x) for x in r]
        if mn == "mov": r[:] = [re.sub(r"^(WORD|DWORD|QWORD) PTR ", "", x) for x in r]
    return pre + mn + " " + ",".join(r)

HDR = {16: ".686p\n.xmm\n_T segment use16 'CODE'\n", 32: ".686p\n.xmm\n_T segment use32 'CODE'\n", 64: ".x64p\n_T segment use64 'CODE'\n"}

def load(path):
    """[(tag, mnemonic, kinds, deco)] of the corpus file"""
    r = []
    for l in open(path):
        tag, mn, *fs = l.split()
        for f in fs:
            k, _, d = f.partition("|")
            r.append((tag, mn, tuple(k.split(",")) if k not in ("-", "") else (), d))
    return r

def assemble(exe, mode, lines, evex=False, pre="", timeout=120):
    """[(bytes or None, error text)] per line; None where the assembler
    rejects the line.  Raises Broken when it does something else."""
    import vf
    res = [None] * len(lines); why = [""] * len(lines); live = list(range(len(lines)))
    hdr = HDR[mode] + ("option evex:1\n" if evex else "") + pre + "lab:\n"
    n0 = hdr.count("\n")
    for _ in range(25):
        if not live: break
        src = hdr + "".join("Lx%d: %s\n" % (i, lines[i]) for i in live) + "LxEND:\n" + "".join(" dd Lx%d-lab\n" % i for i in live) + " dd LxEND-lab\n_T ends\nend\n"
        r = vf.asm(exe, src, ("-q", "-bin", "-e9999999"), timeout=timeout)
        if r.rc == 0 and "t.bin" in r.files:
            b = r.files["t.bin"]; n = len(live) + 1
            t = b[len(b) - 4 * n:] if len(b) >= 4 * n else b""
            offs = [int.from_bytes(t[4 * i:4 * i + 4], "little") for i in range(n)]
            if offs[-1:] != [len(b) - 4 * n] or any(x > y for x, y in zip(offs, offs[1:])):
                raise Broken("label table does not describe the code", src, r)
            for k, i in enumerate(live): res[i] = b[offs[k]:offs[k + 1]]
            break
        bad = {}
        for e in r.errors():
            if e[2] != "Warning" and n0 < e[1] <= n0 + len(live): bad.setdefault(e[1] - n0 - 1, e[4])
        if r.timeout or not bad:
            if len(live) == 1:      # this very line breaks the assembler
                why[live[0]] = "assembler failed (status %s): %s" % (r.rc, r.text()[-200:]); break
            h = len(live) // 2
            for part in (live[:h], live[h:]):
                for i, (b, w) in zip(part, assemble(exe, mode, [lines[i] for i in part], evex, pre, timeout)):
                    res[i], why[i] = b, w
            break
        for k, t in bad.items(): why[live[k]] = t
        live = [l for k, l in enumerate(live) if k not in bad]
    else:
        for i in live: why[i] = "errors in every attempt"
    return list(zip(res, why))

class Broken(Exception):
    pass
