#!/usr/bin/env python3
# C19: the listing file against the object file, the source lines and the generator's record of the symbols.
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, objread

MODES = [("coff", 32, ["-coff"]), ("elf", 32, ["-elf"]), ("omf32", 32, ["-omf"]), ("omf16", 16, ["-omf"]),
         ("win64", 64, ["-win64"]), ("elf64", 64, ["-elf64"]), ("bin", 32, ["-bin"])]
NB = 9      # bytes shown per line


class Gen:
    def __init__(self, rng, fmt, bits):
        self.r, self.fmt, self.bits = rng, fmt, bits
        self.exp = []          # (text, opts) in the order of the listing
        self.main = []
        self.inc = None        # lines of the include being written
        self.files = {}
        self.seg = None
        self.n = 0
        self.syms = {}         # name -> kind
        self.consts = {}
        self.texts = {}
        self.labels = []       # code labels (global)
        self.datas = []
        self.macros = []
        self.mac2 = []
        self.structs = []
        self.hidden = False
        self.gap = False
        self.inproc = None

    def nm(self, p="v"):
        self.n += 1
        return "%s%s%d" % (p, self.r.choice(["_", "x_", "Qz", "long_name_part_", "y_"]), self.n)

    def L(self, text, kind="", listed=True, opt=False, emit=None, lab=None, com=True):
        """one physical source line; kind '' / 'struct' / 'org'..., emit: bytes are expected (True), forbidden (False)"""
        if com and self.r.random() < .35 and "\\" not in text:
            self.n += 1
            text += self.r.choice([" ; c%d", "\t;c%d x", "  ;; c%d  y", ";c%d 'q"]) % self.n
        (self.main if self.inc is None else self.inc).append(text)
        if self.hidden or not listed:
            self.gap = True
            return
        self.exp.append((text, dict(kind=kind, seg=self.seg, opt=opt, emit=emit, lab=lab, inc=self.inc is not None, gap=self.gap)))
        self.gap = False

    # --- data -------------------------------------------------------
    def data(self):
        r = self.r
        lab = self.nm("d") if r.random() < .7 else ""
        k = r.randrange(10)
        if self.seg == "bss":
            t = r.choice(["db", "dw", "dd", "dq"]) + " " + r.choice(["?", "%d dup (?)" % r.randint(1, 40), "?,?,?"])
        elif k == 0:
            t = "db " + ",".join(str(r.randrange(256)) for _ in range(r.randint(1, 24)))
        elif k == 1:
            s = "".join(r.choice("abc XYZ019;,<>!%") for _ in range(r.randint(1, 30)))
            t = "db '%s',%d" % (s, r.randrange(256))
        elif k == 2:
            t = "dw " + ",".join("0%Xh" % r.randrange(65536) for _ in range(r.randint(1, 9)))
        elif k == 3:
            t = "dd " + ",".join("0%Xh" % r.randrange(1 << 32) for _ in range(r.randint(1, 6)))
        elif k == 4:
            t = "dq " + ",".join("0%Xh" % r.randrange(1 << 64) for _ in range(r.randint(1, 3)))
        elif k == 5:
            t = "db %d dup (%d,%d)" % (r.choice([1, 3, 4, 5, 20, 300, 511, 700, 1500]), r.randrange(256), r.randrange(256))
        elif k == 6:
            t = r.choice(["real4 1.5,2.25,-3.0", "real8 1.0e10", "dt 3.125", "real8 -2.5,7.75"])
        elif k == 7 and self.datas and self.fmt != "bin":
            t = {16: "dw", 32: "dd", 64: "dq"}[self.bits] + " offset %s" % r.choice(self.datas)
        elif k == 9 and r.random() < .5:
            t = r.choice(["db %d,%d,?", "db %d,?,%d", "db ?,%d,%d", "dw %d,%d,3 dup (?)", "dd 2 dup (%d,?,%d)"]) % (r.randrange(128), r.randrange(128))
        elif k == 8 and self.structs:
            t = "%s %s" % (r.choice(self.structs), r.choice(["<>", "<1,2>", "{3,4}", "3 dup (<5,6>)"]))
        else:
            t = "db %d" % r.randrange(256)
        if lab:
            self.syms[lab] = "data"
            self.datas.append(lab)
            t = lab + " " + t
        if r.random() < .1 and "," in t and "'" not in t and "<" not in t and "{" not in t and "(" not in t:
            # a continued line is listed as one line
            i = t.rindex(",")
            a, b = t[:i + 1] + " \\", "   " + t[i + 1:]
            self.rawcont(a, b, lab or None)
        else:
            self.L("  " * r.randrange(3) + t, emit=True, lab=lab or None)

    def rawcont(self, a, b, lab):
        (self.main if self.inc is None else self.inc).extend([a, b])
        if self.hidden:
            self.gap = True
            return
        self.exp.append((a[:-1].rstrip() + " " + b.strip(), dict(kind="cont", seg=self.seg, opt=False, emit=True, lab=lab, inc=self.inc is not None, gap=self.gap)))
        self.gap = False

    # --- code -------------------------------------------------------
    def ax(self):
        return {16: "ax", 32: "eax", 64: "rax"}[self.bits]

    def insn(self):
        r = self.r
        e = "e" if self.bits > 16 else ""
        k = r.randrange(11)
        if k == 0:
            t = "mov %s%s, %d" % (e, r.choice(["ax", "bx", "cx", "dx", "si", "di"]), r.randrange(30000))
        elif k == 1:
            t = "%s %s%s, %s%s" % (r.choice(["add", "xor", "cmp", "and", "test", "mov"]), e, r.choice(["ax", "bx", "si"]), e, r.choice(["cx", "dx", "di"]))
        elif k == 2:
            t = r.choice(["nop", "cld", "std", "hlt", "cwd", "lahf" if self.bits < 64 else "cqo", "rep movsb", "xlatb" if self.bits < 64 else "syscall"])
        elif k == 3 and self.labels:
            t = r.choice(["jmp ", "jz ", "jnc ", "call "]) + r.choice(self.labels)
        elif k == 4:
            t = r.choice(["jmp ", "jz ", "call "]) + self.fwd
            self.fwdused = True
        elif k == 5:
            t = "jmp @F"
            self.anon = True
        elif k == 6 and self.datas and self.fmt != "bin":
            t = "mov al, byte ptr %s" % r.choice(self.datas) + r.choice(["", "+1", "[%s]" % {16: "bx", 32: "ebx", 64: "rbx"}[self.bits]] if self.bits < 64 else ["", "+1"])
        elif k == 7 and self.bits == 64:
            t = r.choice(["mov rax, 0123456789ABCDEFh", "add r8, r9", "vaddps ymm1,ymm2,[rax+r9*4+1234h]", "lock add qword ptr [r12+8], 12345678h"])
        elif k == 7:
            t = r.choice(["add word ptr %s, 1234h" % {16: "es:[bx+1234h]", 32: "es:[ebx+ecx*4+12345h]"}[self.bits], "fld qword ptr ds:[%d]" % r.randrange(100) if self.bits == 32 else "fldz"])
        elif k == 8:
            t = "db " + ",".join(str(r.randrange(256)) for _ in range(r.randint(1, 12)))
        elif k == 9:
            t = r.choice(["push ", "pop ", "inc ", "dec "]) + self.ax()
        else:
            t = "lea %sax, [%sbx+%d]" % (e, e if self.bits < 64 else "r", r.randrange(300)) if self.bits < 64 else "lea rax, [rbx+%d]" % r.randrange(300)
        lab = None
        if r.random() < .2 and not t.startswith("db "):
            lab = self.nm("l")
            t = lab + ": " + t
            self.addlab(lab)
        self.L(" " * r.randrange(4) + t, emit=True, lab=lab)

    def addlab(self, lab):
        if self.inproc is None:
            self.labels.append(lab)
            self.syms[lab] = "code"
        else:
            self.inproc.append(lab)

    def label(self):
        lab = self.nm("L")
        self.addlab(lab)
        self.L(lab + ":", kind="label", lab=lab)

    def block(self, depth=0):
        r = self.r
        k = r.randrange(18)
        if k < 7:
            for _ in range(r.randint(1, 4)):
                self.insn()
        elif k == 7:
            self.label()
        elif k == 8 and self.macros:
            m = r.choice(self.macros)
            self.L("  %s %d" % (m, r.randrange(100)), kind="mcall")
        elif k == 9:
            c, v = self.r.choice(list(self.consts.items())) if self.consts else ("1", 1)
            t = r.randrange(2)
            self.L("if %s eq %d" % (c, v if t else v + 1), kind="if", opt=True)
            self.sub(depth, not t)
            if r.random() < .5:
                self.L("else", kind="if", opt=True)
                self.sub(depth, t)
            self.L("endif", kind="if", opt=True)
        elif k == 10 and depth < 2:
            self.L("%s %d" % (r.choice(["rept", "repeat"]), r.randrange(4)), kind="loop")
            self.ml("  push %s" % self.ax())
            if r.random() < .5:
                self.ml("  db %d dup (%d)" % (r.randint(1, 12), r.randrange(256)))
            self.ml("endm")
        elif k == 11 and depth < 2:
            self.L("for zz, <%s>" % ",".join(str(r.randrange(200)) for _ in range(r.randint(1, 4))), kind="loop")
            self.ml(" mov al, zz")
            self.ml("endm")
        elif k == 12 and self.bits > 16 and depth < 3:
            self.hll(depth)
        elif k == 13:
            self.L(r.choice(["", "; just a comment", "  ;x", "\t"]), com=False)
        elif k == 14 and depth == 0 and not self.hidden and self.inproc is None:
            self.L(".nolist" if r.random() < .8 else ".xlist", listed=False, com=False)
            self.hidden = True
            for _ in range(r.randint(1, 4)):
                self.insn()
            self.hidden = False
            self.L(r.choice([".list", ".listall"] if False else [".list"]), kind="list", opt=True)
        elif k == 15 and depth == 0 and self.inproc is None and self.bits < 64 and self.fmt != "bin":
            self.L("org $+%d" % r.randint(1, 20), kind="org")
        elif k == 16:
            self.L(r.choice(["align 4", "even", "align 2"]), kind="align")
        else:
            self.const()
        if self.anon and r.random() < .5:
            self.L("@@:", kind="label")
            self.anon = False
        if self.fwdused and r.random() < .4:
            self.putfwd()

    def putfwd(self):
        lab = self.fwd
        self.addlab(lab)
        self.L(lab + ":", kind="label", lab=lab)
        self.fwd = self.nm("F")
        self.fwdused = False

    def sub(self, depth, hidden):
        """lines of a conditional-assembly branch; those of a false one are not listed (unless -Sx: optional)"""
        r = self.r
        if hidden:
            for _ in range(r.randint(1, 3)):
                t = r.choice([" nop", " this is false", " mov eax,", "x dd 5", " .if", ""])
                self.n += 1
                t += " ; f%d" % self.n
                (self.main if self.inc is None else self.inc).append(t)
                self.exp.append((t, dict(kind="false", seg=self.seg, opt=True, emit=False, lab=None, inc=self.inc is not None, gap=False)))
        else:
            for _ in range(r.randint(1, 3)):
                self.insn()

    def hll(self, depth):
        r = self.r
        k = r.randrange(5)
        a = self.ax()
        if k == 0:
            self.L(".if %s == %d" % (a, r.randrange(99)), kind="hll")
            self.block(depth + 1)
            if r.random() < .4:
                self.L(".elseif %s > 3 && ecx != 2" % a, kind="hll")
                self.block(depth + 1)
            if r.random() < .4:
                self.L(".else", kind="hll")
                self.block(depth + 1)
            self.L(".endif", kind="hll")
        elif k == 1:
            self.L(".while %s" % a, kind="hll")
            self.block(depth + 1)
            if r.random() < .4:
                self.L(".break .if ecx == 7", kind="hll")
            self.L(".endw", kind="hll")
        elif k == 2:
            self.L(".repeat", kind="hll")
            self.block(depth + 1)
            self.L(".until %s == 4" % a, kind="hll")
        elif k == 3 and depth == 0 and self.fmt != "bin" and self.model:
            self.L(".switch %s" % a, kind="hll")
            base = r.randrange(5)
            for i in range(r.choice([1, 2, 3, 6])):
                self.L(".case %d" % (base + i * r.choice([1, 1, 1, 50])) if False else ".case %d" % (base + i), kind="hll")
                self.insn()
            if r.random() < .5:
                self.L(".default", kind="hll")
                self.insn()
            self.L(".endswitch", kind="endsw")
            self.gap = True
        else:
            self.L(".if %s & 4" % a, kind="hll")
            self.insn()
            self.L(".endif", kind="hll")

    def ml(self, t):
        """a line of a macro (or loop) body: listed with '>'"""
        self.L(t, kind="mac")

    def const(self):
        r = self.r
        c = self.nm("K")
        k = r.randrange(4)
        if k == 0:
            v = r.choice([0, 1, r.randrange(1 << 16), (1 << 31) - 1])
            self.L("%s equ %d" % (c, v), kind="equ", lab=("num", c, v))
            self.consts[c] = v
        elif k == 1:
            v = r.randrange(1 << 16)
            self.L("%s = %d" % (c, v), kind="equ", lab=("num", c, v))
            self.consts[c] = v
        elif k == 2:
            v = "".join(r.choice("abcd efgh+1") for _ in range(r.choice([3, 10, 25, 26, 60]))).strip() or "q"
            self.L("%s textequ <%s>" % (c, v), kind="tequ", com=False, lab=("text", c, v))
            self.texts[c] = v
        else:
            self.L("%s typedef ptr byte" % c, kind="typedef")

    def struct(self):
        r = self.r
        s = self.nm("S")
        self.L("%s struct" % s, kind="struct")
        self.L(" %s dd %s" % (self.nm("m"), r.choice(["?", "3"])), kind="struct")
        self.L(" %s db ?" % self.nm("m"), kind="struct")
        if r.random() < .4:
            self.L("", kind="struct", com=False)
            self.L(" %s dw 3 dup (?)" % self.nm("m"), kind="struct")
        self.L("%s ends" % s, kind="struct")
        self.structs.append(s)

    def macro(self):
        r = self.r
        m = self.nm("M")
        self.L("%s macro pp" % m, kind="mdef")
        for _ in range(r.randint(1, 4)):
            t = r.randrange(5)
            if t == 0:
                self.ml("  mov al, pp")
            elif t == 1:
                self.ml(" db pp dup (90h)")
            elif t == 2:
                self.ml("if pp gt 50")
                self.ml("  nop")
                self.ml("endif")
            elif t == 3 and self.macros:
                self.ml("  %s pp+1" % r.choice(self.macros))
            else:
                self.L(r.choice(["", "; text", "  nop"]), kind="mac", com=False)
        self.ml("endm")
        self.macros.append(m)

    def proc(self):
        r = self.r
        if self.fwdused:
            self.putfwd()
        if self.anon:
            self.L("@@:", kind="label")
            self.anon = False
        p = self.nm("p")
        self.labels.append(p)
        self.syms[p] = "proc"
        self.inproc = []
        a = ""
        if self.bits > 16 and self.model:
            a = r.choice(["", " a1:dword", " a1:dword, a2:dword", " uses %s" % {32: "esi edi", 64: "rsi rdi"}[self.bits]])
        self.L("%s proc%s" % (p, a), kind="proc", lab=p)
        if a and r.random() < .5:
            self.L(" local %s:dword" % self.nm("lv"), kind="local")
        for _ in range(r.randint(1, 5)):
            self.block(0)
        if self.fwdused:
            self.putfwd()
        if self.anon:
            self.L("@@:", kind="label")
            self.anon = False
        self.L(" ret", kind="ret")
        self.L("%s endp" % p, kind="endp")
        for l in self.inproc:
            self.syms[l] = "local"
        self.inproc = None

    def setseg(self, s):
        self.seg = s
        if self.model:
            self.L({"code": ".code", "data": ".data", "bss": ".data?"}[s], kind="seg")
        else:
            self.L({"code": "cseg segment %s 'CODE'", "data": "dseg segment %s 'DATA'"}[s] % ({16: "use16", 32: "use32", 64: "use64"}[self.bits] if self.bits < 64 else ""), kind="seg")

    def endseg(self):
        if not self.model:
            self.L({"code": "cseg", "data": "dseg"}[self.seg] + " ends", kind="seg")

    def program(self):
        r = self.r
        self.anon = self.fwdused = False
        self.fwd = self.nm("F")
        self.model = self.fmt != "bin"
        if self.bits < 64:
            self.L({16: ".286", 32: ".686"}[self.bits])
        if self.model:
            if self.bits == 16:
                self.L(".model small")
            elif self.bits == 32:
                self.L(".model flat, stdcall")
        self.L("option casemap:none")
        for _ in range(r.randint(0, 3)):
            r.choice([self.const, self.struct, self.macro])()
        if r.random() < .3:
            self.L("comment ~ some text", kind="comment", com=False)
            self.L("  more text", com=False)
            self.L("~ end", com=False)
        for _ in range(r.randint(2, 6)):
            s = r.choice(["code", "code", "data", "bss"] if self.model else ["code", "data"])
            self.setseg(s)
            inc = r.random() < .25 and self.inc is None
            if inc:
                self.n += 1
                f = "i%d.inc" % self.n
                self.L("include " + f, kind="include")
                self.inc = []
            for _ in range(r.randint(1, 5)):
                if s == "code":
                    if self.model and r.random() < .4:
                        self.proc()
                    else:
                        self.block()
                else:
                    k = r.random()
                    if k < .8:
                        self.data()
                    elif k < .9:
                        self.const()
                    else:
                        self.L(r.choice(["align 4", "align 2"]), kind="align")
            if s == "code":
                if self.fwdused:
                    self.putfwd()
                if self.anon:
                    self.L("@@:", kind="label")
                    self.anon = False
            if inc:
                self.files[f] = "\n".join(self.inc) + "\n"
                self.inc = None
            self.endseg()
            if r.random() < .3:
                r.choice([self.const, self.struct, self.macro])()
        self.L(" end", com=False)
        return "\n".join(self.main) + "\n"


def sections(fmt, b):
    """name class -> (data, bss length)"""
    d = {}
    if fmt == "bin":
        return None
    if fmt in ("coff", "win64"):
        secs = [(s.name, s.data, s.bss) for s in objread.coff(b).secs]
    elif fmt in ("elf", "elf64"):
        secs = [(s.name, s.data, s.name.startswith(".bss")) for s in objread.elf(b).secs]
    else:
        secs = [(s.name, s.data, s.name == "_BSS") for s in objread.omf(b).segs[1:]]
    for n, data, bss in secs:
        for k, p in (("code", (".text", "_TEXT")), ("data", (".data", "_DATA")), ("bss", (".bss", "_BSS"))):
            if n in p:
                d[k] = data if k != "bss" else None
    return d


HEX = re.compile(r"[0-9A-F]+$")


def parse(text):
    """listing -> (body rows, tables)"""
    lines = text.split("\n")
    i = 0
    while i < len(lines) and not lines[i].startswith("UASM v"):
        i += 1
    i += 1
    body, tabs, cur = [], {}, None
    while i < len(lines):
        l = lines[i].rstrip("\r")
        if cur is None:
            if re.match(r"[A-Z][A-Za-z, ]+:$", l) or re.match(r"t\.asm: \d+ lines, ", l):
                cur = tabs.setdefault(l, [])
            else:
                body.append(l)
        else:
            if re.match(r"[A-Z][A-Za-z, ]+:$", l):
                cur = tabs.setdefault(l, [])
            else:
                cur.append(l)
        i += 1
    return body, tabs


def judge(fmt, opts, g, body, tabs, out):
    """-> list of (key, message), counters"""
    bad, cnt = [], dict(bytes=0, lines=0, syms=0, contig=0)
    secs = sections(fmt, out)
    first = "-Sf" in opts
    bits64 = fmt in ("win64", "elf64")
    allgen = "-Sa" in opts or "-Sg" in opts
    exp = g.exp
    if "-Sx" in opts:
        exp = [(t, dict(o, opt=o["opt"] and o["kind"] not in ("false", "if"))) for t, o in exp]
    e = 0
    cur = None           # opts of the last source line matched
    last = {}            # seg -> (row text, ofs, shown) for the contiguity rule
    where = {}           # label -> offset shown on its line
    gapped = set()
    j = 2
    rows = body[2:] if len(body) > 2 and body[1].endswith("t.asm") else body[1:]
    # header: blank, file name
    k = 0
    while k < len(body) and not body[k].endswith("t.asm"):
        k += 1
    rows = body[k + 1:]
    prevcont = False
    proseen = 0
    while rows and rows[-1] == "":
        rows.pop()
    for row in rows:
        left, text = row[:32].ljust(32), row[32:]
        if re.match(r" +(Warning|Error) [A-Z]\d{4}: ", row):
            continue
        gen = left[28] == "*"
        mlevel = left[29] in "123456789"
        num = re.match(r"([0-9A-F]{8})(  ([0-9A-F]*))? *$", left[:28])
        ofs = int(num.group(1), 16) if num else None
        hx = (num.group(3) or "") if num else ""
        if left[:28].strip() and not num and left[1] not in "=>" and not re.match(r"[0-9A-F]{8} = ", left) and left[:3] != "   ":
            bad.append(("garbled", "unreadable left part %r before %r" % (left, text[:60])))
            continue
        if left[:3] == "   " and left[3] != " " and not text.strip() and prevcont:
            continue                       # continuation of a long text value
        if left[:3] == "   " and left[3:28].strip() and prevcont:
            continue
        if not gen and not mlevel:
            # a source line
            m = e
            while m < len(exp) and exp[m][0].rstrip() != text.rstrip() and not same(exp[m], text) and exp[m][1]["opt"]:
                m += 1
            if not row.strip() and (m >= len(exp) or not same(exp[m], text)) and g.macros:
                continue                   # an empty line of an expanded macro
            if m >= len(exp) or not same(exp[m], text):
                # look for it further on
                nxt = exp[e:e + 3]
                bad.append(("order", "listed %r where the source has %r" % (text[:80], [x[0][:60] for x in nxt])))
                return bad, cnt
            o = exp[m][1]
            if any(x[1]["gap"] for x in exp[e:m + 1]):
                gapped = set(["code", "data", "bss"])
            e = m + 1
            cnt["lines"] += 1
            cur = o
            prevcont = o["kind"] == "tequ"
            if (left[30] == "C") != o["inc"]:
                bad.append(("incmark", "line %r: include mark %r" % (text[:60], left[30])))
            if (left[1] == ">") != (o["kind"] == "mac"):
                bad.append(("macmark", "line %r: left part %r" % (text[:60], left)))
            if o["kind"] == "equ":
                v = re.search(r"= ([0-9A-F]+) *$", left[:30])
                if not v or int(v.group(1), 16) != o["lab"][2]:
                    bad.append(("equ", "line %r: shown %r" % (text[:60], left)))
            if o["kind"] == "tequ":
                if left[1] != "=" or left[3:28].rstrip() != o["lab"][2][:25].rstrip():
                    bad.append(("tequ", "line %r: shown %r" % (text[:60], left)))
            if o["emit"] and not first and not hx:
                big = "dup" in text
                if not (fmt.startswith("omf") and big):
                    bad.append(("nobytes", "line %r emits code or data, but no bytes are shown: %r" % (text[:60], left)))
            if o["emit"] and ofs is None:
                bad.append(("noofs", "line %r emits code or data, but no offset is shown: %r" % (text[:60], left)))
            if isinstance(o["lab"], str):
                if ofs is None:
                    bad.append(("noofs", "line %r defines %s, but shows no offset" % (text[:60], o["lab"])))
                else:
                    where[o["lab"]] = ofs
            if o["kind"] in ("org", "align", "seg", "include", "endsw", "local"):
                gapped.add(o["seg"])
                if o["kind"] in ("seg",):
                    gapped |= set(["code", "data", "bss"])
            if o["kind"] == "proc":
                proseen = 3      # the next lines may have a prologue before them
            elif proseen and o["emit"]:
                proseen -= 1
        if cur is None or cur["kind"] in ("struct", "seg") or cur["seg"] is None:
            continue
        seg = cur["seg"]
        if ofs is None:
            continue
        if mlevel and not hx:
            continue
        if gen and re.match(r" *(\.data|\.code|\S+ (segment|ends))", text):
            gapped |= set(["code", "data", "bss"])
            continue
        n = len(hx) // 2
        if hx and not first:
            if len(hx) % 2 or not HEX.match(hx):
                bad.append(("garbled", "byte field %r of %r" % (hx, text[:60])))
                continue
            want = None
            if secs is not None:
                if seg == "bss":
                    want = b"\0" * n
                elif seg in secs:
                    want = secs[seg][ofs:ofs + n]
            else:
                want = None
            if secs is not None and want is not None:
                cnt["bytes"] += n
                if bytes.fromhex(hx) != want:
                    tail = fmt.startswith("omf") and ("?" in text or any(s in text for s in g.structs))
                    bad.append(("omf-uninit-item" if tail else "bytes", "%s %08X shows %s, the file has %s: %r" % (seg, ofs, hx, want.hex().upper(), text[:60])))
        # contiguity
        if allgen and not first and secs is not None:
            p = last.get(seg)
            if p and seg not in gapped and p[3]:
                dist = ofs - p[1]
                cnt["contig"] += 1
                if dist < 0 or min(NB, dist) != p[2] and not (bits64 and dist > p[2] and "-Sf" not in opts and (p[4] or proseen)):
                    # 64-bit: some lines of a prologue are generated from the second pass on only, and not listed
                    if not (p[2] == 0 and fmt.startswith("omf") and dist > 200):
                        bad.append(("extent", "line at %s %08X shows %d bytes, the next line is at %08X: %r / %r" % (seg, p[1], p[2], ofs, p[0][:50], text[:50])))
            gapped.discard(seg)
            last[seg] = (text, ofs, n, True, gen)
            if n == 0:
                last[seg] = (text, ofs, n, cur["kind"] in ("label",) or gen, gen)
    rest = [x for x in exp[e:] if not x[1]["opt"]]
    if rest:
        bad.append(("missing", "not listed: %r" % [x[0][:60] for x in rest[:3]]))
    # tables
    sy = tabs.get("Symbols:")
    if "-Sn" in opts:
        if sy is not None:
            bad.append(("notab", "symbol tables listed with -Sn"))
    elif sy is None:
        bad.append(("notab", "no symbol table"))
    else:
        got = {}
        pr = tabs.get("Procedures, parameters and locals:", [])
        for l in sy + pr:
            m = re.match(r"(\S+)( \.| )", l.strip() + " ")
            if m:
                got.setdefault(m.group(1), []).append(l)
        for n, kind in g.syms.items():
            l = got.get(n, [])
            if len(l) != 1:
                bad.append(("symcount", "symbol %s is listed %d times" % (n, len(l))))
                continue
            cnt["syms"] += 1
            v = re.search(r"\s([0-9A-F]+)h ", l[0] + " ") if kind not in ("proc", "local") else re.search(r" ([0-9A-F]{8}|[0-9A-F]{4}) ", l[0][44:])
            if not v:
                bad.append(("symval", "symbol %s: no value in %r" % (n, l[0])))
            elif n in where and not first and int(v.group(1), 16) != where[n]:
                bad.append(("symval", "symbol %s: %r, defined at %X" % (n, l[0], where[n])))
        for n, v in g.consts.items():
            l = got.get(n, [])
            m = re.search(r"Number\s+([0-9A-F]+)h", l[0]) if len(l) == 1 else None
            if not m or int(m.group(1), 16) != v:
                bad.append(("symval", "constant %s = %X: %r" % (n, v, l)))
        for n, v in g.texts.items():
            l = got.get(n, [])
            if len(l) != 1 or not l[0].rstrip().endswith(v.rstrip()):
                bad.append(("symval", "text %s = %r: %r" % (n, v, l)))
        mt = [l.split()[0] for l in tabs.get("Macros:", []) if l.strip()]
        for m in g.macros:
            if mt.count(m) != 1:
                bad.append(("symcount", "macro %s is listed %d times" % (m, mt.count(m))))
        st = [l.split()[0] for l in tabs.get("Structures and Unions:", []) if l.strip() and l[0] != " "]
        for m in g.structs:
            if st.count(m) != 1:
                bad.append(("symcount", "structure %s is listed %d times" % (m, st.count(m))))
    return bad, cnt


def same(x, text):
    if x[0].rstrip() == text.rstrip():
        return True
    return x[1]["kind"] == "cont" and x[0].split() == text.split()


OPTS = [[], ["-Sg"], ["-Sa"], ["-Sg"], ["-Sa"], ["-Sn", "-Sg"], ["-Sf"], ["-Sx"], ["-Sf", "-Sg"], ["-Sa", "-Sf"], ["-Sg", "-Sx"]]


def one(a):
    import random
    seed, mode, opts = a
    fmt, bits, fo = mode
    g = Gen(random.Random(seed), fmt, bits)
    src = g.program()
    ref = vf.asm(EXE, src, fo, "t.o", extra=g.files, timeout=60)
    r = vf.asm(EXE, src, fo + ["-Fl=t.lst"] + opts, "t.o", extra=g.files, timeout=60)
    return a, g, src, ref, r


def main():
    C = vf.Check("C19", "exploration",
                 "a listing is produced and judged: the offsets and bytes of every line against the sections of the object file, "
                 "consecutive lines against each other, the sequence of source lines against the sources, the tables against the generated symbols",
                 ["the deterministic-time build gives the same time stamp to both runs",
                  "the lines generated for .ENDSWITCH are not listed (they differ between passes)"])
    global EXE
    EXE = vf.build("plain", [os.path.join(vf.VERIF, "native", "faketime.c")], "det")
    jobs = []
    n = 12000 if vf.THOROUGH else 1500
    for i in range(n):
        mode = MODES[i % len(MODES)]
        jobs.append((C.rng.randrange(1 << 60), mode, C.rng.choice(OPTS)))
    for a, g, src, ref, r in vf.pmap(one, jobs):
        seed, (fmt, bits, fo), opts = a
        files = dict(g.files)
        files["t.asm"] = src
        cmd = "%s -Fl=t.lst %s -Fo=t.o t.asm" % (" ".join(fo), " ".join(opts))
        if ref.rc != 0 or "t.o" not in ref.files:
            C.count("not assembled")
            if os.environ.get("DBG"):
                m = re.search(r"(\S+)\((\d+)\) : (Error.*)", ref.text())
                print("DBG", m and m.group(3), m and repr((files.get(m.group(1)) or src).split("\n")[int(m.group(2)) - 1]), fmt)
            C.seen("reason", " ".join(str(x) for x in ref.errors()[:1]) + ref.text()[-200:])
            if r.rc == 0:
                C.violation("differs", "assembles only with a listing", files, cmd)
            continue
        if r.rc != 0 or r.files.get("t.o") != ref.files["t.o"]:
            C.violation("changed", "the output with a listing (%s) differs from the one without (rc %s): %s" % (opts, r.rc, r.errors()[:2]), files, cmd)
            continue
        if "t.lst" not in r.files:
            C.violation("nolisting", "no listing written", files, cmd)
            continue
        text = r.files["t.lst"].decode("latin1")
        body, tabs = parse(text)
        bad, cnt = judge(fmt, opts, g, body, tabs, r.files["t.o"])
        C.case("%s %s %d" % (fmt, " ".join(opts), seed), "%s %s: %d lines, %d bytes compared" % (fmt, " ".join(opts), cnt["lines"], cnt["bytes"]))
        C.seen("format and options", "%s %s" % (fmt, " ".join(opts)))
        for k, v in cnt.items():
            C.count("listing " + k, v)
        for x in g.exp:
            if x[1]["kind"]:
                C.seen("line kind", x[1]["kind"])
        seenk = set()
        for k, msg in bad:
            if k not in seenk:
                seenk.add(k)
                files["t.lst"] = r.files["t.lst"]
                C.violation(k, "%s %s: %s" % (fmt, " ".join(opts), msg), files, cmd)
    return C.finish(200)


if __name__ == "__main__":
    vf.main(main)
