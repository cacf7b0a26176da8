#!/usr/bin/env python3
"""C28: inclusion, comments, blanks, line joining, line ends, a BOM and the
case of reserved words never change what is assembled; INCBIN brings in
exactly the given range.  A program is assembled plainly and again after
random presentation changes; the outputs must be the same bytes."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, macgen, corpus
TOK = re.compile(r"""("(?:[^"]|"")*"|'(?:[^']|'')*'|<[^<>]*(?:<[^<>]*>[^<>]*)*>|[ \t]+|[A-Za-z_@$?.][\w@$?]*|[^\s])""")
RES = set("""mov add sub and or xor not cmp test push pop lea call jmp je jne jc ret nop inc dec shl shr ror imul movzx movsx cdq cld std rep movsb stosd lodsw loop fld fstp fadd
db dw dd dq dt byte word dword qword sdword dup proc endp proto uses local struct ends union segment assume equ textequ catstr sizestr substr instr if else elseif endif ifdef ifb ifidn ifndef
macro endm for irp forc repeat rept while req vararg exitm invoke addr offset ptr sizeof lengthof type eq ne lt gt le ge mod high low .if .else .elseif .endif .while .endw .repeat .until c stdcall
eax ebx ecx edx esi edi ebp esp al ah bl cl dl ax bx cx dx si di bp sp cs ds es ss fs gs near far short public align org label record mask width even typedef""".split())

def name(rng, k): return rng.choice(["%s%d", "Va_%s%d", "x%sY%d"]) % (rng.choice("abc"), k)
STRS = ["a;b", "it''s", "say \"\"x\"\"", "back\\slash", "tab\there", "<x>", "a,b", "100%", "&p&", "x\\", "; all", "{", "!", ""]
def base(rng, n):
    """plain program: list of (line, kind); kind 's' statement, 'd' statement that may be continued after a comma, 'r' leave the text alone, '+' must follow its predecessor in the same file"""
    L = []; k = 0; labels = []
    R = ["eax", "ebx", "ecx", "edx", "esi", "edi"]
    for _ in range(n):
        k += 1; c = rng.random()
        if c < .3:
            a, b = rng.choice(R), rng.choice(R); v = rng.randrange(1 << rng.choice([3, 8, 31])); t = rng.choice(["mov %s, %d" % (a, v), "add %s,[%s+%s*4+%d]" % (a, b, rng.choice(R), v), "lea %s, [%s+%d]" % (a, b, v), "cmp byte ptr [%s], %d" % (a, v & 127), "test %s,%s" % (a, b), "push %s" % a, "pop dword ptr [%s]" % b, "imul %s, %s, %d" % (a, b, v), "movzx %s, word ptr [%s]" % (a, b), "rep movsb", "shl %s, cl" % a, "fld qword ptr [%s]" % b, "mov dl, ';'", "mov dl, '\\'", "xor eax, (%d + 3) and not 4" % v, "mov %s, offset start_of_it + %d" % (a, v & 255)])
            L.append((" " + t, "s"))
        elif c < .52:
            d = rng.choice(["db", "dw", "dd", "byte", "dword"]); it = []
            for _ in range(rng.choice([1, 2, 4, 9])):
                x = rng.random()
                if x < .4 and d in ("db", "byte"): s = rng.choice(STRS) or "e"; q = "'" if "''" in s else '"' if '""' in s else rng.choice("'\""); it.append(q + s + q)
                elif x < .6: it.append("%d dup (%d, ?)" % (rng.randrange(1, 4), rng.randrange(200)))
                else: it.append("%d" % rng.randrange(250))
            l = name(rng, k) if rng.random() < .5 else ""; L.append(("%s %s %s" % (l, d, ", ".join(it)), "d"))
        elif c < .58:
            s = name(rng, k); L += [(s + " struct", "s"), ("fa%d dword %d" % (k, k), "s"), ("fb%d byte 'x;y', 3" % k if 0 else "fb%d byte %d" % (k, k & 63), "s"), ("%s ends" % s, "s"), ("i%d %s <%d, %d>" % (k, s, k, 7), "r"), (" mov eax,[ebx].%s.fb%d" % (s, k) if 0 else " mov al,[ebx].%s.fb%d" % (s, k), "s")]
        elif c < .66:
            p = name(rng, k); L += [("%s proto c :dword, :byte, :word" % p, "d"), ("%s proc c uses ebx esi, q1:dword, q2:byte, q3:word" % p, "s"), (" local l1:dword, l2[4]:byte", "s"), (" mov eax, q1", "s"), (" lea ecx, l2", "s"), (" ret", "s"), ("%s endp" % p, "s"), (" invoke %s, eax, bl, 5" % p, "d")]
        elif c < .72:
            L += [(rng.choice([".if eax == 5 && ebx != 3", ".while ecx > 1 || !edx", ".if !(eax & 4)"]), "s"), (" inc eax", "s")]; L.append((".endw" if "while" in L[-2][0] else ".endif", "s"))
        elif c < .78:
            v = rng.choice(["if 1 eq 2", "ifdef start_of_it", "ifndef nothing", "ifb <>", "if 3 gt 2"]); L += [(v, "s"), (" db 1", "s"), ("else", "s"), (" db 2", "s"), ("endif", "s")]
        elif c < .84:
            m = "mc%d" % k; L += [("%s macro pa, pb" % m, "s"), (" mov eax, pa", "s"), (" db pb, \"&pa&\"", "s"), ("endm", "s"), (" %s <%d>, %d" % (m, k, 9), "r"), (" %s %d, 'a'" % (m, k), "r")]
        elif c < .88: L += [("%s = %d" % (name(rng, k), k), "s"), ("te%d textequ <%d + 1>" % (k, k), "r"), (" dd te%d" % k, "s")]
        elif c < .93: l = "lb%d" % k; L += [("%s:" % l, "s"), (" dec ecx", "s"), (" jne %s" % l, "s"), (" jmp ende", "s")]
        elif c < .96: L += [("for vv, <1,2,3>", "r"), (" db vv", "s"), ("endm", "s")]
        else: L += [(" align 4", "s"), ("rr%d record ra%d:3, rb%d:5" % (k, k, k), "s"), (" db mask ra%d" % k, "s")]
    return L

CMT = ["; plain comment", "; it's \"unbalanced", "; endm endif <", ";", ";;", "; , \\ x", ";\ttabs\t!", "; %echo &x& > end", "; comment ~"]
def toks(t): return TOK.findall(t)
def vary(rng, t, kind, F):
    """one statement line -> the physical lines"""
    P = toks(t); o = []; jn = 0; lead = True
    words = [p for p in P if not p.isspace()]
    for i, p in enumerate(P):
        if "case" in F and kind != "r" and p.lower() in RES and not (i and P[i - 1] == "."): p = rng.choice([p, p.upper(), p.capitalize(), "".join(rng.choice([c, c.upper()]) for c in p)])
        if p.isspace():
            if "blank" in F and kind != "r": p = rng.choice([" ", "\t", "  ", " \t ", "      "])
            if "join" in F and kind != "r" and o and i + 1 < len(P) and rng.random() < .2 and jn < 6: jn += 1; p = " \\" + rng.choice(["", " ", "\t", " ; joined", "; x 'y"]) + "\n" + rng.choice(["", " ", "\t\t"])
        elif p == "," and kind != "r":
            if "comma" in F and kind == "d" and rng.random() < .3: p = "," + rng.choice(["", " ", " ; more", "\t"]) + "\n" + rng.choice(["", "  ", "\t"])
            elif "blank" in F: p = rng.choice([",", " ,", ", ", "\t,\t"])
        o.append(p)
    s = "".join(o)
    if "blank" in F and rng.random() < .3 and not s[:1].isspace(): s = rng.choice(["", " ", "\t"]) + s
    if "comment" in F and rng.random() < .4: s += rng.choice(["", " ", "\t"]) + rng.choice(CMT)
    elif "blank" in F and rng.random() < .3: s += rng.choice([" ", "\t", "    "])
    return s.split("\n")
def between(rng, F, depth):
    o = []
    if "blankline" in F and rng.random() < .15: o += [rng.choice(["", " ", "\t", "   \t"])] * rng.choice([1, 1, 3, 40])
    if "comment" in F and rng.random() < .1: o += [rng.choice(CMT)] * rng.choice([1, 2])
    if "block" in F and not depth and rng.random() < .06:
        d = rng.choice("~!@^/|*x+"); b = [rng.choice([" bogus , line", "endm", "include nothere.inc", "end", "'", "macro", "; x", " db 5", "if 1", "\\", ""]).replace(d, "") for _ in range(rng.choice([0, 1, 3, 9]))]
        o += ["%s %s%s" % (rng.choice(["comment", "COMMENT", " Comment"]), d, rng.choice([" text", "", " db 5"]).replace(d, ""))] + b + [rng.choice(["", " last "]).replace(d, "") + d + rng.choice(["", " ignored rest"]).replace(d, "")]
    return o
def present(rng, L, F):
    """-> (main lines, files): the varied program"""
    files = {}; cnt = [0]; out = []; nest = 0; stack = [out]
    opens = re.compile(r"^\s*[\w$@?]+\s+(macro|struct|struc|union|proc)\b|^\s*(for|irp|irpc|forc|repeat|rept|while|if|ifdef|ifndef|ifb|ifnb|ifidn|ifidni|ifdif|ifdifi|ife|if1|if2|macro|\.if|\.while|\.repeat)\b", re.I)
    closes = re.compile(r"^\s*(endm|endif|\.endif|\.endw|\.until\w*)\b|^\s*[\w$@?]+\s+(ends|endp)\b", re.I)
    i = 0
    for t, kind in L:
        if opens.search(t): nest += 1
        if nest == 0 and "include" in F:
            r = rng.random()
            if r < .05 and len(stack) < 12:
                cnt[0] += 1; fn = rng.choice(["i%d.inc", "inc_%d", "sub/i%d.inc", "d1/d2/i%d.asm", "with space %d.inc"]) % cnt[0]; n = []; store = fn
                if rng.random() < .2 and "/" not in fn and len(stack) == 1: store = "ip dir/" + fn
                files[store] = n
                w = fn
                if " " in fn: w = "<%s>" % fn
                elif rng.random() < .3: w = rng.choice(["<%s>", "%s ", "<%s> "]) % fn
                stack[-1].append(rng.choice([" ", "", "\t"]) + rng.choice(["include", "INCLUDE", "Include"]) + " " + w + (rng.choice(["", " ", " ; c"]))); stack.append(n)
            elif r < .11 and len(stack) > 1: stack.pop()
        stack[-1] += between(rng, F, nest)
        stack[-1] += vary(rng, t, kind, F)
        if closes.search(t) and nest: nest -= 1
    return out, files
def enc(rng, lines, F, main=False):
    nl = "\r\n" if "crlf" in F and rng.random() < .7 else "\n"
    if "mixed" in F: t = "".join(l + rng.choice(["\n", "\r\n"]) for l in lines)
    else: t = nl.join(lines) + (nl if main or rng.random() < .7 else "")
    b = t.encode("latin1")
    if "bom" in F and (main or rng.random() < .3): b = b"\xef\xbb\xbf" + b
    return b
ALL = ["blank", "comment", "case", "join", "comma", "blankline", "block", "include", "crlf", "bom", "mixed"]
FMT = [["-bin"], ["-omf"], ["-coff"], ["-elf"]]

def check():
    C = vf.Check("C28", "exploration", "a program assembled plainly and under one set of presentation changes, or one INCBIN range, whose outputs were compared byte for byte",
                 ["lines continued after a comma only where the manual documents it (data, PROTO, INVOKE)"])
    exe = vf.build("detA", [os.path.join(vf.VERIF, "native", "faketime.c")], "det")
    jobs = [random.Random(C.rng.getrandbits(64)) for _ in range(2600 if not vf.THOROUGH else 15000)]
    def job(rng):
        L = base(rng, rng.choice([6, 20, 60])); fmt = rng.choice(FMT)
        if rng.random() < .25: L = [(x, "r") for x in macgen.program(rng, 8)[0]]; 
        head = [(".686", "s"), ("option casemap:none", "r"), ("_T segment use32 'CODE'", "s"), ("start_of_it label byte", "s")]; tail = [("ende:", "s"), ("_T ends", "s")]
        L = head + L + tail
        F = set(rng.sample(ALL, rng.choice([1, 1, 2, 4, len(ALL)])))
        plain = "\n".join(l for l, k in L + [("end", "r")]) + "\n"
        m, fs = present(rng, L, F); m.append("end")
        files = {k: enc(rng, v, F) for k, v in fs.items()}
        var = enc(rng, m, F, True)
        opts = ["-q", "-Iip dir"] + fmt
        r0 = vf.asm(exe, plain, opts, "t.o"); r1 = vf.asm(exe, var, opts, "t.o", extra=files)
        return F, fmt, plain, var, files, r0, r1, len(L)
    for F, fmt, plain, var, files, r0, r1, n in vf.pmap(job, jobs):
        cmd = ["uasm", "-q"] + fmt + ["-Fo", "t.o", "t.asm"]
        if r0.rc != 0:
            C.count("plain_rejected"); continue
        C.count("statements", n); C.count("include_files", len(files))
        for f in F: C.seen("changes", f)
        C.case(var, sample=",".join(sorted(F)))
        if r1.rc != 0 or r0.files.get("t.o") != r1.files.get("t.o"):
            single = "+".join(sorted(F)) if len(F) <= 2 else "many"
            m = re.search(r"A\d{4}", r1.text()) if r1.rc else None
            C.violation("changed:%s:%s" % (single, m.group(0) if m else "bytes"), "presentation changes %s: %s" % (sorted(F), r1.text()[:500] if r1.rc else "output differs (%d/%d bytes)" % (len(r0.files["t.o"]), len(r1.files.get("t.o", b"")))), dict(files, **{"t.asm": var, "plain.asm": plain}), cmd)
    if C.extra.get("plain_rejected", 0) > len(jobs) // 20: raise vf.HarnessError("the plain programs are rejected")
    # the regression sources: line ends, BOM, comments between lines, the whole source in an include
    RL = [e for e in corpus.load(1 << 18) if not re.search(rb"@line|@file|__line__|__file__|@date|@time|incbin|\\[ \t\r]*\n", e.src, re.I)]
    rng = random.Random(C.rng.getrandbits(64)); rng.shuffle(RL); RL = RL[:220] if not vf.THOROUGH else RL
    inc = {d: corpus.includes(d) for d in {e.dir for e in RL}}
    def job2(e):
        rng = random.Random("%d/%s" % (vf.SEED, e.id)); o = [x for x in e.opts if x not in ("-Zd", "-Zi", "-Zi8", "-c", "-Zf")] + ["-q"]
        ex = dict(inc[e.dir]); s = e.src.replace(b"\r\n", b"\n"); R = []
        r0 = vf.asm(exe, s, o, "t.o", extra=ex, timeout=60)
        if r0.rc != 0 or "t.o" not in r0.files: return e, None, []
        lines = s.split(b"\n"); cm = []; 
        ok = not re.search(rb"\bcomment\b|,\s*(;.*)?\n", s, re.I)
        ok = ok and all(l.count(b"(") == l.count(b")") and l.count(b"<") == l.count(b">") for l in (re.sub(rb";.*", b"", x) for x in lines) if not re.search(rb"['\"]", l)) and b"EXPANS" not in e.id.upper().encode()
        for l in lines:
            if ok and rng.random() < .2: cm += rng.choice([[b""], [b"; a comment"], [b"\t"], [b" ;; x", b""]])
            cm.append(l)
        for k, m, x in (("crlf", s.replace(b"\n", b"\r\n"), {}), ("bom", b"\xef\xbb\xbf" + s, {}), ("comments", b"\n".join(cm), {}), ("include", b"include body of it.inc\n" if 0 else b"include body_of_it.inc\n", {"body_of_it.inc": s})):
            if k == "include" and re.search(rb"^\s*include\b", s, re.I | re.M) and 0: continue
            r = vf.asm(exe, m, o, "t.o", extra=dict(ex, **x), timeout=60)
            R.append((k, r.rc == 0 and r.files.get("t.o") == r0.files["t.o"], r, dict(x, **{"t.asm": m, "plain.asm": s})))
        return e, r0, R
    for e, r0, R in vf.pmap(job2, RL):
        if r0 is None: continue
        C.count("regression_sources")
        for k, ok, r, files in R:
            C.case("%s/%s" % (e.id, k)); C.seen("changes", "source:" + k)
            if not ok: C.violation("source:%s:%s" % (e.id, k), "regression source changes when presented with %s: status %s %s" % (k, r.rc, r.text()[:300]), files, ["uasm"] + e.opts + ["t.asm"])
    # INCBIN
    def job3(rng):
        n = rng.choice([0, 1, 2, 255, 256, 511, 512, 513, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 200000]); data = rng.randbytes(n)
        if rng.random() < .3: data = (b"\r\n\x1a\x00\xff" * (n // 5 + 1))[:n]
        L = [".386", "_T segment use32"]; exp = b""; fn = rng.choice(["f.bin", "d/f.bin", "f with blank.bin", "noext"]); q = ["<%s>", "\"%s\"", "'%s'"]; w = []
        for _ in range(rng.randrange(1, 9)):
            pre = rng.randbytes(rng.randrange(0, 3)); 
            if pre: L.append(" db " + ",".join(str(c) for c in pre)); exp += pre
            k = rng.random(); f = rng.choice(q) % fn; o = rng.choice([0, 1, n, n // 2, max(n - 1, 0), rng.randrange(n + 1)]); o = min(o, n); l = rng.choice([0, 1, n - o, (n - o) // 2, rng.randrange(n - o + 1), 1 << 20])
            num = lambda v: rng.choice(["%d" % v, "0%xh" % v, "%d+%d" % (v // 2, v - v // 2), "(%d)" % v])
            if k < .25: L.append(" incbin " + f); exp += data
            elif k < .5: L.append(" %s %s, %s" % (rng.choice(["incbin", "INCBIN"]), f, num(o))); exp += data[o:]
            else:
                if l == 0: l = 1 if n - o >= 1 else 1 << 20
                L.append(" incbin %s,%s , %s" % (f, num(o), num(l))); exp += data[o:o + l]
            w.append(len(L))
        src = "\n".join(L + ["_T ends", "end"]) + "\n"
        return n, exp, src, {fn: data}, vf.asm(exe, src, ("-q", "-bin"), "t.o", extra={fn: data})
    for n, exp, src, fs, r in vf.pmap(job3, [random.Random(C.rng.getrandbits(64)) for _ in range(160 if not vf.THOROUGH else 3000)]):
        got = r.files.get("t.o", b""); C.case("incbin:" + src); C.count("incbin_bytes", len(exp)); C.seen("incbin_sizes", n)
        if r.rc != 0 or got != exp:
            k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            C.violation("incbin:%s" % ("rejected" if r.rc else "bytes"), "status %s, differs at %d of %d/%d: %s" % (r.rc, k, len(got), len(exp), r.text()[:200]), dict(fs, **{"t.asm": src}), ["uasm", "-q", "-bin", "-Fo", "t.o", "t.asm"])
    return C.finish(1500)
if __name__ == "__main__": vf.main(check)
