#!/usr/bin/env python3
"""C21: errors are reported, on their line, with a truthful exit status, and no
object survives.  Valid programs with errors planted at known places: main file,
nested includes, macros, loops, inactive branches, behind the error limit."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
OK = """ nop| mov eax, 1| add eax, ebx| lea ecx, [eax+ebx*4+8]| push 5| db 1, 2, 3| dd 12345678h| dw 'ab'| db 'a string; not a comment'| mov byte ptr [esi], 7
 xor edx, edx ; comment| imul eax, ebx, 5| real8 1.5| fld st(1)| movzx eax, bl| align 4| jmp $+2| movaps xmm1, xmm2| dq 1 dup (?)| cmp eax, 'abcd'| shl eax, 3|; just a comment||  """.replace("\n", "|").split("|")
# reported in the first pass, fine anywhere
P1 = """ mov eax, bl| db 300| dw 70000| dd 100000000000h| foo eax| push al| add eax| add eax, ebx, ecx| mov 5, eax| mov al, 256| mov ax, 10000h| lea eax, ebx| x1 dup 3
 db 'abc| db (1+2| mov eax, (1| mov eax, 1)| mov eax, 1 +| mov eax, dword ptr| mov eax, 12abc| mov eax, 0q9h| align 3| org eax| zz ends| zz endp| invoke nofunc| real4 1.0e99
 mov eax, 1/0| mov eax, 1 mod 0| mov ax, eax| push 1, 2| int 256| in al, 256| out dx, ebx| shl eax, dx| mov eax, [eax*3]| mov eax, [esp*2]| mov eax, [eax+ebx+ecx]| mov eax, [cx]| mov eax, [al+4]
 call byte ptr [eax]| jmp al| incbin <nofile.bin>| purge nomac| dq 1, , 2| dd 1 2| inc [eax]| mov ds, 5| xchg eax, 5| bt al, 1| movzx eax, ecx| movsx al, bl| enter 70000, 0| ret 70000
 lock mov eax, ebx| rep mov eax, ebx| fld eax| fadd st(8)| movaps xmm0, eax| movd xmm0, al| mov eax, [xmm1]| db 256| option nosuchopt| .nosuch| mov eax, 'abcde'| db 3 dup (| extern| textequ <x>| include nofile.inc
 .until 1| .endw| .break| real10 1.0e9999| mov eax, [ebx+bx]| dw 65536| mov cl, 1000| and eax, xmm1| xlatb 1| bswap ax, bx| setz eax| jmp short $+200| loop $-300| jecxz $+1000| cmovz al, bl""".replace("\n", "|").split("|")
TOP = P1 + [" endm", " endif", " else", " elseif 1", " exitm", " ends", " local x"]
# need a complete first pass
P2 = [(" mov eax, undefined%d", 1), (" .err", 0), (" .err <some text>", 0), (" .erre 0", 0), (" .errnz 1", 0), (" .errndef qqq", 0), (" .errb <>", 0), (" .errnb <a>", 0), (" .errdif <a>, <b>", 0), (" .erridn <a>, <a>", 0), (" mov eax, sizeof nostruct%d", 1),
      (" call nowhere%d", 1), (" dd nolabel%d+4", 1), (" mov al, undefd%d", 1), (" jmp nolab%d", 1), (" add byte ptr [undefb%d], 5", 1)]
WARN = [" mov [eax], 1", " add [ebx], 5"]
MSG = re.compile(r"^(\S.*?)\((\d+)\) : (Error|Warning|Fatal error|Note) ([A-Z]\d+): (.*)$")
CHAIN = re.compile(r"^( +)(\S+?)\((\d+)\)(\[[^\]]*\])?: (.*)$")

class Prog:
    def __init__(s, rng, late, warn):
        s.rng = rng; s.files = {}; s.want = []; s.late = late; s.warn = warn; s.u = 0; s.macros = []; s.warns = []; s.span = {}
        s.text = {}
    def bad(s, top=False):
        s.u += 1
        if s.late:
            t, k = s.rng.choice(P2); return t % s.u if k else t
        return s.rng.choice(TOP if top else P1)
    def body(s, name, chain, n, density, depth, L):
        """appends n statements to the lines L of file name; records (file, line, chain) of every planted error"""
        rng = s.rng
        for _ in range(n):
            k = rng.random()
            if k < density:
                b = s.bad(True)
                if rng.random() < .1 and "," in b and "'" not in b and '"' not in b and "dup" not in b and ";" not in b:      # joined lines: any of them may be named
                    i = b.index(",") + 1; L += [b[:i] + " \\", b[i:]]; s.want.append((name, len(L), chain, b)); s.span[name, len(L) - 1] = len(L)
                else: L.append(b); s.want.append((name, len(L), chain, b))
            elif k < density + .05: L.append("comment ~ push al"); L += [" mov eax, bl ", "~"]
            elif k < density + .1: L += ["if %d" % rng.choice([0]), s.bad(), s.bad().replace("include nofile.inc", ""), "endif"]
            elif k < density + .14: L += ["if 1", rng.choice(OK), "else", " push al", "endif"]
            elif k < density + .2 and s.macros:
                m, lines = rng.choice(s.macros); L.append(" %s %d" % (m, rng.randrange(5)))
                for (ch, t) in lines: s.want.append((name, len(L), ch + chain, t))
            elif k < density + .23:
                c = rng.randrange(1, 4); inner = [rng.choice(OK[:6]) for _ in range(rng.randrange(3))]; p = rng.randrange(len(inner) + 1); b = s.bad()
                if rng.random() < .5: inner.insert(p, b); bad = p + 1
                else: bad = None
                L.append(" rept %d" % c); L += inner; L.append(" endm")
                if bad:
                    for i in range(c): s.want.append((name, len(L), [("MacroLoop", bad, "iteration %d: Macro called from" % (i + 1))] + chain, b))
            elif k < density + .27 and depth and len(s.files) < 6:
                f = "i%d.inc" % len(s.files); s.files[f] = None; L.append("include %s" % f); M = []
                s.body(f, [("inc", name, len(L), chain)], rng.randrange(0, 8), density, depth - 1, M); s.files[f] = "\n".join(M) + rng.choice(["", "\n"])
                if not M: s.files[f] = "\n"
            elif k < density + .31 and s.warn: L.append(rng.choice(WARN)); s.warns.append((name, len(L)))
            else: L.append(rng.choice(OK))
    def make(s, density):
        rng = s.rng; L = [".686", ".xmm", ".model flat"]; s.files["t.asm"] = None
        for i in range(rng.randrange(0, 4)):
            body = []; lines = []; m = "Mac%d" % i
            for j in range(rng.randrange(1, 6)):
                k = rng.random()
                if k < density * 2: b = s.bad(); body.append(b); lines.append(([(m, len(body), "Macro called from")], b))
                elif k < .6 and s.macros:
                    o, ol = rng.choice(s.macros); body.append(" %s x" % o)
                    lines += [(c + [(m, len(body), "Macro called from")], t) for c, t in ol]
                else: body.append(rng.choice([" mov eax, x", " db x", " nop", " add ebx, x+1"]))
            if len(lines) > 8: continue
            L.append("%s macro x" % m); L += body; L.append("endm"); s.macros.append((m, lines))
        L.append(".code")
        s.body("t.asm", [], rng.choice([3, 10, 30, 80]), density, 3, L)
        L.append("end"); s.files["t.asm"] = "\n".join(L) + "\n"
        return s

def include_chain(want):
    """expected list of (file, line) of the lines below a message in an include file"""
    name, line, chain, _ = want; out = []
    c = [x for x in chain if x[0] == "inc"]
    while c:
        _, f, l, up = c[0]; out.append((f, l)); c = up
    return out

def messages(text):
    """[(file, line, kind, code, text, [(name, line, what)])]"""
    out = []
    for l in text.split("\n"):
        l = l.rstrip("\r"); m = MSG.match(l)
        if m: out.append((m.group(1), int(m.group(2)), m.group(3), m.group(4), m.group(5), [])); continue
        c = CHAIN.match(l)
        if c and out: out[-1][5].append((c.group(2), int(c.group(3)), c.group(5)))
    return out
plain = lambda t: re.sub(r"\x1b\[[0-9;]*m", "", t)

def check():
    C = vf.Check("C21", "exploration", "one planted error (place, kind of line) whose report was checked, or one run whose exit status, messages, error file and object were compared",
                 ["errors are planted so that none hides another; a line joined of several may be named by any of them"])
    exe = vf.build("plain"); N = 5000 if not vf.THOROUGH else 60000
    FM = [["-bin"], ["-coff"], ["-elf"], ["-omf"], ["-coff", "-Zi"], ["-coff", "-Fl"]]
    def job(rng):
        late = rng.random() < .3; density = rng.choice([0, .02, .05, .15, .4]); p = Prog(rng, late, rng.random() < .4).make(density)
        lim = rng.choice([None, None, None, 5, 20, 1]); opts = ["-q"] + rng.choice(FM) + (["-e%d" % lim] if lim else ["-e9999"]) + rng.choice([[], [], ["-WX"], ["-W0"], ["-eq"], ["-Fw=my.err"]])
        fs = {k: v for k, v in p.files.items() if k != "t.asm"}; fs["t.o"] = b"stale"; fs["t.err" if not any("Fw" in o for o in opts) else "my.err"] = b"stale"
        return p, lim, opts, vf.asm(exe, p.files["t.asm"], opts, "t.o", extra=fs, timeout=60)
    for p, lim, opts, r in vf.pmap(job, [random.Random(C.rng.getrandbits(64)) for _ in range(N)]):
        cmd = ["uasm"] + opts + ["-Fo", "t.o", "t.asm"]; files = dict(p.files); bad = lambda key, msg: C.violation(key, msg, files, cmd)
        err = "my.err" if "-Fw=my.err" in opts else "t.err"; out = plain(r.text()); E = r.files.get(err, b"").decode("latin1").replace("\r", "")
        C.case("run:%s:%d:%d" % (" ".join(opts), len(p.want), p.late)); C.count("runs")
        wx = "-WX" in opts; wanted = len(p.want) > 0 or wx and p.warns
        if r.rc not in (0, 1): bad("status:%s" % r.rc, "exit status %s: %s" % (r.rc, out[-200:])); continue
        if (r.rc != 0) != bool(wanted): bad("truth", "exit status %d with %d planted errors and %d warnings (%s): %s" % (r.rc, len(p.want), len(p.warns), opts, out[:200])); continue
        obj = b"stale" if "t.o" in r.kept else r.files.get("t.o")
        if wanted and obj is not None: bad("object", "errors, but an object (%s) is left" % ("the old one" if obj == b"stale" else "new")); continue
        if not wanted and (obj in (None, b"stale")): bad("noobject", "no errors, but no object"); continue
        if "-eq" in opts:
            if MSG.search(out): bad("eq", "messages on the console in spite of -eq: " + out[:200]); continue
        else:
            a = [l for l in out.split("\n") if MSG.match(l) or CHAIN.match(l)]; b = [l for l in E.split("\n") if MSG.match(l) or CHAIN.match(l)]
            a = [l.strip() for l in a]; b = [l.strip() for l in b]
            if a != b: d = [x for x in a if x not in b] + [x for x in b if x not in a]; bad("errfile", "console and error file differ (%d, %d messages): %s" % (len(a), len(b), d[:2])); continue
        M = messages(E)
        errs = [m for m in M if m[2] == "Error" and not (wx and (m[0], m[1]) in p.warns)]; fatal = [m for m in M if m[2].startswith("Fatal")]
        norm = lambda f, l: (f, p.span.get((f, l), l))
        exp = [norm(w[0], w[1]) for w in p.want]; got = [norm(m[0], m[1]) for m in errs]
        cut = lim is not None and (len(errs) + (len(p.warns) if wx else 0)) >= lim
        extra = [g for g in got if g not in exp]; miss = [w for w in p.want if norm(w[0], w[1]) not in got]
        for w in p.want: C.case("%s/%d/%d" % (w[3], len(include_chain(w)), len(w[2])), sample=w[3].strip()); C.count("late_errors" if p.late else "errors"); C.count("depth_%d" % len(include_chain(w)))
        if extra:
            f, l = extra[0]; m = [m for m in errs if norm(m[0], m[1]) == (f, l)][0]; t = files.get(f, "").split("\n")
            bad("spurious:" + m[3], "error on a valid line %s(%d) `%s`: %s" % (f, l, t[l - 1] if l <= len(t) else "", m[4])); continue
        if miss and not cut and not (p.late and wx and p.warns): w = miss[0]; bad("missed:%s" % w[3].strip().split(" ")[0], "no error for %s(%d) `%s`" % (w[0], w[1], w[3])); continue
        if cut and len(set(exp)) > lim + 60 and not fatal: bad("limit", "%d errors, limit %d: not stopped" % (len(errs), lim)); continue
        if fatal and not cut: bad("fatal", "fatal: %s" % (fatal[0],)); continue
        if cut and len(errs) > lim + 1 and not wx: bad("overlimit", "%d errors reported, limit %d" % (len(errs), lim)); continue
        if not cut:
            # the chain of includes and macros below each message
            from collections import defaultdict
            W = defaultdict(list)
            for w in p.want: W[norm(w[0], w[1])].append(w)
            for m in errs:
                ws = W[norm(m[0], m[1])]; inc = include_chain(ws[0]); ch = [(a, b) for a, b, c in m[5]]
                mac = [[(x[0], x[1]) for x in w[2] if x[0] != "inc"] for w in ws]
                tails = [mc + ([(m[0], m[1])] if (mc or inc) else []) + inc for mc in mac]
                C.count("chains")
                if p.late: continue      # the second pass knows file and line only
                if ch not in tails: bad("chain", "%s(%d): chain %s, must be %s" % (m[0], m[1], ch, tails[0])); break
            wl = set((m[0], m[1]) for m in M if m[2] == "Warning" or wx)
            if not p.want and not wx and "-W0" not in opts and not set(p.warns) <= wl: bad("nowarn", "warnings missing: %s" % sorted(set(p.warns) - wl)[:2])
        if "-W0" in opts and any(m[2] == "Warning" for m in M): bad("w0", "a warning in spite of -W0")
    # each kind of line alone
    T = [(t, 1) for t in TOP] + [((t % 1 if k else t), 2) for t, k in P2]
    def alone(t):
        src = ".686\n.xmm\n.model flat\n.code\n nop\n%s\n nop\nend\n" % t[0]
        return t, src, vf.asm(exe, src, ["-q", "-coff"], "t.o")
    for t, src, r in vf.pmap(alone, T):
        C.case("alone:" + t[0], sample=t[0].strip()); e = r.errors()
        if r.rc != 1 or "t.o" in r.files or not e or any(x[1] != 6 for x in e): C.violation("alone:" + t[0].strip(), "`%s` alone on line 6: status %s, object %s, reports %s" % (t[0].strip(), r.rc, "t.o" in r.files, e[:2]), {"t.asm": src}, ["uasm", "-q", "-coff", "-Fo", "t.o", "t.asm"])
    # blocks left open, several files, options
    U = [("if 1\n nop", "open if"), (" .if eax\n nop", "open .if"), (" .while eax\n nop", "open .while"), (" .repeat\n nop", "open .repeat"), ("m1 macro\n nop", "open macro"), (" rept 3\n nop", "open rept"), ("p1 proc\n nop", "open proc"), ("s1 segment\n nop", "open segment"),
         ("s1 struct\na db ?", "open struct"), (" for x,<1>\n nop", "open for"), ("if 0\n nop", "open false if"), ("ifdef q\nelse\n nop", "open else"), (" while 0\n nop", "open while"), ("u1 union\na db ?", "open union")]
    for t, what in U:
        for tail in ("end\n", ""):
            src = ".686\n.model flat\n.code\n%s\n%s" % (t, tail); r = vf.asm(exe, src, ["-q", "-coff"], "t.o"); C.case("open:%s:%r" % (what, tail)); o = plain(r.text())
            if r.rc != 1 or "t.o" in r.files or not re.search(r"(?im)error A\d+", o) or "t.asm" not in o: C.violation("open:" + what, "%s: status %s, object %s: %s" % (what, r.rc, "t.o" in r.files, o[:100]), {"t.asm": src}, ["uasm", "-q", "-coff", "-Fo", "t.o", "t.asm"])
    good = ".686\n.model flat\n.code\n nop\nend\n"; bads = good.replace(" nop", " push al")
    for i in range(8):
        k = C.rng.randrange(1, 5); st = [C.rng.random() < .5 for _ in range(k)]; fs = {"f%d.asm" % j: bads if b else good for j, b in enumerate(st)}
        r = vf.run(exe, ["-q", "-coff"] + sorted(fs), fs); C.case("multi:%s" % st)
        objs = [("f%d.o" % j in r.files or "f%d.obj" % j in r.files) for j in range(k)]
        if (r.rc != 0) != any(st) or any(o and b for o, b in zip(objs, st)) or (not all(o or b for o, b in zip(objs, st))): C.violation("multi", "files with errors %s: status %s, objects %s" % (st, r.rc, objs), fs, ["uasm", "-q", "-coff"] + sorted(fs))
    for args, why in ((["-q", "nofile.asm"], "missing source"), (["-q"], "no source"), (["-q", "-Fonodir/x.o", "-coff", "g.asm"], "output directory missing"), (["-q", "-coff", "-Flnodir/x.lst", "g.asm"], "listing directory missing"), (["-q", "-coff", "-Finofile.inc", "g.asm"], "forced include missing")):
        r = vf.run(exe, args, {"g.asm": good}); C.case("cmd:" + why)
        if r.rc == 0: C.violation("cmd:" + why, "%s: exit status 0, %s" % (why, plain(r.text())[:200]), {"g.asm": good}, ["uasm"] + args)
    return C.finish(1500)
if __name__ == "__main__": vf.main(check)
