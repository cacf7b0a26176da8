#!/usr/bin/env python3
"""C09: macros and repeat blocks expand to exactly the text their definition
denotes.  Random macro programs (lib/macgen.py) whose denotation is computed
on their tree, not by text substitution, are assembled and every byte is
compared; the same program is assembled in several set-ups (object format,
listing with all macro detail, in an include, after many unrelated macros)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, macgen, objread

def locate(exp, got, marks):
    k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
    d = [m for m in marks if m[0] <= k]
    return k, d[-1][1][:400] if d else ""

def check():
    C = vf.Check("C09", "exploration", "a data line, conditional or block of a random macro program whose assembled bytes were compared with the bytes its tree denotes",
                 ["the evaluator of macro trees in lib/macgen.py; values of %expr in EXITM/TEXTEQU are unsigned 32-bit (documented MASM behaviour)"])
    exe = vf.build("plain")
    N = 700 if not vf.THOROUGH else 6000
    jobs = [("prog", random.Random(C.rng.getrandbits(64)), C.rng.choice([6, 10, 16, 30])) for _ in range(N)] + \
           [("tmpl", random.Random(C.rng.getrandbits(64)), 0) for _ in range(24 if not vf.THOROUGH else 600)] + [("big", random.Random(C.rng.getrandbits(64)), k) for k in range(6)]
    def job(j):
        kind, rng, size = j; opts = ["-q", "-bin"]; extra = {}
        if kind == "prog":
            L, exp, marks, used = macgen.program(rng, size)
        elif kind == "tmpl":
            L = []; exp = b""; marks = []; used = set(); T = macgen.templates(rng); rng.shuffle(T)
            for k, l, b in T:
                if k in ("local", "many-parameters") and rng.random() < .5: continue
                L += l; marks.append((len(exp), k)); exp += b; used.add(k)
        else: L, exp, marks, used = big(rng, size)
        # code inside a segment with every byte observable; how it is presented varies
        mode = rng.choice(["plain", "plain", "listing", "include", "twice", "case"])
        pre = [".386", "option casemap:none"]
        if kind == "big" and mode == "twice": mode = "plain"
        if mode == "case": pre[1] = "option casemap:all"
        if mode == "listing": opts += ["-Fl", "-Sg", "-Sa"]
        if mode == "include":
            extra["i.inc"] = "\n".join(L) + "\n"; L = ["include i.inc"]
        src = "\n".join(pre + ["_T segment use32"] + L + ["_T ends", "end"]) + "\n"
        if mode == "twice":   # a later pass re-reads the program: forward reference to a label behind it
            src = "\n".join(pre + ["_T segment use32", "jmp lbl_end_of_all", "db 0"] + L + ["lbl_end_of_all:", "_T ends", "end"]) + "\n"
        r = vf.asm(exe, src, opts, "t.o", extra=extra, timeout=90)
        return kind, mode, exp, marks, used, src, extra, opts, r
    for kind, mode, exp, marks, used, src, extra, opts, r in vf.pmap(job, jobs):
        cmd = ["uasm"] + opts + ["-Fo", "t.o", "t.asm"]; files = dict({"t.asm": src}, **extra)
        got = r.files.get("t.o", b"")
        if mode == "twice":
            n = 2 if len(exp) + 1 < 128 else 5
            got = got[n + 1:]
        C.seen("presentation", mode)
        for u in used: C.seen("constructs", u)
        C.count("bytes_compared", len(exp)); C.count("programs", 1)
        for o, d in marks: C.case(d[:300] + str(o), sample=d[:160])
        if r.rc != 0 or not r.files.get("t.o") and exp:
            t = r.text(); w = t.split("\n")[0]
            import re
            m = re.search(r"A\d{4}", t); C.violation("rejected:%s:%s" % (kind, m.group(0) if m else r.rc), "valid macro program rejected (status %s): %s" % (r.rc, t[-500:]), files, cmd); continue
        if got != exp:
            k, d = locate(exp, got, marks)
            C.violation("bytes:%s:%s" % (kind, d.split("(")[0][:20] if kind != "prog" else "tree"), "differs at offset %d of %d/%d: got %r expected %r in %s" % (k, len(got), len(exp), got[max(0, k - 4):k + 12], exp[max(0, k - 4):k + 12], d), files, cmd)
    # malformed calls are errors on their own line, and nothing else is
    def rej(rng):
        L = [".386", "_T segment use32"]; bad = set()
        for i in range(20):
            m = "m%d" % i; k = rng.randrange(4); L += ["%s macro a:req, b:=<4>" % m, " db a, b", "endm"]
            if k == 0: L.append(" %s" % m); bad.add(len(L))
            elif k == 1: L.append(" %s , 5" % m); bad.add(len(L))
            elif k == 2: L.append(" %s <>" % m); bad.add(len(L))
            else: L.append(" %s 1,2" % m)
        L += ["_T ends", "end"]; src = "\n".join(L) + "\n"
        return bad, src, vf.asm(exe, src, ("-q", "-bin"), "t.o")
    for bad, src, r in vf.pmap(rej, [random.Random(C.rng.getrandbits(64)) for _ in range(6)]):
        got = {e[1] for e in r.errors() if e[2] != "Warning"}; C.count("missing_arguments_checked", len(bad))
        for b in bad: C.case("req:%d" % b)
        if got != bad: C.violation("req", "missing REQ argument lines %s, errors on %s" % (sorted(bad), sorted(got)), {"t.asm": src}, ["uasm", "-q", "-bin", "t.asm"])
        if bad and r.rc == 0: C.violation("req-status", "missing argument but status 0", {"t.asm": src}, ["uasm", "-q", "-bin", "t.asm"])
    return C.finish(3000)

def big(rng, k):
    """sizes near the internal limits"""
    if k == 0:   # more than 65536 local names
        n = 33000; L = ["x macro v", "local a, b", "a = v", "b = a+1", "endm", "i = 0", "repeat %d" % n, " x i and 127", "i = i+1", "endm", " db i and 255", "y macro", "local a", "a db 7", "dd a", "endm", "y", "y"]
        return L, bytes([n & 255, 7, 1, 0, 0, 0, 7, 6, 0, 0, 0]), [(0, "65536 locals")], {"many-locals"}
    if k == 1:   # deep nesting of calls
        n = 38; L = []
        for i in range(n): L += ["m%d macro a" % i, " db a"] + ([" m%d %%(a+1)" % (i + 1)] if i < n - 1 else []) + ["endm"]
        return L + [" m0 1"], bytes(range(1, n + 1)), [(0, "deep calls")], {"deep-calls"}
    if k == 2:   # deep nesting of loops
        n = 7; L = ["repeat 2"] * n + [" db 1"] + ["endm"] * n + [" db 2"]
        return L, b"\1" * (1 << n) + b"\2", [(0, "deep loops")], {"deep-loops"}
    if k == 3:   # macro bodies of thousands of lines
        n = 4000; v = [rng.randrange(256) for _ in range(n)]; L = ["m macro p"] + [" db %d, p" % x for x in v] + ["endm", " m 9", " m 8"]
        b = bytes(y for x in v for y in (x, 9)) + bytes(y for x in v for y in (x, 8)); return L, b, [(0, "long body")], {"long-body"}
    if k == 4:   # thousands of macros
        n = 3000; L = [];
        for i in range(n): L += ["mac%x macro a" % i, " db a+%d" % (i & 63), "endm"]
        o = rng.sample(range(n), 500); return L + [" mac%x %d" % (i, i & 31) for i in o], bytes((i & 31) + (i & 63) for i in o), [(0, "many macros")], {"many-macros"}
    # long arguments and lines
    L = ["m macro a, b", " db \"&a&\"", " db '&b&'", "endm"]; b = b""
    for ln in (1, 100, 127, 128, 129, 200, 250):
        t = "".join(rng.choice("abcdef0123456789 ") for _ in range(ln)).strip() or "q"; u = t[::-1].strip()
        L.append(" m <%s>, <%s>" % (t, u)); b += t.encode() + u.encode()
    return L, b, [(0, "long arguments")], {"long-arguments"}
if __name__ == "__main__": vf.main(check)
