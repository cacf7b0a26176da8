#!/usr/bin/env python3
"""C04: jumps, calls and label references resolve to their label, in the
shortest form.  Random jump meshes; the emitted code is walked with a decoder
of its own, every target compared with where the label ended up."""
import os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
CC = {"o": 0, "no": 1, "b": 2, "c": 2, "nae": 2, "ae": 3, "nb": 3, "nc": 3, "e": 4, "z": 4, "ne": 5, "nz": 5, "be": 6, "na": 6, "a": 7, "nbe": 7,
      "s": 8, "ns": 9, "p": 10, "pe": 10, "np": 11, "po": 11, "l": 12, "nge": 12, "ge": 13, "nl": 13, "le": 14, "ng": 14, "g": 15, "nle": 15}
HDR = {"8086": (".8086\n", 16), "386": (".386\n", 16), "32": (".686\n", 32), "64": (".x64\n", 64)}

LOOPOP = {"loop": (0, 0xE2), "loope": (0, 0xE1), "loopne": (0, 0xE0), "loopz": (0, 0xE1), "loopnz": (0, 0xE0), "jcxz": (16, 0xE3), "jecxz": (32, 0xE3), "jrcxz": (64, 0xE3), "jmp short": (0, 0xEB),
          "loopw": (16, 0xE2), "loopew": (16, 0xE1), "loopnew": (16, 0xE0), "loopd": (32, 0xE2), "looped": (32, 0xE1), "loopned": (32, 0xE0)}
LOOPS = {"8086": ["loop", "loope", "loopne", "jcxz", "jmp short", "loopz", "loopnz"], "386": ["loop", "loope", "loopne", "jcxz", "jmp short", "jecxz", "loopd", "looped", "loopned", "loopw"],
         "32": ["loop", "loope", "loopne", "jecxz", "jmp short", "jcxz", "loopw", "loopew", "loopnew", "loopd"], "64": ["loop", "loope", "loopne", "jrcxz", "jmp short", "jecxz", "loopd", "looped", "loopned"]}
PREFIXED = {c: [i for i in LOOPS[c] if LOOPOP[i][0] and LOOPOP[i][0] != HDR[c][1]] for c in LOOPS}

def program(rng, cpu, n):
    """-> list of items (kind, text, args)"""
    bits = HDR[cpu][1]; it = []; labels = []
    anon = 0
    nlab = max(2, n // 4)
    # positions are drawn first so that references can go both ways
    pos = sorted(rng.sample(range(n), nlab))
    tight = rng.random() < .6
    lab_at = {p: "L%d" % i for i, p in enumerate(pos)}
    budget = 30000 if bits == 16 else 1 << 30
    for i in range(n):
        if i in lab_at: it.append(("label", "%s:" % lab_at[i], lab_at[i]))
        r = rng.random()
        def target():
            if rng.random() < .75:   # near by
                j = min(range(nlab), key=lambda k: abs(pos[k] - i - rng.randrange(-25, 26)))
            else: j = rng.randrange(nlab)
            return "L%d" % j
        if r < .45:
            t = target(); k = rng.random()
            if k < .25: it.append(("jmp", "jmp " + t, t))
            elif k < .85: c = rng.choice(list(CC)); it.append(("jcc", "j%s %s" % (c, t), t, CC[c]))
            elif k < .95: it.append(("call", "call " + t, t))
            else: it.append(("jmpn", "jmp near ptr " + t, t))
        elif r < .50: it.append(("anon", "@@:", None))
        elif r < .55: it.append(("janon", None, rng.choice("fb"), rng.choice(["jmp", "jz"])))
        elif r < .60 and bits > 16:
            a, b = rng.randrange(nlab), rng.randrange(nlab); it.append(("add", "add ecx, L%d-L%d" % (a, b), "L%d" % a, "L%d" % b))
        elif r < .64: a, b = rng.randrange(nlab), rng.randrange(nlab); it.append(("diff", ("dw" if bits == 16 else "dd") + " L%d-L%d" % (a, b), "L%d" % a, "L%d" % b))
        elif r < .67 and bits != 64: t = target(); it.append(("moff", "mov %s, offset %s" % ("bx" if bits == 16 else "ebx", t), t))
        elif r < .69: it.append(("align", "align %d" % 0, rng.choice([2, 4, 8, 16])))
        else:
            c = rng.choice([1, 1, 2, 3, 4, 6, 10]) if not tight or rng.random() < .8 else rng.choice([60, 100, 110, 118, 120, 122, 124, 126, 127, 128, 130])
            if budget < 0: c = 1
            budget -= c
            it.append(("fill", "db %d dup (0cch)" % c, c))
    out = []; na = 0
    for k, x in enumerate(it):
        if x[0] == "align": x = ("align", "align %d" % x[2], x[2])
        if x[0] == "janon":
            prev = any(y[0] == "anon" for y in out); nxt = any(y[0] == "anon" for y in it[k + 1:])
            if x[2] == "b" and not prev or x[2] == "f" and not nxt: continue
            x = ("jmp" if x[3] == "jmp" else "jcc", "%s @%s" % (x[3], x[2].upper()), "@%d" % (na - 1 if x[2] == "b" else na)) + ((4,) if x[3] == "jz" else ())
        if x[0] == "anon": x = ("label", "@@:", "@%d" % na); na += 1
        out.append(x)
    # loops and SHORT jumps with a reachable target are put where few bytes lie between
    k = 0
    while k < len(out):
        if out[k][0] == "label" and out[k][2][0] == "L" and rng.random() < .3:
            f = rng.choice([0, 1, 5, 30, 100, 124, 125, 126]); nm = out[k][2]
            ins = rng.choice(LOOPS[cpu]); f = min(f, 125) if LOOPOP[ins][0] and cpu != "8086" and ins in PREFIXED[cpu] else f
            new = [("fill", "db %d dup (0cch)" % f, f)] if f else []
            fwd = rng.random() < .5
            if fwd and f < 127: out[k:k] = [("loop", "%s %s" % (ins, nm), nm, ins)] + new; k += 1 + len(new)
            else: out[k + 1:k + 1] = new + [("loop", "%s %s" % (ins, nm), nm, ins)]; k += 1 + len(new)
        k += 1
    return out

def walk(cpu, items, b):
    """decodes the code item by item; returns (label offsets, references) or raises AssertionError"""
    bits = HDR[cpu][1]; w = 2 if bits == 16 else 4; p = 0; lab = {}; refs = []
    le = lambda q, n: int.from_bytes(b[q:q + n], "little", signed=True)
    def chk(c, m): 
        if not c: raise AssertionError(m)
    for x in items:
        k = x[0]; s = p
        chk(p <= len(b), "code ends before `%s`" % x[1])
        if k == "label": lab[x[2]] = p; continue
        op = b[p] if p < len(b) else -1
        if k == "jmp":
            if op == 0xEB: p += 2; refs.append((x, s, p, p + le(p - 1, 1), "short"))
            else: chk(op == 0xE9, "`%s` at 0x%x: opcode %02x" % (x[1], s, op)); p += 1 + w; refs.append((x, s, p, p + le(p - w, w), "near"))
        elif k == "jmpn": chk(op == 0xE9, "`%s` at 0x%x: opcode %02x" % (x[1], s, op)); p += 1 + w; refs.append((x, s, p, p + le(p - w, w), "forced"))
        elif k == "call": chk(op == 0xE8, "`%s` at 0x%x: opcode %02x" % (x[1], s, op)); p += 1 + w; refs.append((x, s, p, p + le(p - w, w), "call"))
        elif k == "jcc":
            if op == 0x70 + x[3]: p += 2; refs.append((x, s, p, p + le(p - 1, 1), "short"))
            elif cpu == "8086":
                chk(op == 0x70 + (x[3] ^ 1) and b[p + 1] == 3 and b[p + 2] == 0xE9, "`%s` at 0x%x: %s" % (x[1], s, b[p:p + 5].hex())); p += 5; refs.append((x, s, p, p + le(p - 2, 2), "inv"))
            else: chk(op == 0x0F and b[p + 1] == 0x80 + x[3], "`%s` at 0x%x: %s" % (x[1], s, b[p:p + 6].hex())); p += 2 + w; refs.append((x, s, p, p + le(p - w, w), "near"))
        elif k == "loop":
            pf = x[3] in PREFIXED[cpu]
            chk(b[p:p + 1 + pf] == (b"\x67" if pf else b"") + bytes([LOOPOP[x[3]][1]]), "`%s` at 0x%x: %s" % (x[1], s, b[p:p + 4].hex())); p += 2 + pf; refs.append((x, s, p, p + le(p - 1, 1), "loop"))
        elif k == "fill": chk(b[p:p + x[2]] == b"\xcc" * x[2], "filler lost at 0x%x" % p); p += x[2]
        elif k == "align": p += -p % x[2]
        elif k == "add":
            if b[p:p + 2] == b"\x83\xc1": p += 3; v = le(p - 1, 1)
            else: chk(b[p:p + 2] == b"\x81\xc1", "`%s` at 0x%x: %s" % (x[1], s, b[p:p + 6].hex())); p += 6; v = le(p - 4, 4)
            refs.append((x, s, p, v, "diff"))
        elif k == "diff": p += w; refs.append((x, s, p, le(p - w, w), "diff"))
        elif k == "moff": chk(op == 0xBB, "`%s` at 0x%x" % (x[1], s)); p += 1 + w; refs.append((x, s, p, le(p - w, w), "off"))
    chk(p == len(b), "%d bytes emitted, %d accounted for" % (len(b), p))
    return lab, refs

def check():
    C = vf.Check("C04", "exploration", "a jump, call, loop, offset or label difference whose decoded target was compared with the label's final position; distinct by (cpu, instruction, form chosen, displacement); every relaxable jump also had its form checked for minimality",
                 ["targets are only required to be minimal where no ALIGN lies between jump and label (alignment makes the shortest form ambiguous)"])
    exe = vf.build("plain")
    jobs = [(C.rng.choice(list(HDR)), C.rng.choice([10, 40, 150, 600]), random.Random(C.rng.getrandbits(64))) for _ in range(350 if not vf.THOROUGH else 8000)]
    jobs += [(c, 6000, random.Random(C.rng.getrandbits(64))) for c in ("32", "64")]
    def job(j):
        cpu, n, rng = j
        items = program(rng, cpu, n)
        h, bits = HDR[cpu]
        src = h + "_T segment use%d para public 'CODE'\nassume cs:_T\n%s\n_T ends\nend\n" % (bits, "\n".join(x[1] for x in items))
        return j, items, src, vf.asm(exe, src, timeout=60)
    for (cpu, n, rng), items, src, r in vf.pmap(job, jobs):
        cmd = ["uasm", "-q", "-bin", "-Fo", "t.bin", "t.asm"]; F = {"t.asm": src}; bits = HDR[cpu][1]
        if r.timeout: C.violation("hang:%s" % cpu, "assembly did not end within 60 s", F, cmd); continue
        if r.rc != 0 or "t.bin" not in r.files:
            C.violation("rejected:%s:%s" % (cpu, (r.errors() or [(0, 0, 0, "?")])[0][3]), "valid program rejected: " + r.text()[-400:], F, cmd); continue
        try: lab, refs = walk(cpu, items, r.files["t.bin"])
        except (AssertionError, IndexError) as x:
            C.violation("walk:%s" % cpu, "emitted code is not the instruction sequence written: %s" % x, F, cmd); continue
        C.count("programs"); M = (1 << bits) - 1 if bits < 64 else (1 << 64) - 1
        aligns = []; 
        for x, s, e, v, form in refs:
            if form == "diff":
                t = lab[x[2]] - lab[x[3]]
                if x[0] == "diff" and bits == 16: t = (t + 0x8000) % 0x10000 - 0x8000
                if t != v: C.violation("diff:%s" % cpu, "`%s` gave %d, final difference is %d" % (x[1], v, t), F, cmd)
                C.case("%s:diff:%d" % (cpu, v)); continue
            t = lab[x[2]]
            if (v ^ t) & M: C.violation("target:%s:%s" % (cpu, x[0]), "`%s` at 0x%x (%s form) goes to 0x%x, label is at 0x%x" % (x[1], s, form, v & M, t), F, cmd)
            C.case("%s:%s:%s:%d" % (cpu, x[1].split()[0], form, t - e), sample="%s: `%s` at 0x%x -> 0x%x (%s)" % (cpu, x[1], s, v, form)); C.count("form_" + form)
            if form in ("near", "inv"):
                # could the short form reach?
                if t > s: fits = -128 <= t - e <= 127 
                else: fits = -128 <= t - (s + 2) <= 127
                lo, hi = min(s, t), max(s, t)
                if fits and not any(y[0] == "align" for y in items):
                    C.violation("notshort:%s:%s" % (cpu, x[0]), "`%s` at 0x%x: label at 0x%x is in short range but the %s form was used" % (x[1], s, t, form), F, cmd)
                elif fits: C.count("long_with_align")
    # out of range: an error on that line, never a wrong displacement
    def far(rng):
        cpu = rng.choice(list(HDR)); L = []; bad = set()
        want = rng.randrange(12) if rng.random() < .85 else -1     # at most one bad jump: errors after it may be consequences
        for i in range(12):
            d = rng.choice([127, 128, 129, 130, 200, 300]) if i == want else rng.choice([0, 1, 60, 100, 124, 125, 126])
            ins = rng.choice(["loop", "loope", "loopne", "jmp short", "jrcxz" if cpu == "64" else "jcxz" if HDR[cpu][1] == 16 else "jecxz"] + ["jz short"])
            if cpu == "8086" and ins == "jz short": ins = "loop"
            if i == want and d == 127 or rng.random() < .5:
                L += ["f%d:" % i, " db %d dup (0cch)" % d if d else "", " %s f%d" % (ins, i)]
                if d + 2 > 128: bad.add(len(L))
            else:
                L += [" %s f%d" % (ins, i)]
                if d > 127: bad.add(len(L))
                L += [" db %d dup (0cch)" % d if d else "", "f%d:" % i]
        src = HDR[cpu][0] + "_T segment use%d 'CODE'\n%s\n_T ends\nend\n" % (HDR[cpu][1], "\n".join(L))
        return cpu, L, bad, src, vf.asm(exe, src, ("-q", "-bin", "-e999"))
    for cpu, L, bad, src, r in vf.pmap(far, [random.Random(C.rng.getrandbits(64)) for _ in range(120 if not vf.THOROUGH else 2000)]):
        got = {e[1] - 2 for e in r.errors() if e[2] != "Warning"}
        cmd = ["uasm", "-q", "-bin", "-e999", "t.asm"]
        if not bad and r.rc == 0: continue
        for l in bad - got: C.violation("range-accepted:%s" % cpu, "out-of-range `%s` not reported" % L[l - 1], {"t.asm": src}, cmd)
        for l in (x for x in got - bad if not bad or x < min(bad)): C.violation("range-refused:%s" % cpu, "in-range `%s` reported" % (L[l - 1] if 0 < l <= len(L) else r.text()[:200]), {"t.asm": src}, cmd)
        if bad and (r.rc == 0 or "t.bin" in r.files): C.violation("range-status", "status %s with range errors, output %s" % (r.rc, list(r.files)), {"t.asm": src}, cmd)
        C.count("range_checks", 12)
    return C.finish(2000)
if __name__ == "__main__": vf.main(check)
