"""Independent x86 oracles: GNU as as reference encoder, objdump as decoder."""
import os, re, subprocess
import vf

GASMODE = {16: ".code16", 32: ".code32", 64: ".code64"}

def _gas(mode, lines, d, pad, base):
    s = os.path.join(d, "g.s"); o = os.path.join(d, "g.o")
    with open(s, "w") as f:
        f.write(".intel_syntax noprefix\n%s\n.text\nlab:\n" % GASMODE[mode])
        for l in lines: f.write("%s\n" % l if not pad else "%s; .balign 16,0x90\n" % l)
    p = subprocess.run(["as", "--32" if mode != 64 else "--64", "-W", "-o", o, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode, p.stdout.decode("latin1"), o

def gas(mode, lines, pad=True):
    """bytes per line (None where GNU as rejects it). Relocatable operands must not occur."""
    import shutil
    d = vf.newdir()
    try:
        live = list(range(len(lines))); res = [None] * len(lines)
        for _ in range(5):
            rc, out, o = _gas(mode, [lines[i] for i in live], d, True, 0)
            bad = {int(m[1]) - 5 for m in re.finditer(r"^[^\n:]*:(\d+): Error:", out, re.M)}
            if rc == 0: break
            if not bad: raise vf.HarnessError("gas: " + out[:500])
            live = [l for k, l in enumerate(live) if k not in bad]
            if not live: return res
        else:
            raise vf.HarnessError("gas: no fixpoint " + out[:300])
        b = os.path.join(d, "g.b")
        subprocess.run(["objcopy", "-O", "binary", "-j", ".text", o, b], check=True)
        data = open(b, "rb").read()
        for k, i in enumerate(live): res[i] = data[16 * k:16 * k + 16]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

OBJ = {16: ["-m", "i8086"], 32: ["-m", "i386"], 64: ["-m", "i386:x86-64"]}

def disasm(mode, codes, base=0, slot=32, flavor="intel", full=16):
    """Text of each code (at address base + slot*i in NOP padding): the
    instructions that start inside it, joined by ' ; ', and '!len' if the
    last one does not end exactly where the code ends (codes of length
    `full` are taken to be padded already)."""
    import shutil
    d = vf.newdir()
    try:
        buf = b"".join((c + b"\x90" * slot)[:slot] for c in codes) + b"\x90" * 32
        f = os.path.join(d, "c.bin")
        open(f, "wb").write(buf)
        p = subprocess.run(["objdump", "-D", "-b", "binary", "-M", flavor, "-z", "--insn-width=15", "--adjust-vma=%d" % base] + OBJ[mode] + [f],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: raise vf.HarnessError("objdump: " + p.stdout.decode("latin1")[:300])
        out = [[] for _ in codes]; ends = [0] * len(codes)
        for m in re.finditer(r"^\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*(?:\t(.*))?$", p.stdout.decode("latin1"), re.M):
            a = int(m[1], 16) - base
            i, off = divmod(a, slot)
            if i >= len(codes): continue
            n = len(codes[i])
            if off >= n: continue
            t = re.sub(r"\s+", " ", (m[3] or "").strip())
            t = re.sub(r"\s*(#|<).*$", "", t).strip()
            ln = len(m[2].split())
            if n == full and off > 0: continue
            out[i].append(t); ends[i] = off + ln
        return [" ; ".join(o) + ("" if len(c) == full or ends[i] == len(c) else " !len%d/%d" % (ends[i], len(c))) for i, (o, c) in enumerate(zip(out, codes))]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def gasline(l):
    """the same line with 0x numbers"""
    return re.sub(r"\b([0-9][0-9a-fA-F]*)h\b", lambda m: "0x" + m[1], l)
