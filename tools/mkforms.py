#!/usr/bin/env python3
"""Explores which instruction forms the assembler accepts (mnemonics x operand
kinds) and which of those GNU as accepts too.  Usage: mkforms.py MODE MNEMONICS OUT"""
import itertools, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
KIND = {
 "al": "al", "ax": "ax", "eax": "eax", "rax": "rax", "cl": "cl", "dx": "dx",
 "r8": "bl", "r16": "bx", "r32": "ebx", "r64": "rbx", "es": "es", "ds": "ds", "fs": "fs", "cr": "cr3", "dr": "dr7",
 "st": "st", "sti": "st(1)", "mm": "mm1", "x": "xmm1", "y": "ymm1", "z": "zmm1", "k": "k1",
 "m8": "byte ptr [@]", "m16": "word ptr [@]", "m32": "dword ptr [@]", "m48": "fword ptr [@]", "m64": "qword ptr [@]",
 "m80": "tbyte ptr [@]", "m128": "xmmword ptr [@]", "m256": "ymmword ptr [@]", "m512": "zmmword ptr [@]", "m": "[@]",
 "i1": "1", "i8": "12h", "in": "-5", "i16": "1234h", "i32": "12345678h", "i64": "123456789abcdef0h", "lab": "lab",
 "bnd": "bnd1", "vmx": "[@+xmm2*4]", "vmy": "[@+ymm2*4]", "vmz": "[@+zmm2*4]",
}
SPECIAL = ("bnd", "vmx", "vmy", "vmz")
ALL = list(KIND)
R3 = ["r16", "r32", "r64", "mm", "x", "y", "z", "k", "m16", "m32", "m64", "m128", "m256", "m512", "m", "i8", "cl"]
def combos(mode, mn=''):
    if 'gather' in mn or 'scatter' in mn:
        for p in itertools.product(('x', 'y', 'z', 'vmx', 'vmy', 'vmz'), repeat=2): yield p
        for p in itertools.product(('x', 'y', 'z', 'vmx', 'vmy', 'vmz'), repeat=3): yield p
    kinds = [k for k in ALL if (k not in SPECIAL or k == 'bnd' and mn.startswith('bnd')) and (k != 'lab' or re.match('j|loop|call|xbegin', mn)) and (mode == 64 or k not in ("r64", "rax", "i64"))]
    yield ()
    for a in kinds: yield (a,)
    for a in kinds:
        if a[0] == "i" and a not in ("i8", "i16"): continue
        for b in kinds: yield (a, b)
    r3 = [k for k in R3 if mode == 64 or k != "r64"]
    for a in r3:
        if a in ("i8", "cl"): continue
        for b in r3:
            if b in ("i8", "cl"): continue
            for c in r3 + ["i16", "i32", "in"]: yield (a, b, c)
    for a in ("x", "y", "z", "k", "m128", "m256"):
        for b in ("x", "y", "z", "k"):
            for c in ("x", "y", "z", "r32", "r64", "m8", "m16", "m32", "m64", "m128", "m256", "m512", "m"):
                if mode != 64 and c == "r64": continue
                for d in ("i8", "x", "y"): yield (a, b, c, d)
def text(mode, ops):
    reg = {16: "bx", 32: "esi", 64: "rsi"}[mode]
    return ", ".join(KIND[o] for o in ops).replace("@", reg)
HDR = {16: ".686\n.xmm\n_T segment use16 'CODE'\n", 32: ".686\n.xmm\n_T segment use32 'CODE'\n", 64: ".x64\n_T segment use64 'CODE'\n"}

def uasm_accepts(exe, mode, lines, evex=False):
    """indices of the lines the assembler assembles (iterates until clean)"""
    live = list(range(len(lines)))
    for _ in range(20):
        if not live: return [], None, None
        hdr = HDR[mode] + ("option evex:1\n" if evex else "") + "lab:\n"
        n0 = hdr.count("\n")
        src = hdr + "".join("L%d: %s\n" % (i, lines[i]) for i in live)
        src += "LEND:\n" + "".join(" dd L%d-lab\n" % i for i in live) + " dd LEND-lab\n" + "_T ends\nend\n"
        r = vf.asm(exe, src, ("-q", "-bin", "-e9999999"), timeout=600)
        if r.rc == 0:
            b = r.files["t.bin"]; n = len(live) + 1
            offs = [int.from_bytes(b[len(b) - 4 * n + 4 * i:len(b) - 4 * n + 4 * i + 4], "little") for i in range(n)]
            return live, [b[offs[i]:offs[i + 1]] for i in range(len(live))], None
        bad = {e[1] - n0 - 1 for e in r.errors() if e[2] != "Warning"}
        if not bad: return [], None, "rc %s %s" % (r.rc, r.text()[-300:])
        live = [l for k, l in enumerate(live) if k not in bad]
    return [], None, "no fixpoint"

def explore(exe, mode, mn, evex):
    if evex and mn[0] not in 'vk': return []
    cs = list(combos(mode, mn))
    lines = [mn + " " + text(mode, c) for c in cs]
    live, code, err = uasm_accepts(exe, mode, lines, evex)
    if err: print("!!", mode, mn, err, file=sys.stderr, flush=True)
    return [(mode, mn, cs[i], lines[i], b.hex()) for i, b in zip(live, code or [])]

if __name__ == "__main__":
    mode = int(sys.argv[1].rstrip('e')); evex = sys.argv[1].endswith('e'); mns = open(sys.argv[2]).read().split()
    exe = vf.build("plain")
    res = vf.pmap(lambda m: explore(exe, mode, m, evex), mns)
    with open(sys.argv[3], "w") as f:
        for r in res:
            for x in r: f.write(json.dumps(x) + "\n")
