#!/usr/bin/env python3
"""C13: programs with Win64 FRAME procedures are linked with compiled C and single-stepped on the CPU; before every
instruction of an assembled procedure a virtual unwinder (the documented rules) works from the .pdata/.xdata in the
image and what it restores is compared with the registers and the stack pointer recorded at the procedure's entry."""
import collections, os, random, re, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, runimg, objread, c12
BASE = 0x10000000

UNW = r"""
typedef struct { u32 b, e, u; } RF;
extern u8 pdata_s[], pdata_e[], asm_s[], asm_e[], xdata_s[], xdata_e[];
/* registers by number: rax rcx rdx rbx rsp rbp rsi rdi r8..r15 */
static const u8 gi[16] = { 13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7 };
typedef struct { u64 r[16]; u64 x[16][2]; u64 rip; } CTX;
static CTX ent[16]; static u64 entb[16], bad0, bad1; static int ne; u32 cnt[8]; static int nrec; static u8 logb[4096]; static u32 nlog;
#define M8(a) (*(volatile u64 *)(a))
static int epilog(CTX *c, u64 end, int fr) { /* the rest of the procedure's epilogue, if rip is in one */
    u64 p = c->rip; u64 sp = c->r[4]; u8 *q = (u8 *)p; u64 sv[16]; u32 have = 0; int i;
    if (q[0] == 0x48 && q[1] == 0x83 && q[2] == 0xc4) { sp += (s8)q[3]; q += 4; }
    else if (q[0] == 0x48 && q[1] == 0x81 && q[2] == 0xc4) { sp += *(int *)(q + 3); q += 7; }
    else if ((q[0] & 0xfe) == 0x48 && q[1] == 0x8d && (q[2] & 0x38) == 0x20 && fr && (q[2] & 7) == (fr & 7) && (q[2] & 7) != 4 && (q[0] & 1) == fr >> 3) {
        if (q[2] >> 6 == 1) { sp = c->r[fr] + (s8)q[3]; q += 4; } else if (q[2] >> 6 == 2) { sp = c->r[fr] + *(int *)(q + 3); q += 7; } else if (q[2] >> 6 == 0) { sp = c->r[fr]; q += 3; } else return 0; }
    for (;;) { u8 *t = q; int rex = 0; if ((*t & 0xf0) == 0x40) rex = *t++; if ((*t & 0xf8) == 0x58) { i = (*t & 7) | (rex & 1) << 3; sv[i] = M8(sp); have |= 1 << i; sp += 8; q = t + 1; } else break; }
    if (!(q[0] == 0xc3 || q[0] == 0xc2 || (q[0] == 0xf3 && q[1] == 0xc3)) || (u64)q >= end) return 0;
    for (i = 0; i < 16; i++) if (have >> i & 1) c->r[i] = sv[i];
    c->rip = M8(sp); c->r[4] = sp + 8; return 1;
}
static u32 unwind(CTX *c, RF *f) { /* -> 0 prologue, 1 body, 2 epilogue, 0x1xx malformed */
    u8 *u = (u8 *)(u64)f->u; u32 off = (u32)c->rip - f->b, where = 1, i, n = u[2], fr = u[3] & 15, fo = (u[3] >> 4) * 16; u64 fb; int setfp = 0;
    if ((u[0] & 7) != 1) return 0x101;
    if (off < u[1]) where = 0;
    else if (epilog(c, f->e, fr)) return 2;
    for (i = 0; i < n; i++) { u8 *k = u + 4 + 2 * i; u32 o = k[1] & 15, v = k[1] >> 4;
        if (o == 3 && k[0] <= off) setfp = 1;
        i += o == 1 ? 1 + v : o == 4 || o == 8 ? 1 : o == 5 || o == 9 ? 2 : 0; }
    fb = fr && (where || setfp) ? c->r[fr] - fo : c->r[4];
    if (fr && setfp && where == 0) fb = c->r[fr] - fo;
    { u32 last = 255;
    for (i = 0; i < n; i++) { u8 *k = u + 4 + 2 * i; u32 o = k[1] & 15, v = k[1] >> 4, w1 = *(u16 *)(k + 2), w2 = *(u32 *)(k + 2); int act = where || k[0] <= off;
        if (k[0] > last || k[0] > u[1]) return 0x102; last = k[0];
        switch (o) {
        case 0: if (act) { c->r[v] = M8(c->r[4]); c->r[4] += 8; } break;
        case 1: if (v > 1) return 0x103; if (act) c->r[4] += v ? w2 : w1 * 8; i += 1 + v; break;
        case 2: if (act) c->r[4] += v * 8 + 8; break;
        case 3: if (!fr) return 0x104; if (act) c->r[4] = c->r[fr] - fo; break;
        case 4: if (act) c->r[v] = M8(fb + w1 * 8); i++; break;
        case 5: if (act) c->r[v] = M8(fb + w2); i += 2; break;
        case 8: if (act) { c->x[v][0] = M8(fb + w1 * 16); c->x[v][1] = M8(fb + w1 * 16 + 8); } i++; break;
        case 9: if (act) { c->x[v][0] = M8(fb + w2); c->x[v][1] = M8(fb + w2 + 8); } i += 2; break;
        default: return 0x105; } }
    if (i != n) return 0x106; }
    c->rip = M8(c->r[4]); c->r[4] += 8; return where;
}
static void put(u32 a, u32 b, u32 d, u64 e, u64 g) { if (nlog + 32 > sizeof logb) return; u32 *l = (u32 *)(logb + nlog); l[0] = a; l[1] = b; l[2] = d; l[3] = 0; ((u64 *)l)[2] = e; ((u64 *)l)[3] = g; nlog += 32; }
void hook(u64 *g, u8 *fx) {
    u64 pc = g[16]; RF *f = (RF *)pdata_s, *e = (RF *)pdata_e; int i; CTX c; u32 w;
    if (pc < (u64)asm_s || pc >= (u64)asm_e) return;
    for (; f < e; f++) if (pc >= f->b && pc < f->e) break;
    for (i = 0; i < 16; i++) { c.r[i] = g[gi[i]]; c.x[i][0] = *(u64 *)(fx + 160 + 16 * i); c.x[i][1] = *(u64 *)(fx + 168 + 16 * i); }
    c.rip = pc;
    while (ne && c.r[4] >= ent[ne - 1].r[4]) ne--;
    if (f >= e) { cnt[4]++; return; } /* a leaf */
    if (pc == f->b && ne < 16) { ent[ne] = c; ent[ne].rip = M8(c.r[4]); ent[ne].r[4] += 8; entb[ne++] = f->b; }
    if (!ne || entb[ne - 1] != f->b) { put((u32)pc, 0x200, 0, 0, 0); return; }
    w = unwind(&c, f); if (w > 2) { put((u32)pc, w, 0, 0, 0); return; }
    cnt[w]++;
    { CTX *x = ent + ne - 1;
    if (c.r[4] != x->r[4]) put((u32)pc, w, 4, x->r[4], c.r[4]);
    else if (c.rip != x->rip) put((u32)pc, w, 100, x->rip, c.rip);
    else { for (i = 0; i < 16; i++) if ((0xf0e8 >> i & 1) && c.r[i] != x->r[i]) { put((u32)pc, w, i, x->r[i], c.r[i]); break; }
      for (i = 6; i < 16; i++) if (c.x[i][0] != x->x[i][0] || c.x[i][1] != x->x[i][1]) { put((u32)pc, w, 32 + i, x->x[i][0], c.x[i][0]); break; } } }
}
u8 *finish(void) { u8 *o = (u8 *)0x20000000; u32 i; for (i = 0; i < 8; i++) ((u32 *)o)[i] = cnt[i]; for (i = 0; i < nlog; i++) o[32 + i] = logb[i]; return o + 32 + nlog; }
"""
SCRIPT = "SECTIONS { .text 0x10000000 : { s.o(.text) asm_s = .; t.obj(*_TEXT* .text* CSEG*) asm_e = .; *(.text) *(.text*) } .data ALIGN(4096) : { *(.data) *(.data*) *(.rodata*) *(.rdata*) *(.bss) *(COMMON) *(_DATA) } .pdata ALIGN(16) : { pdata_s = .; t.obj(.pdata*) pdata_e = .; } .xdata ALIGN(16) : { xdata_s = .; t.obj(.xdata*) xdata_e = .; } .rest : { *(.fini*) *(.buf) } /DISCARD/ : { *(.pdata) *(.xdata) *(.comment) *(.eh_frame) *(.note*) *(.drectve) } }"

def stub(M, n):
    s = c12.stub(M, n)
    s = s.replace(".text\nstart:", ".text\njmp start\n.balign 8\n.quad hook\nstart:", 1)
    s = s.replace("mov %rdi, op(%rip)", "lea buf(%rip),%rax; mov %rax, op(%rip)", 1)
    return s.replace("2: mov op(%rip),%rax;", "2: mov %rsp,%rbx; sub $0x40,%rsp; and $-16,%rsp; call finish; mov %rbx,%rsp;", 1) + "\n.section .buf,\"aw\"\nbuf: .zero 262144\n"

class Man: # procedures whose prologue is written by hand with the unwind directives
    NV = ["rbx", "rbp", "rsi", "rdi", "r12", "r13", "r14", "r15"]
    def __init__(G, R): G.R = R; G.kinds = collections.Counter()
    def proc(G, k):
        R = G.R; n = "man%d" % k; b = []; regs = R.sample(G.NV, R.randint(0, 8)); push = []; fr = None
        b.append("%s proc frame%s" % (n, ":hand" if R.random() < .3 else ""))
        frr = R.choice([None, None, "rbp", "rbp", "rbx", "r13", "rdi", "r12"])
        for r in regs:
            if R.random() < .6 or r == frr: push.append(r); b += ["push " + r, ".pushreg " + r]
        if frr and frr not in push: push.append(frr); b += ["push " + frr, ".pushreg " + frr]
        save = [r for r in regs if r not in push]; xm = R.sample(range(6, 16), R.choice([0, 0, 1, 2, 4]))
        sz = 8 * R.choice([0, 1, 2, 3, 5, 15, 16, 17, 18, 31, 32, 64, 65, R.randint(19, 600), R.randint(600, 9000), 65534, 65535, 65536, 65537, R.randint(65538, 140000)])
        need = 8 * len(save) + 16 * len(xm) + 32
        if (save or xm) and sz < need: sz = need
        if sz > 4096: b += ["mov eax, %d" % sz, "sub rsp, rax"] if R.random() < .3 else ["sub rsp, %d" % sz]
        elif sz: b += ["sub rsp, %d" % sz]
        if sz: b.append(".allocstack %d" % sz); G.kinds["alloc small" if sz <= 128 else "alloc large" if sz <= 524280 else "alloc huge"] += 1
        # xmm slots must be 16-aligned in the frame: rsp at entry is 8 mod 16
        mis = (8 + 8 * len(push) + sz) % 16
        slots = []; used = set()
        def slot(a):
            for _ in range(200):
                o = R.randrange(0, max(1, (sz - a) // a + 1)) * a if sz - a >= 0 else 0
                if R.random() < .2: o = max(0, (sz - a) // a * a)
                if not any(x in used for x in range(o, o + a)) and o + a <= sz: used.update(range(o, o + a)); return o
            return None
        todo = [("s", r) for r in save] + [("x", x) for x in xm]; R.shuffle(todo)
        pre = []; setfp = []
        fo = 0
        if frr:
            fo = 16 * R.choice([0, 0, 1, 2, 8, 15]); fo = fo if fo <= sz else 0
            setfp = ["lea %s, [rsp+%d]" % (frr, fo) if fo or R.random() < .5 else "mov %s, rsp" % frr, ".setframe %s, %d" % (frr, fo)]; G.kinds["frame register"] += 1
        saves = []; skipped = []
        for kd, r in todo:
            o = slot(8 if kd == "s" else 16)
            if o is None: skipped.append((kd, r)); continue
            if kd == "s": saves.append(["mov [rsp+%d], %s" % (o, r), ".savereg %s, %d" % (r, o)]); slots.append((kd, r, o)); G.kinds["savereg far" if o >= 524288 else "savereg"] += 1
            else: saves.append(["%s [rsp+%d], xmm%d" % (R.choice(["movups", "movdqu"]) if mis else "movaps", o, r), ".savexmm128 xmm%d, %d" % (r, o)]); slots.append((kd, r, o)); G.kinds["savexmm far" if o >= 1048576 else "savexmm"] += 1
        if setfp:
            i = R.randint(0, len(saves)); seq = saves[:i] + [setfp] + saves[i:]
        else: seq = saves
        for x in seq: b += x
        b.append(".endprolog")
        clob = [r for kd, r, o in slots if kd == "s"] + [p for p in push if p != frr]
        for r in R.sample(clob, R.randint(0, len(clob))): b.append("mov %s, %d" % (r, R.randint(1, 1 << 30)))
        for kd, r, o in slots:
            if kd == "x": b.append("pxor xmm%d, xmm%d" % (r, r))
        if frr and R.random() < .5: b += ["sub rsp, %d" % (16 * R.randint(1, 9)), "push rax", "nop", "xor ecx, ecx"]
        b.append("mov eax, %d" % (k + 100))
        base = "%s+%d" % (frr, -fo) if frr else "rsp+0"
        for kd, r, o in slots: b.append("mov %s, [%s%+d]" % (r, frr or "rsp", o - fo) if kd == "s" else "movups xmm%d, [%s%+d]" % (r, frr or "rsp", o - fo))
        if frr: b.append("lea rsp, [%s%+d]" % (frr, sz - fo))
        elif sz: b.append("add rsp, %d" % sz)
        b += ["pop " + r for r in push[::-1]] + ["ret", n + " endp", ""]
        return b

def gen(R, M, nman, nauto):
    G = c12.Gen(R, M, nauto); src = G.build()
    L = src.split("\n"); out = []
    for l in L: # locals around the sizes where the records change their form
        out.append(l)
        if re.match(r"prc\d+ proc", l) and R.random() < .5: out.append("local pad_[%d]:byte" % R.choice([1, 8, 16, 64, 90, 100, 104, 110, 112, 120, 128, 136, 144, 200, 1000, 4000, 70000, 524000, 524280, 524288, 530000]))
    m = Man(R); mb = ["option frame:noauto", "hand:", "ret"]; c = []
    for k in range(nman):
        pb = m.proc(k); sg = R.choice([None, None, "CSEG1", "CSEG2", "_TEXT$b"]) if nman > 3 else None
        mb += ["%s segment align(16) 'code'" % sg] + pb + [sg + " ends", ".code"] if sg else pb
        if sg: m.kinds["in another segment"] += 1
        c.append("u32 man%d(void); int tst%d(void){ man%d(); return 0; }\n" % (k, nauto + k, k))
    i = max(j for j, l in enumerate(out) if l == "end"); out[i:i] = mb
    return G, m, "\n".join(out), c12.csource(M, G) + "".join(c)

def execute(M, obj, csrc, n):
    with tempfile.TemporaryDirectory() as d:
        w = lambda f, s: open(d + "/" + f, "wb" if isinstance(s, bytes) else "w").write(s)
        w("s.s", stub(M, n)); w("c.c", csrc); w("u.c", c12.CHEAD.split("u8 *op")[0] + UNW); w("t.obj", obj); w("l.ld", SCRIPT)
        fl = ["-O1", "-w", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-fno-asynchronous-unwind-tables", "-mstackrealign", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]
        r = subprocess.run(["x86_64-w64-mingw32-gcc"] + fl + ["-c", "s.s", "c.c", "u.c"], cwd=d, capture_output=True, text=True)
        if r.returncode: raise vf.HarnessError("C compiler: " + r.stderr[:500])
        r = subprocess.run(["x86_64-w64-mingw32-ld", "-T", "l.ld", "-e", "0x10000000", "--image-base", "0", "-Map=t.map", "-o", "t.exe", "s.o", "c.o", "u.o", "t.obj"], cwd=d, capture_output=True, text=True)
        if r.returncode: return None, b"", "link: " + r.stderr[:400], {}, b""
        subprocess.run(["x86_64-w64-mingw32-objcopy", "-O", "binary", "t.exe", "t.bin"], cwd=d, check=True)
        sy = {}
        for l in subprocess.run(["x86_64-w64-mingw32-nm", "t.exe"], cwd=d, capture_output=True, text=True).stdout.split("\n"):
            p = l.split()
            if len(p) == 3: sy[p[2]] = int(p[0], 16)
        for k in range(20):
            p = subprocess.run([RUN, "64", d + "/t.bin", hex(BASE), str(1 << 20), "step"], capture_output=True, timeout=60)
            if b"mmap" not in p.stderr: break
        return p.returncode, p.stdout, p.stderr.decode("latin1")[:200], sy, open(d + "/t.bin", "rb").read()
def one(a):
    M, seed, EXE = a
    R = random.Random(seed); nman, nauto = R.choice([(8, 0), (5, 2), (0, 4), (3, 3)] if "rsp" not in M.name and not any(x in M.name for x in ("11", "15")) else [(0, 4), (0, 6)])
    G, m, src, cs = gen(R, M, nman, nauto)
    r = vf.asm(EXE, src, M.opts + ["-nologo", "-e1000"], "t.o")
    if r.rc or "t.o" not in r.files: return M, G, m, src, cs, "refused", [(e[1], e[4]) for e in r.errors()], r.text()[:300]
    return M, G, m, src, cs, "ran", execute(M, r.files["t.o"], cs, nman + nauto), r.files["t.o"]

def tables(img, sy, hand):
    """the records as a loader and the system's lookup see them: -> (problems, number of records)"""
    at = lambda v, n: img[v - BASE:v - BASE + n]
    P = []; T = []; a, e = sy["pdata_s"], sy["pdata_e"]
    if (e - a) % 12: P.append(("the function table's size is not a multiple of 12", "%#x" % (e - a)))
    for v in range(a, e - 11, 12): T.append(struct.unpack("<3I", at(v, 12)))
    fr = {sy[k]: k for k in sy if re.match(r"(prc|man)\d+$", k)}; begins = [x[0] for x in T]
    for v, k in fr.items():
        if begins.count(v) != 1: P.append(("%d records begin at a FRAME procedure" % begins.count(v), k))
    T.sort(); starts = sorted(fr)
    for i, (b, e, u) in enumerate(T):
        nm = fr.get(b, hex(b)); nx = [x for x in starts if x > b][:1]
        if b not in fr: P.append(("a record begins at no FRAME procedure", nm))
        if e <= b: P.append(("a record ends before it begins", nm)); continue
        if nx and e > nx[0]: P.append(("a record covers the next procedure", nm))
        if at(e - 1, 1) != b"\xc3": P.append(("a record ends inside the procedure or behind it", nm))
        if u & 3: P.append(("unaligned unwind information", nm))
        h = at(u, 4)
        if len(h) < 4: P.append(("unwind information outside the image", nm)); continue
        f = h[0] >> 3; w = hand.get(nm)
        if (f & 1) != (w is not None): P.append(("the handler flag is wrong", nm))
        elif f & 1 and struct.unpack("<I", at(u + 4 + 2 * (h[2] + (h[2] & 1)), 4))[0] != sy[w]: P.append(("the handler's address is wrong", nm))
        if h[1] > e - b: P.append(("the prologue is longer than the procedure", nm))
    return P, len(T)

WH = {0: "in the prologue", 1: "in the body", 2: "in the epilogue", 0x200: "at an instruction of a procedure that was not entered at its first instruction (according to the function table)"}
REG = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
def check():
    global RUN
    C = vf.Check("C13", "exploration",
        "the object is linked and run one instruction at a time; before every instruction of a FRAME procedure a virtual unwinder written from the documented rules (prologue: codes not yet reached are skipped; epilogue: executed; body: all codes) works on the registers and the .pdata/.xdata in the image, and the return address, the stack pointer and rbx rbp rsi rdi r12-r15 xmm6-xmm15 it gives have to be those recorded when the procedure was entered; the function table has to have exactly one record for each FRAME procedure, ending at its last byte, with its handler",
        ["procedures with hand-written prologues are generated so that their prologues are what the directives say", "the table is sorted by the linker's user: the order of records in the object is not judged", ".PUSHFRAME is not generated"])
    RUN = runimg.runner(); exe = vf.build("plain"); jobs = []
    for M in [m for m in c12.modes() if m.win and m.frame]:
        for i in range((60 if "0-f" in M.name else 25) * (12 if vf.THOROUGH else 1)): jobs.append((M, C.rng.getrandbits(40), exe))
    def job(a):
        try: return a, one(a)
        except subprocess.TimeoutExpired: return a, None
    for (M, seed, _), res in vf.pmap(job, jobs):
        if res is None: C.violation("%s: run does not end" % M.name, "the program linked from the object does not end (mode %s, seed %d)" % (M.name, seed), {}, ""); continue
        M, G, m, src, cs, st, res, obj = res; L = src.split("\n"); cmd = "uasm %s t.asm   # then linked with c.c and single-stepped (mode %s, seed %d)" % (" ".join(M.opts), M.name, seed)
        files = {"t.asm": src, "c.c": cs}; g = M.name.split("-")[0]
        if st == "refused":
            res = [(l, x) for l, x in res if "Stackbase" not in x]
            bad = [(l, x) for l, x in res if not ((G.odd or G.hotp) and 0 < l <= len(L) and L[l - 1][7:] in G.mayrefuse)]
            if bad or not res:
                l, x = (bad or [(0, obj)])[0]
                C.violation("%s: refused: %s" % (g, x[:50]), "a valid program is refused (%s): %s: %s" % (M.name, L[l - 1] if 0 < l <= len(L) else "", x), files, cmd)
            else: C.count("refused_for_a_register_the_call_overwrites", 1)
            continue
        rc, out, msg, sy, img = res
        if rc is None: C.violation("%s: link" % g, "the object cannot be linked (%s): %s" % (M.name, msg), files, cmd); continue
        hand = {w.group(1): w.group(2) for w in re.finditer(r"^(\w+) proc frame:(\w+)", src, re.M)}
        P, n = tables(img, sy, hand); C.count("function_table_records", n); C.count("handlers", len(hand))
        for k, w in P[:3]: C.violation("%s: %s" % (g, k), "%s: %s (mode %s, seed %d)" % (k, w, M.name, seed), files, cmd)
        if rc: C.violation("%s: the run ends with status %s" % (g, rc), "the run ends with status %s %s (mode %s, seed %d)" % (rc, msg, M.name, seed), files, cmd); continue
        if len(out) < 32: raise vf.HarnessError("no counters in the output")
        c = struct.unpack("<8I", out[:32])
        for i, nm in enumerate(("prologue", "body", "epilogue")): C.count("unwound_at_instructions_of_the_" + nm, c[i])
        names = sorted((v, k) for k, v in sy.items() if re.match(r"(prc|man)\d+$", k)); done = set()
        for o in range(32, len(out) - 31, 32):
            pc, w, d, _, ex, got = struct.unpack("<4I2Q", out[o:o + 32]); f = max([x for x in names if x[0] <= pc] or [(0, "?")])
            what = "malformed unwind information (%#x)" % w if 0x100 < w < 0x200 else WH[w] + ("" if w == 0x200 else ": " + (REG[d] if d < 16 else "the return address" if d == 100 else "xmm%d" % (d - 32)))
            key = "%s: %s %s" % (g, f[1][:3], what)
            if key in done: continue
            done.add(key)
            i = next((i for i, l in enumerate(L) if l.startswith(f[1] + " proc")), 0)
            C.violation(key, "unwinding from %s+%#x %s: recorded at entry %#x, unwound %#x (mode %s, seed %d)\nprocedure: %s" % (f[1], pc - f[0], what, ex, got, M.name, seed, " | ".join(x.strip() for x in L[i:i + 30])), files, cmd)
        C.case((M.name, seed), (M.name, seed, dict(m.kinds))); C.count("programs_" + g, 1); C.seen("mode", M.name)
        for k, v in m.kinds.items(): C.count("records_" + k.replace(" ", "_"), v)
    return C.finish(min_nontrivial=60)

if __name__ == "__main__": vf.main(check)
