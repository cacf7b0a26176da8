"""Instructions outside the operand-kind corpus: (UASM line, gas line) pairs."""
from insn import num, addr, R64, R32, R16, R8L, R8X
CC = "o no b c nae nb ae nc z e nz ne be na nbe a s ns p pe np po l nge nl ge le ng nle g".split()

def special(rng, mode):
    """one random pair"""
    c = rng.choice
    regs = {64: R64, 32: R32[:8], 16: R16[:8]}[mode]
    gp = {64: [R64, R32, R16], 32: [R32[:8], R16[:8]], 16: [R32[:8], R16[:8]]}[mode]
    same = lambda t: (t, t)
    k = rng.randrange(20)
    sfx = "bwdq" if mode == 64 else "bwd"
    if k == 0:
        m = c(["movs", "stos", "lods"]) + c(sfx)
        return same(c(["", "rep "]) + m)
    if k == 1:
        p = c(["", "repe ", "repz ", "repne ", "repnz "])
        return same(p + c(["cmps", "scas"]) + c(sfx))
    if k == 2: return same(c(["", "rep "]) + c(["ins", "outs"]) + c("bwd"))
    if k == 3:
        n = rng.choice([-126, 129, 2, 0, rng.randrange(-126, 130), rng.randrange(-126, 130)])
        m = c(["j" + x for x in CC] + ["jmp", "loop", "loope", "loopne", "loopz", "loopnz"] + {64: ["jecxz", "jrcxz"], 32: ["jcxz", "jecxz"], 16: ["jcxz", "jecxz"]}[mode])
        if m in ("jecxz",) and mode != 32 or m == "jcxz" and mode == 32: n = c([3, 100, -120])
        return m + " short $%+d" % n if m[0] == 'j' and 'cx' not in m else m + " $%+d" % n, m + " .%+d" % n
    if k == 4:
        n = rng.choice([rng.randrange(200, 30000), -rng.randrange(200, 30000)])
        m = c(["j" + x for x in CC] + ["jmp", "call", "jmp", "call"])
        return m + (" near ptr" if rng.random() < .3 else "") + " $%+d" % n, m + " .%+d" % n
    if k == 5:
        n, gn = num(c([0, 1, 4, 8, 255, 256, 0x7fff, 0x8000, 0xffff, rng.randrange(65536)]))
        if n == "0h": n, gn = "4", "4"
        m = c(["ret", "retn", "retf"]); return m + " " + n, m.replace("retn", "ret") + " " + gn
    if k == 6:
        a = c([0, 1, 8, 255, 256, 0xffff, rng.randrange(65536)]); b = c([0, 1, 31, 255, rng.randrange(256)])
        return "enter %d, %d" % (a, b), "enter %d, %d" % (a, b)
    if k == 7:
        p = c([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)]); r = c(["al", "ax", "eax"])
        q = c(["dx", num(p)])
        q = (q, q) if isinstance(q, str) else q
        return c([("in %s, %s" % (r, q[0]), "in %s, %s" % (r, q[1])), ("out %s, %s" % (q[0], r), "out %s, %s" % (q[1], r))])
    if k == 8:
        n = c([0, 1, 2, 4, 0x21, 0x80, 255, rng.randrange(256)])
        if n == 3: n = 4
        return "int %d" % n, "int %d" % n
    if k == 9:
        L = [("aam", "aam"), ("aad", "aad"), ("daa", "daa"), ("das", "das"), ("aaa", "aaa"), ("aas", "aas"), ("into", "into"), ("salc", "salc") if 0 else ("nop", "nop")] if mode != 64 else [("swapgs", "swapgs"), ("syscall", "syscall"), ("cdqe", "cdqe"), ("cqo", "cqo"), ("iretq", "iretq"), ("pushfq", "pushfq"), ("popfq", "popfq"), ("cmpsq", "cmpsq")]
        L += [("int 3", "int3"), ("cbw", "cbw"), ("cwd", "cwd"), ("cwde", "cwde"), ("cdq", "cdq"), ("xlatb", "xlatb"), ("hlt", "hlt"), ("leave", "leave"), ("ret", "ret"), ("retf", "retf"), ("cpuid", "cpuid"), ("rdtsc", "rdtsc"), ("pause", "pause"),
              ("ud2", "ud2"), ("wait", "fwait"), ("finit", "finit"), ("fninit", "fninit"), ("fstsw ax", "fstsw ax"), ("fnstsw ax", "fnstsw ax"), ("fclex", "fclex"), ("rdpmc", "rdpmc"), ("sysenter", "sysenter"), ("rdmsr", "rdmsr"), ("wrmsr", "wrmsr"), ("rsm", "rsm"), ("invd", "invd"), ("wbinvd", "wbinvd"), ("clts", "clts"),
              ("lahf", "lahf"), ("sahf", "sahf"), ("cmc", "cmc"), ("clc", "clc"), ("stc", "stc"), ("cli", "cli"), ("sti", "sti"), ("cld", "cld"), ("std", "std"), ("mfence", "mfence"), ("lfence", "lfence"), ("sfence", "sfence"), ("emms", "emms"), ("monitor", "monitor") , ("mwait", "mwait"), ("xgetbv", "xgetbv"), ("xsetbv", "xsetbv"), ("vmcall", "vmcall"), ("vmlaunch", "vmlaunch"), ("vmresume", "vmresume"), ("vmxoff", "vmxoff")]
        if mode == 32: L += [("iretd", "iretd"), ("pushfd", "pushfd"), ("popfd", "popfd"), ("pushad", "pushad"), ("popad", "popad"), ("pusha", "pushaw"), ("popa", "popaw")][:5]
        if mode == 16: L += [("iret", "iret"), ("pushf", "pushf"), ("popf", "popf"), ("pusha", "pusha"), ("popa", "popa"), ("iretd", "iretd"), ("pushfd", "pushfd"), ("popfd", "popfd"), ("pushad", "pushad"), ("popad", "popad")]
        if mode == 32: L += [("pushf", "pushf"), ("popf", "popf"), ("iret", "iret"), ("pusha", "pusha"), ("popa", "popa")][:0]
        return c(L)
    if k == 10:       # lock prefix on read-modify-write
        m = c("add or adc sbb and sub xor xchg btc btr bts cmpxchg xadd".split())
        r = c(c(gp)); u, g = addr(rng, mode)
        return "lock %s %s, %s" % (m, u, r), "lock %s %s, %s" % (m, g, r)
    if k == 11:
        m = c("inc dec not neg".split()); u, g = addr(rng, mode); p = c(["byte ptr ", "word ptr ", "dword ptr "] + (["qword ptr "] if mode == 64 else []))
        return "lock " + m + " " + p + u, "lock " + m + " " + p + g
    if k == 12:       # immediates with an explicitly sized memory operand
        m = c("add or adc sbb and sub xor cmp mov test".split()); u, g = addr(rng, mode, seg=True)
        w = c([8, 16, 32] + ([64] if mode == 64 else []))
        p = {8: "byte ptr ", 16: "word ptr ", 32: "dword ptr ", 64: "qword ptr "}[w]
        lim = 1 << min(w, 32)
        v = c([0, 1, 127, 128, -1, -128, -129, lim // 2 - 1, -lim // 2, lim - 1 if w < 64 else 5, rng.randrange(-lim // 2, lim // 2)])
        if not -lim // 2 <= v < lim: v = 1
        if w == 64 and not -(1 << 31) <= v < 1 << 31: v = 7
        un, gn = num(v)
        return "%s %s%s, %s" % (m, p, u, un), "%s %s%s, %s" % (m, p, g, gn)
    if k == 13:       # full range of immediates into registers
        m = c("add or adc sbb and sub xor cmp mov test imul".split()); i = rng.randrange(len(gp)); r = c(gp[i])
        w = 16 if r in R16 else 32 if r in R32 else 64
        lim = 1 << min(w, 32)
        v = c([0, 1, 127, 128, -1, -128, -129, lim // 2 - 1, -lim // 2, rng.randrange(-lim // 2, lim // 2), rng.randrange(-300, 300)] + ([lim - 1, rng.randrange(lim)] if w < 64 else []))
        un, gn = num(v)
        if m == "imul": return "imul %s, %s, %s" % (r, r, un), "imul %s, %s, %s" % (r, r, gn)
        return "%s %s, %s" % (m, r, un), "%s %s, %s" % (m, r, gn)
    if k == 14:
        r = c(R8L); v = c([0, 1, 127, 128, -1, -128, 255, rng.randrange(-128, 256)])
        un, gn = num(v); m = c("add or adc sbb and sub xor cmp mov test".split())
        return "%s %s, %s" % (m, r, un), "%s %s, %s" % (m, r, gn)
    if k == 15:
        v = c([0, 1, 127, -1, -128, 128, -129, 0x7fff, rng.randrange(-0x8000, 0x8000)])
        if mode != 16: v = c([v, 0x7fffffff, -0x80000000, rng.randrange(-1 << 31, 1 << 31)])
        un, gn = num(v); return "push " + un, "push " + gn
    if k == 16 and mode == 64:
        v = c([0x80000000, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, rng.getrandbits(64), rng.getrandbits(40), -rng.randrange(1 << 31, 1 << 62)])
        un, gn = num(v); r = c(R64)
        return "mov %s, %s" % (r, un), ("movabs %s, %s" if not 0 <= v < 1 << 32 else "mov %s, %s") % (r, gn)
    if k == 17 and mode != 64:   # memory offsets
        r = c(["al", "ax", "eax"]); a = rng.randrange(0, 0x10000 if mode == 16 else 1 << 31); un, gn = num(a); s = c(["ds", "es", "fs", "cs", "ss", "gs"])
        t = c(["mov {r}, {s}:[{a}]", "mov {s}:[{a}], {r}", "add {r}, {s}:[{a}]", "cmp {s}:[{a}], {r}"])
        return t.format(r=r, s=s, a=un), t.format(r=r, s=s, a=gn)
    if k == 18:       # byte registers in every combination
        rs = R8L if mode != 64 else c([R8L, R8X]); m = c("mov add xchg cmp test sub xor and or adc sbb".split())
        return same("%s %s, %s" % (m, c(rs), c(rs)))
    if k == 19:
        m = c("shl shr sar rol ror rcl rcr sal".split()); w = c(gp + [R8L])
        n = c(["cl", "1", str(rng.randrange(2, 32))])
        return same("%s %s, %s" % (m, c(w), n))
    m = c("movzx movsx".split()); d = c(gp[:-1]) if mode != 16 else c(gp)
    return same("%s %s, %s" % (m, c(d), c(R8L[:4])))
