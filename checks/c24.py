#!/usr/bin/env python3
"""C24: the native assembler runs under an interposed library that makes one open, read, write or close fail;
every run in which a fault was delivered has to end with a non-zero status and an error message, and the run after it,
in the same directory and without the fault, has to produce the normal output."""
import os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
E = dict(EIO=5, EACCES=13, ENOSPC=28, EROFS=30, EMFILE=24, EFBIG=27, EDQUOT=122)

def lib():
    o = os.path.join(vf.scratch(), "faultlib.so")
    p = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", o, os.path.join(vf.VERIF, "native", "faultlib.c"), "-ldl"], capture_output=True, text=True)
    if p.returncode: raise vf.HarnessError("faultlib: " + p.stderr[:300])
    return o

def program(R, fmt, big):
    b64 = fmt in ("win64", "elf64", "macho64", "pe64"); n = R.randint(900, 2500) if big else R.randint(3, 40)
    L = []
    if not b64: L += [".686", ".model flat" + ("" if fmt in ("bin", "mz") else ", stdcall")] if fmt != "omf16" else [".8086", ".model small"]
    if fmt == "pe64": L += ["option win64:3"]
    if R.random() < .8: L.append("include inc%s" % R.choice([".inc", ".asm"]))
    L.append(".data")
    L += ["lb%d %s %d" % (i, R.choice(["db", "dw"]), R.randint(0, 120)) for i in range(n)]
    L.append(".code")
    if fmt not in ("bin", "pe32", "pe64", "mz"): L += ["extern ext%d:%s" % (i, "near") for i in range(3)]
    if R.random() < .5: L.append("public start")
    L.append("start%s" % (":" if fmt != "omf" or R.random() < .9 else " label near"))
    L += ["mov ax, %d" % R.randint(0, 999) for i in range(n)]
    if R.random() < .7: L += ["incbin <data.bin>"]
    if fmt not in ("bin", "pe32", "pe64", "mz"): L += ["call ext%d" % (i % 3) for i in range(n // 4 + 1)]
    L += ["ret"]
    if R.random() < .4: L += ["include inc2.inc"]
    L += ["end" + (" start" if fmt in ("pe32", "pe64", "mz") or R.random() < .3 else "")]
    return "\n".join(L) + "\n"

FMT = {"bin": ["-bin"], "mz": ["-mz"], "omf": ["-omf"], "omf16": ["-omf"], "coff": ["-coff"], "win64": ["-win64"], "elf": ["-elf"], "elf64": ["-elf64"], "macho64": ["-macho64"], "pe32": ["-pe"], "pe64": ["-pe", "-win64"]}
OUT = "t.out"
def case(R):
    fmt = R.choice(list(FMT)); big = R.random() < .6; opts = ["-nologo"] + FMT[fmt]
    if R.random() < .5: opts += ["-q"]
    if R.random() < .5: opts += ["-Fl=t.lst"] + R.sample(["-Sa", "-Sg", "-Sn"], R.choice([0, 0, 1]))
    if R.random() < .2 and fmt in ("coff", "omf", "win64"): opts += [R.choice(["-Zi", "-Zd", "-Zi8"])]
    if R.random() < .3: opts += ["-Fd=t.lnk"]
    if R.random() < .3: opts += ["-Fs=t.sym"]
    if R.random() < .3: opts += ["-Fi=fi.inc"]
    if R.random() < .3: opts = ["@t.rsp"]; rsp = " ".join(["-nologo"] + FMT[fmt] + ["-Fl=t.lst"]) + "\n"
    else: rsp = ""
    inc = "i1 equ 5\n" + "; a comment\n" * (R.randint(300, 900) if big else 2)
    files = {"t.asm": program(R, fmt, big), "inc.inc": inc, "inc.asm": inc, "inc2.inc": "; nothing\n", "fi.inc": "fi1 equ 3\n", "data.bin": bytes(R.getrandbits(8) for _ in range(R.choice([1, 100, 5000, 20000]))), "t.rsp": rsp}
    if R.random() < .2: files["u.asm"] = program(R, fmt, R.random() < .5); return fmt, opts + ["t.asm", "u.asm"], files
    return fmt, opts + ["-Fo", OUT, "t.asm"], files

STABLE = lambda f: {k: v for k, v in f.items() if k.startswith("t.") and not k.endswith(".lst") or k == OUT}
def norm(fmt, k, v):
    if k.endswith(".lst"): v = re.sub(rb"\d\d/\d\d/\d\d \d\d:\d\d:\d\d|\d+ ms", b"T", v)
    return v

def run(exe, so, args, files, fault=None, d=None):
    log = (d or vf.newdir()) + ".log"
    if os.path.exists(log): os.unlink(log)
    env = {"LD_PRELOAD": so, "FAULTLOG": log}
    if fault: env["FAULT"] = "%d:%s:%d:%d:%d" % fault
    r = vf.run(exe, args, files, env=env, timeout=60, cwd=d)
    try: ev = open(log, errors="replace").read().split("\n"); os.unlink(log)
    except OSError: ev = []
    return r, ev

def events(ev):
    o = {}
    for l in ev:
        p = l.split(" ")
        if p[0] == "open": o[int(p[1])] = dict(mode=p[2], err=int(p[3]), path=" ".join(p[4:]), r=0, w=0)
        elif p[0] == "close": o[int(p[1])].update(r=int(p[2][2:]), w=int(p[3][2:]), closed=1)
    return o

def faults(R, o):
    F = []
    for i, x in o.items():
        if x["err"]: continue
        if x["mode"] == "r":
            F += [(i, "o", 0, R.choice([E["EACCES"], E["EMFILE"], E["EIO"]]), 0)]
            for at in sorted({0, x["r"] // 2, x["r"]}): F.append((i, "r", at, E["EIO"], 0))
        else:
            F.append((i, "o", 0, R.choice([E["EACCES"], E["EROFS"], E["ENOSPC"]]), 0)); F.append((i, "c", 0, R.choice([E["EDQUOT"], E["EIO"], E["ENOSPC"]]), 0))
            for at in sorted({0, 1, x["w"] // 2, max(0, x["w"] - 1), R.randrange(max(1, x["w"]))}):
                if at < x["w"]: F.append((i, "w", at, R.choice([E["ENOSPC"], E["EIO"], E["EFBIG"]]), R.choice([0, 0, 1])))
    tot = sum(x["w"] for x in o.values())
    for _ in range(4):
        if tot: F.append((-2, "w", R.choice([0, tot - 1, R.randrange(tot), R.randrange(tot)]), E["ENOSPC"], 0))
    return F

def one(a):
    exe, so, seed = a; R = random.Random(seed); fmt, args, files = case(R)
    d = vf.newdir(); V = []; st = []
    base, ev = run(exe, so, args, files, d=d); o = events(ev)
    if base.rc: return seed, fmt, args, files, [("no fault: refused", base.text()[:300], None)], st
    want = {k: norm(fmt, k, v) for k, v in base.files.items()}
    plain = vf.run(exe, args, files)
    for k in want:
        if norm(fmt, k, plain.files.get(k, b"")) != want[k]: V.append(("HARNESS: interposition changes the output", k, None))
    for f in faults(R, o):
        x = o.get(f[0], dict(path="every file", mode="w")); kind = {"o": "open", "r": "read", "w": "write", "s": "seek", "c": "close"}[f[1]]; what = re.sub(r".*[/.]", "", x["path"]) if "." in x["path"] else x["path"]
        for k in list(want): # outputs of the run before
            try: os.unlink(os.path.join(d, k))
            except OSError: pass
        r, ev = run(exe, so, args, {}, fault=f, d=d); hit = any(l.startswith("hit") for l in ev)
        if not hit: st.append("not delivered"); continue
        st.append("%s %s" % (kind, what)); t = r.text(); desc = "%s fails (fopen #%d of the run, \"%s\", after %d bytes, errno %d%s)" % (kind, f[0], x["path"], f[2], f[3], ", once" if f[4] == 1 else "")
        key = "%s %s" % (kind, what)
        if r.timeout: V.append((key + ": the run does not end", desc, f)); continue
        if r.rc is not None and (r.rc < 0 or r.rc >= 128 or "General Failure" in t): V.append((key + ": crash", "%s: status %s\n%s" % (desc, r.rc, t[-300:]), f)); continue
        same = all(norm(fmt, k, r.files.get(k, b"")) == want[k] for k in want)
        if r.rc == 0 and same and kind == "close" and x["mode"] == "r": continue
        if r.rc == 0: V.append((key + ": status 0", "%s: the exit status is 0; %s\n%s" % (desc, "the output is complete" if same else "missing or different: %s" % [k for k in want if norm(fmt, k, r.files.get(k, b"")) != want[k]], t[-300:]), f))
        elif "rror" not in t: V.append((key + ": no message", "%s: status %d but nothing is said\n%s" % (desc, r.rc, t[-300:]), f))
        if R.random() < .35:
            r, ev = run(exe, so, args, {}, d=d); st.append("later run")
            bad = [k for k in want if norm(fmt, k, r.files.get(k, b"")) != want[k]]
            if r.rc or bad: V.append((key + ": later run", "the run after the fault (%s) gives status %s, different: %s\n%s" % (desc, r.rc, bad, r.text()[-300:]), f))
    shutil.rmtree(d, ignore_errors=True)
    return seed, fmt, args, files, V, st

def check():
    C = vf.Check("C24", "exploration",
        "one evaluation is one run in which one open, read, write or close of one of its files failed (delivery confirmed by the library's log): the exit status is not 0 and an error message is printed; the run after it, in the same directory without the fault, gives the normal output",
        ["faults are delivered below the C library's buffering, as a file system would", "a failing close of a file only read is judged by the output alone"])
    exe = vf.build("plain", [os.path.join(vf.VERIF, "native", "faketime.c")], "det"); so = lib()
    for seed, fmt, args, files, V, st in vf.pmap(one, [(exe, so, C.rng.getrandbits(40)) for _ in range(2000 if vf.THOROUGH else 130)]):
        for s in st:
            if s in ("not delivered", "later run"): C.count("faults_" + s.replace(" ", "_") if s[0] == "n" else "later_runs_compared", 1); continue
            C.case((seed, len(C.keys)), None); C.seen("fault", (fmt, s)); C.count("faults_" + s.split()[0], 1)
        for key, msg, f in V:
            if key.startswith("HARNESS"): raise vf.HarnessError("%s %s %s" % (key, msg, args))
            C.violation(key, "%s (%s)" % (msg, " ".join(args)), files, "LD_PRELOAD=faultlib.so FAULT=%s uasm %s" % (":".join(map(str, f)) if f else "", " ".join(args)))
    return C.finish(min_nontrivial=500)

if __name__ == "__main__": vf.main(check)
