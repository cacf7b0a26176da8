#!/usr/bin/env python3
"""C23: no input makes the assembler corrupt memory, crash or hang.  The
sanitizer builds (address+bounds and memory) are run over the regression
sources, programs at every limit, generated programs and mutants of the
sources; any sanitizer report, signal, odd exit code or time-out is a violation."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, corpus, fuzz, hostile, objgen
RX = re.compile(r"#\d+ 0x\w+ in (\w+) (?:\S*?/)?(\w+\.c):(\d+)")
BAD = re.compile(r"AddressSanitizer|MemorySanitizer|UndefinedBehaviorSanitizer|runtime error:|buffer overflow detected|stack smashing|A2169: General Failure")
ENDL = re.compile(rb"(?i)\b(rept|repeat|while|irpc?|forc?|goto|macro)\b")
BIG = re.compile(rb"(?i)\b(dup|org|align|comm)\b|\[")
def check():
    C = vf.Check("C23", "exploration", "one per program run under a sanitizer build to its end; non-trivial: distinct program")
    os.environ["ASAN_OPTIONS"] += ":hard_rss_limit_mb=3500:handle_segv=2:handle_sigfpe=2"; os.environ["MSAN_OPTIONS"] += ":handle_segv=2"    # not the assembler's own handler
    EXE = {v: vf.build(v) for v in ("asan", "msan", "fort")}
    L = corpus.load(1 << 20); inc = {d: corpus.includes(d) for d in {e.dir for e in L}}
    rng = random.Random("C23/%d" % vf.SEED)
    jobs = []   # (kind, variant, opts, src, files)
    def files(e): return inc[e.dir] if b"nclude" in e.src or b"NCLUDE" in e.src or b"ncbin" in e.src.lower() else {}
    for e in L:
        jobs.append(("corpus", "asan", e.opts, e.src, files(e)))
        if len(e.src) < 60000: jobs.append(("corpus", "msan", e.opts, e.src, files(e)))
        for o in ([], ["-Fl", "-Sg", "-Sa"], ["-Fl", "-Sf", "-Sx"], rng.choice(fuzz.EXTRA), rng.choice(fuzz.EXTRA)): jobs.append(("corpus", "fort", list(e.opts) + o, e.src, files(e)))
    S = [e for e in L if len(e.src) < 60000]
    for e in rng.sample(S, 60 if not vf.THOROUGH else len(S)):     # other formats, debug information and listings
        for o in rng.sample(fuzz.FORMATS, 1 if not vf.THOROUGH else 5):
            jobs.append(("cross", rng.choice(["asan", "msan"]), o + rng.choice(fuzz.EXTRA) + rng.choice([[], ["-Fl", "-Sg", "-Sa"]]), e.src, files(e)))
    H = list(hostile.programs())
    # every generator at every run; a rotating part of its values and options
    by = {}
    for h in H: by.setdefault(h[0], []).append(h)
    for name, hs in sorted(by.items()):
        for h in (hs if vf.THOROUGH else rng.sample(hs, min(len(hs), max(14, len(hs) // 4)))):
            jobs.append(("limits", "asan" if rng.random() < .75 else "msan", h[2], h[3].encode("latin1"), {}))
            if rng.random() < .5 or vf.THOROUGH: jobs.append(("limits", "fort", h[2] + rng.choice([[], ["-Fl", "-Sg", "-Sa"]]), h[3].encode("latin1"), {}))
            C.seen("limit_kinds", name)
    n = {False: (3000, 900), True: (60000, 20000)}[vf.THOROUGH]
    for v, k in zip(("asan", "msan", "fort"), n + (n[1],)):
        for i in range(k):
            jobs.append(("mutant", v, None, i, None))
    def job(a):
        kind, var, opts, src, fl = a
        if kind == "mutant":
            r = random.Random("C23/%d/%s/%d" % (vf.SEED, var, src)); e = r.choice(S); o = r.choice(S)
            opts = list(e.opts if r.random() < .6 else r.choice(fuzz.FORMATS)) + [x for _ in range(r.choice([0, 0, 1, 2])) for x in r.choice(fuzz.EXTRA)]
            fl = {k: v for k, v in files(e).items() if len(v) < 200000}; src = fuzz.mutate(r, e.src, o.src)
        may = bool(ENDL.search(src)) and kind == "mutant" or bool(BIG.search(src)) and kind == "mutant"
        r = vf.run(EXE[var], ["-q"] + list(opts) + ["-Fo", "o.out", "t.asm"], {"t.asm": src, **(fl or {})}, timeout=10 if may else 60, read=False)
        return kind, var, opts, src, r, may
    for kind, var, opts, src, r, may in vf.pmap(job, jobs):
        t = r.text()
        if r.timeout and may:       # loops (and huge fills) may legitimately go on without bound
            C.count("unbounded_programs"); continue
        C.case(hash((var, tuple(opts), src)), sample=src[:200].decode("latin1")); C.count("runs_%s_%s" % (kind, var)); C.seen("formats", opts[0] if opts else "")
        C.count("assembled" if r.rc == 0 else "rejected" if r.rc == 1 else "other")
        if r.rc in (0, 1) and not BAD.search(t) and not r.timeout: continue
        if "hard rss limit" in t or "requested allocation size" in t and "SUMMARY" not in t: C.count("memory_limit"); continue
        if r.timeout: key = "hang:%s" % kind; msg = "no end within 60 s"
        else:
            m = re.search(r"(?:ERROR: AddressSanitizer: |runtime error: |WARNING: MemorySanitizer: )([\w-]+)", t); fr = [x for x in RX.findall(t)]
            key = "%s@%s" % (m[1] if m else "rc%s" % r.rc, fr[0][0] if fr else "?"); i = max(0, t.find(m[0]) if m else len(t) - 800); msg = "exit code %s; %s" % (r.rc, t[i:i + 1200])
        C.violation(key, msg, {"t.asm": src}, [var, "-q"] + list(opts) + ["-Fo", "o.out", "t.asm"])
    return C.finish(2000)
if __name__ == "__main__": vf.main(check)
