"""Common machinery of all checks: native builds of /repo, running them,
verdicts (held / violated / inconclusive), known findings and evidence."""
import atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
THOROUGH = TIER == "thorough"
SHIM = os.path.join(VERIF, "native", "shim")
BUILD = os.path.join(VERIF, "build")

# never let the caller's environment reach the assembler
for _v in ("UASM", "JWASM", "ASM", "INCLUDE", "ASAN_OPTIONS", "UBSAN_OPTIONS"):
    os.environ.pop(_v, None)
os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:detect_odr_violation=0:allocator_may_return_null=1"
os.environ["MSAN_OPTIONS"] = "exitcode=99"
os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1"
os.environ["LC_ALL"] = "C"; os.environ["TZ"] = "UTC"

class HarnessError(Exception):
    pass

_scratch = None
def scratch():
    """One scratch directory per process, removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="vf.", dir=base)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

_cnt = 0
_cntlock = threading.Lock()
def newdir():
    global _cnt
    with _cntlock:
        _cnt += 1; n = _cnt
    d = os.path.join(scratch(), "d%d" % n)
    os.mkdir(d)
    return d

# ---------------------------------------------------------------- builds
COMMON = ["-g", "-w", "-fcommon", "-std=gnu11", "-D__UNIX__", "-DNDEBUG", "-IH", "-isystem", SHIM,
          "-include", os.path.join(SHIM, "prelude.h")]
VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "plain": ("gcc", ["-O1"], []),
    # two compilers, with automatic variables that the program never set filled differently
    "detA": ("gcc", ["-O1", "-ftrivial-auto-var-init=pattern"], []),
    "detB": ("clang", ["-O2", "-ftrivial-auto-var-init=zero", "-Wno-implicit-function-declaration", "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types", "-Wno-return-type"], []),
    "uchar": ("gcc", ["-O2", "-funsigned-char"], []),
    "asan": ("gcc", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,integer-divide-by-zero,object-size,vla-bound,unreachable,return",
                     "-fno-common", "-DUASM_VERIF"], ["-fsanitize=address,undefined", "-Wl,-z,muldefs"]),
    # the C library's own bounds checks see overflows inside of an object, which the sanitizers do not
    "fort": ("gcc", ["-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all", "-DUASM_VERIF"], []),
    "msan": ("clang", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-sanitize-memory-param-retval", "-DUASM_VERIF",
                     "-Wno-implicit-function-declaration", "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types", "-Wno-return-type"],
             ["-fsanitize=memory"]),
}

def sources():
    """The program's own object list (gccmod.inc) plus main.c."""
    txt = open(os.path.join(REPO, "gccmod.inc")).read()
    names = re.findall(r"\$\(OUTD\)/(\w+)\.o", txt)
    srcs = ["main.c"] + [n + ".c" for n in names]
    return [s for s in dict.fromkeys(srcs) if os.path.exists(os.path.join(REPO, s))]

def _tree_hash():
    h = hashlib.sha256()
    for d in ("H",):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            p = os.path.join(REPO, d, f)
            if os.path.isfile(p):
                h.update(f.encode()); h.update(open(p, "rb").read())
    for f in sorted(os.listdir(SHIM)):
        h.update(open(os.path.join(SHIM, f), "rb").read())
    return h.hexdigest()

def build(variant="plain", extra_src=(), name="uasm"):
    """Builds /repo's working tree natively and returns the program's path.
    Objects are cached by content, so a changed file is always recompiled."""
    cc, cfl, lfl = VARIANTS[variant]
    hh = _tree_hash()
    odir = os.path.join(BUILD, "obj"); os.makedirs(odir, exist_ok=True)
    base = hashlib.sha256(repr((cc, cfl, COMMON, hh)).encode()).hexdigest()
    def one(src):
        path = os.path.join(REPO, src)
        fl = []
        if src == "dbgcv.c":
            fl = ["-funsigned-char", "-include", os.path.join(SHIM, "prelude_dbgcv.h")]
        key = hashlib.sha256((base + src + repr(fl)).encode() + open(path, "rb").read()).hexdigest()[:32]
        obj = os.path.join(odir, "%s-%s.o" % (src[:-2], key))
        if not os.path.exists(obj):
            tmp = "%s.%d.%d" % (obj, os.getpid(), threading.get_ident())
            p = subprocess.run([cc] + COMMON + fl + cfl + ["-c", src, "-o", tmp], cwd=REPO,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise HarnessError("compiling %s (%s) failed:\n%s" % (src, variant, p.stdout.decode("latin1")[-3000:]))
            os.replace(tmp, obj)
        return obj
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, sources()))
    shim = os.path.join(SHIM, "shim.c")
    key = hashlib.sha256(("|".join(objs) + repr((extra_src, lfl))).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, variant, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        p = subprocess.run([cc] + objs + [shim] + list(extra_src) + lfl + ["-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise HarnessError("linking (%s) failed:\n%s" % (variant, p.stdout.decode("latin1")[-3000:]))
        os.replace(tmp, exe)
    prune()
    return exe

def prune(limit=400 << 20):
    """Keep the build cache small: drop the oldest files beyond the limit."""
    ents = []
    for root, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(root, f)
            try:
                st = os.stat(p); ents.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    tot = sum(e[1] for e in ents)
    now = time.time()
    for m, s, p in sorted(ents):
        if tot <= limit or now - m < 3600:
            break
        try:
            os.unlink(p); tot -= s
        except OSError:
            pass

# ---------------------------------------------------------------- running
class Result:
    __slots__ = ("rc", "out", "files", "timeout", "dir", "cmd", "san", "kept")
    def ok(self): return self.rc == 0 and not self.timeout
    def crashed(self): return self.rc is not None and self.rc < 0 or b"A2169: General Failure" in re.sub(rb"\x1b\[[0-9;]*m", b"", self.out)
    def text(self): return re.sub(r"\x1b\[[0-9;]*m", "", self.out.decode("latin1"))
    def errors(self):
        """[(file, line, kind, code, text)] of the messages on stdout."""
        r = []
        for m in re.finditer(r"^\s*(.*?)\((\d+)\) : (Fatal error|Error|Warning) ([AF]\d+): (.*)$", self.text(), re.M):
            r.append((m[1], int(m[2]), m[3], m[4], m[5]))
        return r

def limits(mem=4 << 30, cpu=None, fsize=512 << 20):
    import resource
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
    return f

def run(exe, args, files=None, timeout=30, env=None, keep=False, cwd=None, read=True, mem=None, wrap=()):
    """Runs the assembler in a fresh directory holding `files` (name -> str or
    bytes); returns a Result with every file it left there."""
    r = Result()
    d = cwd or newdir()
    names = {}
    for n, c in (files or {}).items():
        p = os.path.join(d, n)
        if "/" in n: os.makedirs(os.path.dirname(p), exist_ok=True)
        names[n] = c.encode("latin1") if isinstance(c, str) else c
        with open(p, "wb") as f: f.write(names[n])
    e = dict(os.environ)
    if env: e.update(env)
    r.cmd = [os.path.basename(exe)] + list(args); r.dir = d; r.timeout = False; r.san = None
    try:
        p = subprocess.run(list(wrap) + [exe] + list(args), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=e,
                           preexec_fn=limits(mem) if mem else None)
        r.rc = p.returncode; r.out = p.stdout
    except subprocess.TimeoutExpired as x:
        r.rc = None; r.out = x.stdout or b""; r.timeout = True
    r.files = {}; r.kept = set()                       # new or changed files; unchanged input files
    if read:
        for root, _, fs in os.walk(d):
            for f in fs:
                rel = os.path.relpath(os.path.join(root, f), d)
                with open(os.path.join(root, f), "rb") as fh: c = fh.read()
                if names.get(rel) == c: r.kept.add(rel)
                else: r.files[rel] = c
    if not keep and not cwd:
        shutil.rmtree(d, ignore_errors=True)
    return r

def asm(exe, src, opts=("-q", "-bin"), out="t.bin", extra=None, timeout=30, name="t.asm", env=None, mem=None):
    files = {name: src}
    if extra: files.update(extra)
    return run(exe, list(opts) + ["-Fo", out, name], files, timeout=timeout, env=env, mem=mem)

def pmap(fn, items, jobs=None):
    items = list(items)
    if not items: return []
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))

# ---------------------------------------------------------------- verdicts
def load_known():
    r = []
    for p in ("known_findings.jsonl", "known_forms.jsonl"):
        p = os.path.join(VERIF, p)
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"): r.append(json.loads(line))
    return r

CURRENT = None
class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid = pid; self.level = level; self.rule = rule; self.assumptions = list(assumptions)
        self.t0 = time.time(); self.evals = 0; self.keys = set(); self.samples = []; self.viol = {}
        self.known_seen = {}; self.inconclusive = []; self.extra = {}
        self.known = [k for k in load_known() if k["property"] == pid and k.get("status", "known") == "known"]
        for k in self.known: k["rx"] = re.compile(k["key"])
        self.lock = threading.Lock(); global CURRENT; CURRENT = self
        self.rng = random.Random("%s/%d" % (pid, SEED))
    def case(self, key=None, sample=None, n=1):
        with self.lock:
            self.evals += n
            if key is not None: self.keys.add(key if isinstance(key, (str, int, tuple)) else str(key))
            if sample is not None and len(self.samples) < 6: self.samples.append(str(sample)[:600])
    def count(self, name, n=1):
        with self.lock: self.extra[name] = self.extra.get(name, 0) + n
    def seen(self, name, key):
        with self.lock: self.extra.setdefault(name, set()).add(key)
    def violation(self, key, msg, files=None, cmd=None):
        """key identifies the failure for known-findings matching."""
        with self.lock:
            for k in self.known:
                if k["rx"].fullmatch(key):
                    self.known_seen[k["key"]] = self.known_seen.get(k["key"], 0) + 1
                    return False
            if key in self.viol: return True
            self.viol[key] = msg
            n = len(self.viol)
        if n <= 20:
            d = os.path.join(VERIF, "replays", self.pid, re.sub(r"[^\w.-]", "_", key)[:80])
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d, exist_ok=True)
            for fn, c in (files or {}).items():
                p = os.path.join(d, fn); os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f: f.write(c.encode("latin1", "replace") if isinstance(c, str) else c)
            with open(os.path.join(d, "REPORT.txt"), "w") as f:
                f.write("property %s\nkey %s\nseed %d tier %s\n" % (self.pid, key, SEED, TIER))
                if cmd: f.write("cmd: %s\n" % cmd if isinstance(cmd, str) else " ".join(map(str, cmd)))
                f.write("\n%s\n" % msg)
            print("VIOLATION property=%s replay=%s" % (self.pid, d))
            print("  " + key + ": " + msg.replace("\n", "\n  ")[:1500], flush=True)
        return True
    def inconcl(self, what):
        with self.lock: self.inconclusive.append(what)
    def finish(self, min_nontrivial=1):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.pid, k["what"],
                  "" if k["key"] in self.known_seen else " (not exercised by this run)"))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.keys), "rule": self.rule,
               "samples": self.samples or ["(none)"]}
        for n, v in self.extra.items(): cov[n] = len(v) if isinstance(v, set) else v
        cov["inconclusive"] = len(self.inconclusive)
        if self.inconclusive: cov["inconclusive_samples"] = [str(x)[:300] for x in self.inconclusive[:5]]
        if self.known_seen: cov["known_findings_observed"] = self.known_seen
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s: %d evaluations, %d distinct non-trivial, %d inconclusive, %d violation(s), %.1fs" % (
            self.pid, self.evals, len(self.keys), len(self.inconclusive), len(self.viol), time.time() - self.t0))
        if self.viol: return 1
        if len(self.keys) < min_nontrivial:
            print("%s: only %d non-trivial observations (need %d): no verdict" % (self.pid, len(self.keys), min_nontrivial))
            return 3
        if len(self.inconclusive) > max(5, self.evals // 4):
            print("%s: too many inconclusive cases" % self.pid); return 3
        return 0

def main(fn):
    """Runs a check function; harness failures exit 2, never 0 or 1."""
    try:
        rc = fn()
        if rc not in (0, 1, 3): raise HarnessError("the check returned %r" % (rc,))
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e); rc = 2
    except (OSError, MemoryError, subprocess.SubprocessError):
        import traceback; traceback.print_exc(); rc = 2
    except Exception:
        # the monitor interprets every output of the unchanged tree; one it cannot interpret is malformed output
        import traceback; t = traceback.format_exc(); rc = 2
        if CURRENT is None: print(t)
        else:
            CURRENT.violation("uninterpretable", "the monitor could not interpret what was produced:\n" + t[-1200:]); rc = CURRENT.finish()
    sys.stdout.flush()
    sys.exit(rc)
