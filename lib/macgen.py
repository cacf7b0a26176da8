"""Random macro programs together with what they denote.

A program is a tree (macros, functions, loops, conditionals, data lines); it
is rendered to MASM source and, independently of any text substitution
engine, evaluated to the bytes it must assemble to."""
import re
class Ret(Exception): pass
class Skip(Exception):
    def __init__(s, to): s.to = to
TXT = "abcdefghijklmnoprstuvwxyzABCDEFGHIJKLMNOPRSTUVWXYZ0123456789_.+-*/=[]?@$: "
LIT = TXT + "(),;#|~^{}"

class Gen:
    def __init__(s, rng, big=False):
        s.rng = rng; s.n = 0; s.macros = []; s.funcs = []; s.out = []; s.vars = {}; s.exp = bytearray(); s.depth = 0; s.marks = []; s.used = set(); s.big = big; s.work = 0
        s.gvars = []
    def name(s, p=""):
        s.n += 1
        # names that are prefixes of each other
        return s.rng.choice(["%sq%d", "q%s_%d", "%sQ_q%d", "_q%sx%d"]) % (p, s.n)
    def kw(s, k): 
        alt = {"for": ["for", "irp"], "forc": ["forc", "irpc"], "repeat": ["repeat", "rept"]}.get(k, [k])
        k = s.rng.choice(alt); return s.rng.choice([k, k.upper(), k.capitalize()])
    # ---------------------------------------------------------------- texts
    def text(s, chars=LIT, lo=0, hi=12):
        rng = s.rng; n = rng.randrange(lo, hi)
        if rng.random() < .04: n = rng.randrange(30, 90)
        return "".join(rng.choice(chars) for _ in range(n))
    def lit(s, t):
        """<...> spelling of text t"""
        o = ""; 
        for c in t:
            if c in "<>!": o += "!" + c
            elif c in ",;" and s.rng.random() < .2: o += "!" + c
            else: o += c
        return "<" + o + ">"
    def num(s): 
        r = s.rng; v = r.choice([0, 1, 2, 3, 5, 7, 10, 31, 64, 100, 127, 200, 255])
        return r.choice(["%d" % v, "0%xh" % v, "%d" % v])
    @staticmethod
    def val(t, ns):
        t = re.sub(r"\b0([0-9a-f]+)h\b", lambda m: str(int(m.group(1), 16)), t)
        v = eval(t, {"__builtins__": {}}, ns)
        if abs(v) >= 1 << 60: raise TooBig()
        return v

# nodes -------------------------------------------------------------------
# env: dict param -> text ; kinds: dict param -> "t" text, "n" numeric text, "v" vararg list
class B:
    """a block under construction/evaluation"""

def gen_block(g, kinds, depth, size, inmac, fnbody=False):
    rng = g.rng; L = []
    for _ in range(size):
        k = rng.random()
        ts = [p for p, q in kinds.items() if q == "t"]; ns = [p for p, q in kinds.items() if q == "n"]; vs = [p for p, q in kinds.items() if q == "v"]
        qs = [p for p, q in kinds.items() if q in "tT"]
        if k < .34 or depth <= 0:
            pcs = []
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                r = rng.random()
                if r < .45 and qs: pcs.append(("s", [rng.choice(["", g.text(TXT, 0, 5), "."]) if i % 2 == 0 else rng.choice(qs) for i in range(rng.choice([3, 3, 5]))]))
                elif r < .53 and ts and not fnbody: pcs.append(("z", [g.text("abz01 .+-'\"<>!", 0, 5) if i % 2 == 0 else rng.choice(ts) for i in range(rng.choice([1, 3, 3, 5]))], [rng.random() < .6 for i in range(5)]))
                elif r < .6 and g.funcs and not fnbody: pcs.append(gen_fcall(g, kinds, 2))
                elif r < .65 and vs: pcs.append(("va", rng.choice(vs)))
                else: pcs.append(("n", gen_num(g, ns)))
            L.append(("db", pcs))
        elif k < .42 and ts + vs:
            p = rng.choice(ts + vs); op = rng.choice(["ifb", "ifnb", "ifidn", "ifdif", "ifidni", "ifdifi"])
            other = None
            if op not in ("ifb", "ifnb"): other = rng.choice([("l", g.text(TXT.replace("@","").replace("?",""), 1, 3)), ("p", rng.choice(ts))]) if ts else ("l", "x")
            if op not in ("ifb", "ifnb") and p in vs: op = "ifnb"
            L.append(("if", (op, p, other), gen_block(g, kinds, depth - 1, rng.randrange(1, 3), bool(inmac), fnbody), gen_block(g, kinds, depth - 1, rng.randrange(0, 3), bool(inmac), fnbody)))
        elif k < .5:
            L.append(("if", ("if", gen_num(g, ns), rng.choice(["eq", "ne", "lt", "le", "gt", "ge"]), gen_num(g, ns)), gen_block(g, kinds, depth - 1, rng.randrange(1, 3), bool(inmac), fnbody), gen_block(g, kinds, depth - 1, rng.randrange(0, 3), bool(inmac), fnbody)))
        elif k < .58:
            n = rng.choice([0, 1, 2, 3, 4]); L.append(("rep", str(n), gen_block(g, kinds, depth - 1, rng.randrange(1, 3), inmac or True, fnbody)))
        elif k < .68:
            v = g.name("v"); 
            if vs and rng.random() < .5: L.append(("for", v, "n", ("v", rng.choice(vs)), gen_block(g, dict(kinds, **{v: "n"}), depth - 1, rng.randrange(1, 3), True, fnbody)))
            else:
                kd = rng.choice("tn"); items = [g.text(LIT, 1, 8).strip() or "z" if kd == "t" else g.num() for _ in range(rng.choice([1, 2, 3, 5, 9]))]
                L.append(("for", v, kd, ("l", items), gen_block(g, dict(kinds, **{v: kd}), depth - 1, rng.randrange(1, 3), True, fnbody)))
        elif k < .76:
            v = g.name("c")
            src = ("p", rng.choice(ts)) if ts and rng.random() < .5 else ("l", g.text("abcxyz0123456789.+-*/ ", 1, 6))
            L.append(("forc", v, src, gen_block(g, dict(kinds, **{v: "t"}), depth - 1, rng.randrange(1, 3), True, fnbody)))
        elif k < .8:
            c = g.name("w"); g.gvars.append(c)
            L.append(("while", c, rng.choice([0, 1, 2, 3]), gen_block(g, kinds, depth - 1, rng.randrange(1, 3), True, fnbody)))
        elif k < .85:
            if g.gvars and rng.random() < .6: c = rng.choice(g.gvars[-3:])
            else: c = g.name("k"); g.gvars.append(c); L.append(("set0", c, "%d" % rng.randrange(50)))
            if any(c == x[1] for x in L if x[0] == "set0"): L.append(("set", c, gen_num(g, ns + [c])))
        elif k < .95 and g.macros and not fnbody:
            L.append(gen_call(g, kinds, rng.choice(g.macros[-6:])))
        elif k < .97 and inmac and not fnbody:
            L.append(("if", ("if", gen_num(g, ns), "gt", gen_num(g, ns)), [("exitm",)], []))
        elif inmac == "mac" and L and not fnbody:
            lab = g.name("g"); L.append(("goto", lab, ("if", gen_num(g, ns), rng.choice(["lt", "ge"]), gen_num(g, ns)), gen_block(g, kinds, 0, rng.randrange(1, 3), inmac, fnbody)))
    return L

def gen_num(g, ns):
    rng = g.rng; o = []
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        o.append(rng.choice(ns) if ns and rng.random() < .6 else g.num())
        o.append(rng.choice("+-*"))
    return o[:-1]            # alternating refs/number texts and operators
def gen_arg(g, kinds, kd):
    """(kind, payload) describing an argument for a parameter of kind kd"""
    rng = g.rng
    ts = [p for p, q in kinds.items() if q == "t"]; ns = [p for p, q in kinds.items() if q == "n"]
    if kd == "n":
        r = rng.random()
        if r < .3 and ns: return ("ref", rng.choice(ns))
        if r < .5: return ("pct", gen_num(g, ns))
        return ("raw", "".join(gen_num(g, [])))
    r = rng.random()
    if r < .35 and ts: return ("litref", rng.choice([g.text(TXT.replace(" ",""), 0, 3)]), rng.choice(ts), rng.choice(["", "w"]))
    if r < .7: return ("lit", g.text(LIT + "<>!" * (kd == "T"), 0, 10))
    t = g.text("abcdxyzABC0123456789_.+-* ", 1, 8).strip()
    return ("raw", t or "zz")
def gen_fcall(g, kinds, d):
    f = g.rng.choice(g.funcs[-4:]); ns = [p for p, q in kinds.items() if q == "n"]; a = []
    for p, q, df in f["params"]:
        if d and g.rng.random() < .25 and len(g.funcs) > 0: a.append(gen_fcall(g, kinds, d - 1))
        else: a.append(("n", gen_num(g, ns)))
    return ("f", f, a)
def gen_call(g, kinds, m):
    rng = g.rng; a = []
    for p, kd, mod in m["params"]:
        if mod == "vararg":
            vs = [x for x, q in kinds.items() if q == "v"]
            if vs and rng.random() < .5: a.append(("vref", rng.choice(vs)))
            else: a.append(("va", [g.num() for _ in range(rng.choice([1, 1, 2, 3, 6, 12]))]))
        elif mod != "req" and rng.random() < .2 and (mod is not None or kd in "tT"): a.append(("none",))
        else: a.append(gen_arg(g, kinds, kd))
    return ("call", m, a)

def gen_macro(g):
    rng = g.rng; ps = []; kinds = {}
    for i in range(rng.choice([0, 1, 2, 3, 4, 4, 8, 15])):
        p = g.name("p"); kd = rng.choice("tnT"); mod = rng.choice([None, None, "req", ("def", g.num() if kd == "n" else g.text(TXT, 1, 8).strip() or "d")])
        if kd == "n" and mod is None: mod = "req"
        ps.append((p, kd, mod)); kinds[p] = kd
    if rng.random() < .35: p = g.name("p"); ps.append((p, "v", "vararg")); kinds[p] = "v"
    m = {"name": g.name("m"), "params": ps, "locals": [g.name("l") for _ in range(rng.choice([0, 0, 1, 2, 5]))]}
    m["body"] = [("deflocal", l, rng.randrange(100)) for l in m["locals"] if l] + gen_block(g, kinds, 3, rng.choice([1, 2, 4, 6]), "mac")
    m["body"] += [("uselocal", l) for l in m["locals"]]
    return m
def gen_func(g):
    rng = g.rng; ps = [(g.name("a"), "n", "req") for _ in range(rng.choice([1, 2, 3]))]; ns = [p[0] for p in ps]
    f = {"name": g.name("f"), "params": ps, "cond": (gen_num(g, ns), rng.choice(["lt", "gt", "eq"]), gen_num(g, ns)), "r1": gen_num(g, ns), "r2": gen_num(g, ns), "pct": rng.random() < .5}
    f["rec"] = rng.random() < .25 and len(ps) >= 1
    return f

# ------------------------------------------------------------------ render
def rnum(x): return "".join(x)
def rarg(g, a):
    k = a[0]
    if k == "ref": return a[1]
    if k == "pct": return "%" + g.rng.choice(["(%s)" % rnum(a[1]), "(%s)" % rnum(a[1])])
    if k == "raw": return a[1]
    if k == "lit": return g.lit(a[1])
    if k == "litref": return "<%s&%s&%s>" % (a[1], a[2], a[3])
    if k == "none": return ""
    if k == "va": return ",".join(a[1])
    if k == "vref": return a[1]
def rpiece(g, p):
    if p[0] == "s":
        q = g.rng.choice("\"'"); return q + "".join(("&%s&" % x) if i % 2 else x for i, x in enumerate(p[1])) + q
    if p[0] == "n": return "(%s) and 255" % rnum(p[1])
    if p[0] == "z":   # a literal with escapes; a parameter stands alone or with &
        o = ""
        for i, x in enumerate(p[1]):
            if i % 2: o += (" %s " if p[2][i] else "&%s&") % x
            else: o += "".join("!" + c if c in "<>!'\"" else c for c in x)
        return "@SizeStr(<%s>)" % o
    if p[0] == "va": return p[1]
    if p[0] == "f": return "(%s) and 255" % rcall(g, p)
def rcall(g, p): 
    return "%s(%s)" % (p[1]["name"], g.rng.choice([",", ", "]).join(rcall(g, a) if a[0] == "f" else rnum(a[1]) for a in p[2]))
def rcond(g, c):
    if c[0] == "if": return "%s (%s) %s (%s)" % (g.kw("if"), rnum(c[1]), c[2], rnum(c[3]))
    if c[0] in ("ifb", "ifnb"): return "%s <%s>" % (g.kw(c[0]), c[1])
    o = c[2][1] if c[2][0] == "l" else c[2][1]
    return "%s <%s>,<%s>" % (g.kw(c[0]), c[1], o)
def render(g, body, o, ind=0):
    rng = g.rng
    def put(t): o.append(rng.choice(["", " ", "\t", "  "]) * min(ind, 4) + t + rng.choice(["", "", "", " ", " ;; cmt", " ; it's"] if ind else ["", " ", " ; c"]))
    for b in body:
        if b[0] == "db": put(" db " + ", ".join(rpiece(g, p) for p in b[1]))
        elif b[0] == "if":
            put(rcond(g, b[1])); render(g, b[2], o, ind + 1)
            if b[3]: put(g.kw("else")); render(g, b[3], o, ind + 1)
            put(g.kw("endif"))
        elif b[0] == "rep": put("%s %s" % (g.kw("repeat"), b[1])); render(g, b[2], o, ind + 1); put(g.kw("endm"))
        elif b[0] == "for":
            put("%s %s, <%s>" % (g.kw("for"), b[1], b[3][1] if b[3][0] == "v" else rng.choice([",", ", "]).join((g.lit(x) if b[2] == "t" else x) for x in b[3][1]))); render(g, b[4], o, ind + 1); put(g.kw("endm"))
        elif b[0] == "forc": put("%s %s, <%s>" % (g.kw("forc"), b[1], b[2][1])); render(g, b[3], o, ind + 1); put(g.kw("endm"))
        elif b[0] == "while":
            put("%s = 0" % b[1]); put("%s %s lt %d" % (g.kw("while"), b[1], b[2])); put("%s = %s + 1" % (b[1], b[1])); render(g, b[3], o, ind + 1); put(g.kw("endm"))
        elif b[0] == "set0": put("%s = %s" % (b[1], b[2]))
        elif b[0] == "set": put("%s = (%s) and 255" % (b[1], rnum(b[2])))
        elif b[0] == "deflocal": put("%s = %d" % (b[1], b[2]))
        elif b[0] == "uselocal": put(" db %s" % b[1]); put("%s = %s + 1" % (b[1], b[1]))
        elif b[0] == "call": put(" %s %s" % (b[1]["name"], rng.choice([",", ", ", " , "]).join(rarg(g, a) for a in b[2])) if b[2] else " " + b[1]["name"])
        elif b[0] == "exitm": put(g.kw("exitm"))
        elif b[0] == "goto":
            put(rcond(g, b[2])); put("goto " + b[1]); put(g.kw("endif")); render(g, b[3], o, ind + 1); o.append(":" + b[1])
def render_macro(g, m, o):
    ps = []
    for p, kd, mod in m["params"]:
        ps.append(p + ("" if mod is None else ":" + g.kw("req") if mod == "req" else ":" + g.kw("vararg") if mod == "vararg" else ":=" + g.lit(mod[1])))
    o.append("%s %s %s" % (m["name"], g.kw("macro"), g.rng.choice([",", ", "]).join(ps)))
    if m["locals"]: o.append("%s %s" % (g.kw("local"), ", ".join(m["locals"])))
    render(g, m["body"], o, 1); o.append(g.kw("endm"))
def render_func(g, f, o):
    o.append("%s %s %s" % (f["name"], g.kw("macro"), ", ".join(p + ":req" for p, _, _ in f["params"])))
    e = lambda x: ("exitm %%(%s)" if f["pct"] else "exitm <(%s)>") % rnum(x)
    c = f["cond"]
    if f["rec"]:
        p0 = f["params"][0][0]
        o.append("if (%s) gt 3 and (%s) lt 16" % (p0, p0)); o.append("exitm %%(%s(%s) + 1)" % (f["name"], ",".join(["%s-1" % p0] + [p for p, _, _ in f["params"][1:]]))); o.append("endif")
    o.append("if (%s) %s (%s)" % (rnum(c[0]), c[1], rnum(c[2]))); o.append(e(f["r1"])); o.append("endif"); o.append(e(f["r2"])); o.append("endm")

# ---------------------------------------------------------------- evaluate
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
class TooBig(Exception): pass
def num(g, x, env):
    t = "".join(env.get(y, y) for y in x)
    return g.val(t, g.vars)
def sgn(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v
def cond(g, c, env):
    if c[0] == "if": return CMP[c[2]](num(g, c[1], env), num(g, c[3], env))
    t = env[c[1]]
    if isinstance(t, list): t = ",".join(t)
    if c[0] == "ifb": return not t.strip()
    if c[0] == "ifnb": return bool(t.strip())
    o = env[c[2][1]] if c[2][0] == "p" else c[2][1]
    if c[0].endswith("i"): t = t.upper(); o = o.upper()
    return (t == o) == c[0].startswith("ifidn")
def fval(g, p, env):
    f = p[1]; e = {}
    for (nm, _, _), a in zip(f["params"], p[2]): e[nm] = fval(g, a, env) if a[0] == "f" else "".join(env.get(y, y) for y in a[1])
    return fbody(g, f, e)
def fbody(g, f, e, d=0):
    g.work += 1
    if g.work > 6000: raise TooBig()
    c = f["cond"]
    if f["rec"]:
        p0 = f["params"][0][0]; v = g.val("(%s)" % e[p0], g.vars)
        if 3 < v < 16:
            e2 = dict(e); e2[p0] = e[p0] + "-1"; r = fbody(g, f, e2, d + 1); return "%d" % (g.val("%s+1" % r, g.vars) & 0xffffffff)
    r = f["r1"] if CMP[c[1]](num(g, c[0], e), num(g, c[2], e)) else f["r2"]
    t = "".join(e.get(y, y) for y in r)
    return str(g.val(t, g.vars) & 0xffffffff) if f["pct"] else "(%s)" % t
def ev(g, body, env, loc=None):
    for b in body:
        g.work += 1
        if g.work > 6000: raise TooBig()
        k = b[0]; g.used.add(k)
        if k == "db":
            at = len(g.exp)
            for p in b[1]:
                if p[0] == "s":
                    t = "".join(env[x] if i % 2 else x for i, x in enumerate(p[1]))
                    if not t: raise TooBig()
                    if len(t) > 200: raise TooBig()
                    g.exp += t.encode("latin1")
                elif p[0] == "z":
                    t = "".join(env[x] if i % 2 else x for i, x in enumerate(p[1])); t = len(t)
                    g.exp.append((t + sum(2 for i in range(1, len(p[1]), 2) if p[2][i])) & 255); g.used.add("literal")
                elif p[0] == "n": g.exp.append(num(g, p[1], env) & 255)
                elif p[0] == "va":
                    if not env[p[1]]: raise TooBig()
                    g.exp += bytes(g.val(x, g.vars) & 255 for x in env[p[1]])
                else: g.exp.append(g.val(fval(g, p, env), g.vars) & 255); g.used.add("func")
            g.marks.append((at, str(b)[:1600]))
        elif k == "if": ev(g, b[2] if cond(g, b[1], env) else b[3], env, loc); g.used.add(b[1][0])
        elif k == "rep":
            try:
                for _ in range(int(b[1])): ev(g, b[2], env, loc)
            except Ret: pass
        elif k == "for":
            items = env[b[3][1]] if b[3][0] == "v" else b[3][1]
            try:
                for it in items: ev(g, b[4], dict(env, **{b[1]: it}), loc)
            except Ret: pass
        elif k == "forc":
            t = env[b[2][1]] if b[2][0] == "p" else b[2][1]
            try:
                for c in t: ev(g, b[3], dict(env, **{b[1]: c}), loc)
            except Ret: pass
        elif k == "while":
            g.vars[b[1]] = 0
            try:
                while g.vars[b[1]] < b[2]: g.vars[b[1]] += 1; ev(g, b[3], env, loc)
            except Ret: pass
        elif k == "set0": g.vars[b[1]] = int(b[2])
        elif k == "set": g.vars[b[1]] = num(g, b[2], env) & 255
        elif k == "deflocal": loc[b[1]] = b[2]
        elif k == "uselocal": g.exp.append(loc[b[1]]); loc[b[1]] += 1
        elif k == "exitm": raise Ret()
        elif k == "goto":
            if not cond(g, b[2], env): ev(g, b[3], env, loc)
        elif k == "call":
            m = b[1]; e = {}
            g.depth += 1
            if g.depth > 15: raise TooBig()
            for (p, kd, mod), a in zip(m["params"], b[2]):
                if a[0] == "none": e[p] = mod[1] if isinstance(mod, tuple) else ([] if kd == "v" else "")
                elif a[0] == "ref": e[p] = env[a[1]]
                elif a[0] == "pct":
                    v = num(g, a[1], env)
                    if abs(v) >= 1 << 31: raise TooBig()
                    e[p] = str(v)
                elif a[0] == "raw": e[p] = a[1]
                elif a[0] == "lit": e[p] = a[1]
                elif a[0] == "litref": e[p] = a[1] + env[a[2]] + a[3]
                elif a[0] == "va": e[p] = list(a[1])
                elif a[0] == "vref": e[p] = list(env[a[1]])
                if kd == "n" and not e[p]: raise TooBig()
                if isinstance(e[p], str) and e[p] == "" and isinstance(mod, tuple): raise TooBig()
                if mod == "req" and isinstance(e[p], str) and not e[p].strip(): raise TooBig()
            try: ev(g, m["body"], e, {})
            except Ret: pass
            g.depth -= 1

def program(rng, size):
    """(source lines, expected bytes, marks, constructs used)"""
    g = Gen(rng); o = []
    for _ in range(size):
        k = rng.random()
        save = (bytes(g.exp), dict(g.vars), len(o), list(g.marks), g.n, list(g.gvars)); g.work = 0; g.depth = 0
        if k < .25: f = gen_func(g); g.funcs.append(f); render_func(g, f, o); continue
        if k < .55 or not g.macros: m = gen_macro(g); g.macros.append(m); render_macro(g, m, o); continue
        b = [gen_call(g, {}, rng.choice(g.macros[-5:]))] if k < .85 else gen_block(g, {}, 2, 1, False)
        try: ev(g, b, {}, {}); render(g, b, o)
        except (TooBig, Ret, KeyError, NameError): g.exp = bytearray(save[0]); g.vars = save[1]; del o[save[2]:]; g.marks = save[3]
    return o, bytes(g.exp), g.marks, g.used

# ------------------------------------------------------- fixed-shape families
def templates(rng):
    """yield (family, lines, bytes): constructs the tree above does not have"""
    u = [0]
    def n(p="z"): u[0] += 1; return "%s%s%d" % (p, rng.choice("KXW_"), u[0] + 1000 * rng.randrange(9))
    r8 = lambda: rng.randrange(256)
    W = lambda lo=1, hi=8: "".join(rng.choice("abcdefghijkACE0123456789_") for _ in range(rng.randrange(lo, hi)))
    R = []
    def add(k, L, b): R.append((k, L, bytes(b)))
    # definitions that define macros, the inner body using parameters of both
    mk, nm, v, x, y = n("mk"), n("nm"), n("v"), n("x"), n("y")
    L = ["%s macro %s, %s" % (mk, nm, v), "%s macro %s, %s:=<%d>" % (nm, x, y, 9), " db %s, %s, %s, \"&%s&|&%s&\"" % (v, x, y, v, x), "endm", "endm"]; b = b""
    for _ in range(rng.randrange(1, 5)):
        f = n("in"); a, c = r8(), r8(); L.append(" %s %s, %d" % (mk, f, a)); L.append(" %s %d" % (f, c)); b += bytes([a, c, 9]) + b"%d|%d" % (a, c)
        if rng.random() < .5: d = r8(); L.append(" %s %d, %d" % (f, c, d)); b += bytes([a, c, d]) + b"%d|%d" % (a, c)
    add("nested-definition", L, b)
    # identifiers built with &
    m, p, q = n("m"), n("p"), n("q"); L = ["%s macro %s, %s" % (m, p, q), "pre&%s&_&%s = %s" % (p, q, "tail_&%s" % q), " db pre&%s&_&%s, tail_&%s&" % (p, q, q), "endm"]; b = b""
    for _ in range(rng.randrange(1, 6)):
        a, c, k = n("a"), n("c"), r8(); L += ["tail_%s = %d" % (c, k), " %s %s, %s" % (m, a, c), " db pre%s_%s" % (a, c)]; b += bytes([k] * 3)
    add("concatenation", L, b)
    # quoted text: only names next to & are replaced; whole names only
    m, p = n("m"), n("p"); q = p + "x"; t1, t2 = W(), W()
    add("quoted", ["%s macro %s, %s" % (m, p, q), " db '%s', \"%s %s\", \"&%s\", '&%s&%s', \"&%s&%s\", 'a&%s&b&%s&'" % (p, q, p, p, q, q, p, q, q, p), " db \"x%s&%s\"" % (q, p), "%s1 = 5" % p, " db %s1" % p, "endm", " %s %s, %s" % (m, t1, t2)],
        (p + q + " " + p + t1 + t2 + q + t1 + q + "a" + t2 + "b" + t1 + "x" + t2 + t1).encode() + b"\5") if 0 else None
    add("quoted", ["%s macro %s, %s" % (m, p, q), " db '%s', \"%s %s\", \"&%s\", '&%s& %s', 'a&%s&b&%s&'" % (p, q, p, p, q, q, q, p), "%s1 = 5" % p, " db %s1" % p, "endm", " %s %s, %s" % (m, t1, t2)],
        (p + q + " " + p + t1 + t2 + " " + q + "a" + t2 + "b" + t1).encode() + b"\5")
    # an argument that spells another parameter's name is not replaced again
    m, p, q = n("m"), n("p"), n("q"); add("no-rescan", ["%s macro %s, %s" % (m, p, q), " db \"&%s&,&%s&\"" % (p, q), "endm", " %s %s, %s" % (m, q, p), " %s <%s %s>, <%s>" % (m, q, p, p)], ("%s,%s%s %s,%s" % (q, p, q, p, p)).encode())
    # recursion of statement macros
    m, p = n("m"), n("p"); d = rng.choice([1, 2, 5, 12, 18]); add("recursion", ["%s macro %s" % (m, p), "if %s gt 0" % p, " db %s" % p, " %s %%(%s-1)" % (m, p), " db 100+%s" % p, "endif", "endm", " %s %d" % (m, d)], list(range(d, 0, -1)) + [100 + i for i in range(1, d + 1)])
    # redefinition and PURGE
    m, p = n("m"), n("p"); a = [r8() for _ in range(4)]; L = []; b = []
    for i, k in enumerate(a):
        L += ["%s macro %s" % (m, p), " db %d" % k] + [" db %s" % p] * i + ["endm", " %s %d" % (m, i)]; b += [k] + [i] * i
        if rng.random() < .4: L.append("purge " + m)
    add("redefinition", L, b)
    # LOCAL names are unique per expansion
    m, l1, l2 = n("m"), n("l"), n("l"); cnt = rng.choice([3, 17, 40, 257, 300]); at = n("at")
    L = ["%s label byte" % at, "%s macro" % m, "local %s, %s" % (l1, l2), "%s db 1" % l1, "%s dd %s-%s, %s-%s" % (l2, l1, at, l2, at), "endm", "repeat %d" % cnt, " " + m, "endm"]; b = b""
    for i in range(cnt): b += b"\1" + (9 * i).to_bytes(4, "little") + (9 * i + 1).to_bytes(4, "little")
    add("local", L, b)
    # LOCAL in recursion and nested calls
    m, p, l = n("m"), n("p"), n("l"); d = rng.randrange(2, 9); add("local-recursion", ["%s macro %s" % (m, p), "local %s" % l, "%s = %s*3" % (l, p), "if %s lt %d" % (p, d), " %s %%(%s+1)" % (m, p), "endif", " db %s" % l, "endm", " %s 0" % m], [i * 3 & 255 for i in range(d, -1, -1)])
    # VARARG: counting, splitting off the head, passing on
    m, h, t, o = n("m"), n("h"), n("t"), n("o"); a = [r8() for _ in range(rng.choice([1, 2, 3, 10, 30]))]
    add("vararg", ["%s macro %s, %s:vararg" % (m, h, t), " db %s" % h, "ifnb <%s>" % t, " %s %s" % (m, t), "endif", "endm", " %s %s" % (m, ", ".join(map(str, a[:18])))], a[:18])
    c = n("c"); add("vararg-count", ["%s macro %s:vararg" % (o, t), "%s = 0" % c, "for %s,<%s>" % (h, t), "%s = %s+1" % (c, c), "endm", "exitm %%%s" % c, "endm", " db %s(%s), %s(7)" % (o, ",".join(map(str, a)), o)], [len(a), 1])
    # quoted arguments keep commas, brackets, semicolons
    m, p, q = n("m"), n("p"), n("q"); s1 = "".join(rng.choice("ab,;<>!%()& ") for _ in range(rng.randrange(1, 12))).replace("&", "").replace("%", "") or "k"; s2 = W()
    s1 = s1.replace("<", "").replace(">", "").replace("!", "") or ","
    add("quoted-argument", ["%s macro %s, %s" % (m, p, q), " db %s, %s" % (q, p), "endm", " %s \"%s\", '%s'" % (m, s1, s2), " %s '%s', 5" % (m, s1)], (s2 + s1).encode() + b"\5" + s1.encode())
    # %textmacro
    m, p, t = n("m"), n("p"), n("t"); s = W(); add("percent-text", ["%s textequ <%s>" % (t, s), "%s macro %s" % (m, p), " db \"&%s&\"" % p, "endm", " %s %%%s" % (m, t), " %s %s" % (m, t)], (s + t).encode())
    # FORC takes every character, with separators, blanks and escapes
    c = n("c"); s = "".join(rng.choice("ab ,;()[]{}+*x1") for _ in range(rng.randrange(1, 15))).strip() or "q"; add("forc-separators", ["forc %s,<%s>" % (c, s), " db \"&%s&\"" % c, "endm"], s.encode())
    s = "".join(rng.choice("a,;<>!b ") for _ in range(rng.randrange(1, 12))).strip() or "q"; e = "".join("!" + k if k in "<>!" else k for k in s); add("forc-escapes", ["forc %s,<%s>" % (c, e), " db \"&%s&\"" % c, "endm"], s.encode())
    # FOR over literals containing separators; REQ and default parameters
    x, o = n("x"), n("o"); items = ["".join(rng.choice("ab,; ()x") for _ in range(rng.randrange(1, 7))).strip() or "e" for _ in range(rng.randrange(1, 7))]
    add("for-literals", ["for %s:req,<%s>" % (x, ",".join("<%s>" % i for i in items)), " db \"[&%s&]\"" % x, "endm"], "".join("[%s]" % i for i in items).encode())
    items = [W(0, 4) for _ in range(rng.randrange(2, 7))]; items[-1] = items[-1] or "z"; d = W(); add("for-default", ["for %s:=<%s>,<%s>" % (x, d, ",".join(items)), " db \"&%s&.\"" % x, "endm"], "".join((i or d) + "." for i in items).encode())
    # blank items; a comma followed by blanks ends in one more blank item
    x = n("x"); items = [W(0, 4) for _ in range(rng.randrange(2, 7))]; items[-1] = items[-1] or "z"; s = rng.choice(["", ", ", ",  "]); add("for-blank", ["for %s,<%s%s>" % (x, ",".join(items), s), " db \"[&%s&]\"" % x, "endm"], "".join("[%s]" % i for i in items + ([""] if s else [])).encode())
    # nested loops over the same source, EXITM leaving one level
    x, y, c = n("x"), n("y"), n("c"); A = [rng.randrange(1, 50) for _ in range(rng.randrange(1, 6))]; Bs = [rng.randrange(1, 50) for _ in range(rng.randrange(1, 6))]; b = []
    for i in A:
        for j in Bs:
            if j > i: break
            b.append(i * j & 255)
        b.append(i)
    add("exitm-level", ["for %s,<%s>" % (x, ",".join(map(str, A))), "for %s,<%s>" % (y, ",".join(map(str, Bs))), "if %s gt %s" % (y, x), "exitm", "endif", " db %s*%s and 255" % (x, y), "endm", " db %s" % x, "endm"], b)
    b = []
    k = rng.randrange(1, 60); m, p = n("m"), n("p")
    for i in A:
        b.append(i)
        if i > k: break
    add("exitm-if", ["%s macro" % m, "for %s,<%s>" % (x, ",".join(map(str, A))), " db %s" % x, "if %s gt %d" % (x, k), "if 1", "exitm", "endif", "endif", "endm", " db 77", "exitm", " db 78", "endm", " " + m], b + [77])
    # macro functions wherever a number or text may be
    f, p, q = n("f"), n("p"), n("q"); a, c = rng.randrange(1, 30), rng.randrange(1, 30)
    add("function-places", ["%s macro %s, %s:=<3>" % (f, p, q), "exitm <%s+%s>" % (p, q), "endm", " db %s(%d), 2*%s(%d,%d), (%s(1)) dup (%s(2,5))" % (f, a, f, a, c, f, f), "%s = %s(%s(1,2),%d)" % (q, f, f, a), " db %s" % q, "if %s(%d) eq %d" % (f, a, a + 3), " db 1", "else", " db 2", "endif",
        "repeat %s(0,2)" % f, " db 3", "endm", " mov al,%s(%d,%d)" % (f, a, c)], [a + 3, 2 * a + c, 7, 7, 7, 7, 3 + a, 1, 3, 3, 0xb0, a + c])
    f = n("f"); t = n("t"); s = W(); add("function-text", ["%s macro" % f, "exitm <%s>" % s, "endm", "%s textequ %s()" % (t, f), "%% db \"&%s&\"" % t, "%s catstr <x>,%s(),<y>" % (t, f), "%% db '&%s&'" % t], (s + "x" + s + "y").encode())
    # WHILE / REPEAT with larger counts and expressions
    c = n("c"); k = rng.choice([1, 100, 255, 1000]); st = rng.choice([1, 2, 3, 7]); b = []; i = 0
    while i < k: b.append(i & 255); i += st
    add("while", ["%s = 0" % c, "while %s lt %d" % (c, k), " db %s and 255" % c, "%s = %s+%d" % (c, c, st), "endm"], b)
    k = rng.choice([0, 1, 2, 500, 1500]); add("repeat", ["%s = %d" % (c, k), "repeat %s*2-%s" % (c, c), " db 5", "endm", " db 6"], [5] * k + [6])
    # GOTO backwards
    m, c, l = n("m"), n("c"), n("l"); k = rng.randrange(1, 30); add("goto-loop", ["%s macro" % m, "%s = 0" % c, ":%s" % l, " db %s" % c, "%s = %s+1" % (c, c), "if %s lt %d" % (c, k), "goto %s" % l, "endif", " db 200", "endm", " " + m, " " + m], (list(range(k)) + [200]) * 2)
    # comments in macros
    m, p = n("m"), n("p"); s = W(); add("comments", ["%s macro %s ; it's a comment" % (m, p), " ;; \"unbalanced <", "; %s &%s& ' < >" % (p, p), " db \"&%s&\" ;; %s" % (p, p), " db ';', \";;\" ; x", "comment ~ macro if", "else ~", "endm", " %s %s ; , <" % (m, s)], s.encode() + b";;;")
    # many parameters
    k = rng.choice([16, 40]); ps = [n("p") for _ in range(k)]; vs = [r8() for _ in range(k)]; m = n("m"); o = list(range(k)); rng.shuffle(o)
    add("many-parameters", ["%s macro %s" % (m, ",".join(ps))] + [" db %s" % ps[i] for i in o] + ["endm", " %s %s" % (m, ",".join(map(str, vs)))], [vs[i] for i in o])
    return R
