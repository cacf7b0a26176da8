"""Random constant expressions with their reference value (MASM operator
table, 64-bit wrapping arithmetic)."""
M64 = (1 << 64) - 1
def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v
def trunc_div(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q

# name: (precedence, arity)
BIN = {"*": 8, "/": 8, "MOD": 8, "SHL": 8, "SHR": 8, "+": 9, "-": 9,
       "EQ": 10, "NE": 10, "LT": 10, "LE": 10, "GT": 10, "GE": 10, "AND": 12, "OR": 13, "XOR": 13}
UN = {"HIGH": 6, "LOW": 6, "HIGHWORD": 6, "LOWWORD": 6, "HIGH32": 6, "LOW32": 6, "+u": 7, "-u": 7, "NOT": 11}
INTERESTING = [0, 1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 32767, 32768,
               65535, 65536, 65537, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x1ffffffff,
               0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffe, 0x123456789abcdef0]

class Skip(Exception):
    pass

def calc(op, a, b=None, bits=64):
    """a, b unsigned 64-bit; returns unsigned 64-bit or raises Skip where the
    reference value is not defined by the documentation."""
    if op == "+": return (a + b) & M64
    if op == "-": return (a - b) & M64
    if op == "*": return (a * b) & M64
    if op == "/":
        if b == 0: raise ZeroDivisionError
        if a == 1 << 63 and b == M64: raise Skip
        return trunc_div(s64(a), s64(b)) & M64
    if op == "MOD":
        if b == 0: raise ZeroDivisionError
        if a >> 63 or b >> 63: raise Skip
        return a % b
    if op == "SHL":
        if b & 0x80000000 or b >> 32: raise Skip
        return (a << b) & M64 if b < 64 else 0
    if op == "SHR":
        if b & 0x80000000 or b >> 32: raise Skip
        if bits == 32 and a == M64: a = 0xffffffff       # documented 32-bit behaviour of -1 SHR n
        return a >> b if b < 64 else 0
    if op == "EQ": return M64 if a == b else 0
    if op == "NE": return M64 if a != b else 0
    if op == "LT": return M64 if s64(a) < s64(b) else 0
    if op == "LE": return M64 if s64(a) <= s64(b) else 0
    if op == "GT": return M64 if s64(a) > s64(b) else 0
    if op == "GE": return M64 if s64(a) >= s64(b) else 0
    if op == "AND": return a & b
    if op == "OR": return a | b
    if op == "XOR": return a ^ b
    if op == "HIGH": return (a >> 8) & 0xff
    if op == "LOW": return a & 0xff
    if op == "HIGHWORD": return (a >> 16) & 0xffff
    if op == "LOWWORD": return a & 0xffff
    if op == "HIGH32": return a >> 32
    if op == "LOW32": return a & 0xffffffff
    if op == "+u": return a
    if op == "-u": return (-a) & M64
    if op == "NOT": return a ^ M64
    raise KeyError(op)

def base_digits(v, b):
    s = ""
    while True:
        s = "0123456789abcdef"[v % b] + s
        v //= b
        if not v: return s

def number(rng, v, radix=10):
    """One way to write the unsigned number v under .RADIX radix."""
    forms = []
    def rc(s): return "".join(c.upper() if rng.random() < .5 else c for c in s)
    h = base_digits(v, 16)
    if not h[0].isdigit(): h = "0" + h
    forms.append(rc(h) + rng.choice("hH"))
    forms.append(base_digits(v, 8) + rng.choice("oqOQ"))
    if radix < 14:
        forms.append(base_digits(v, 10) + rng.choice("dD"))
    forms.append(base_digits(v, 10) + rng.choice("tT"))
    if radix < 12:
        forms.append(base_digits(v, 2) + rng.choice("bB"))
    forms.append(base_digits(v, 2) + rng.choice("yY"))
    d = base_digits(v, radix)
    if not d[0].isdigit(): d = "0" + d
    # a trailing b/d would read as a radix suffix below 12/14 only
    forms += [rc(d)] * 3
    if radix == 10 and v and v < 1 << 32 and rng.random() < .2:
        b = v.to_bytes((v.bit_length() + 7) // 8, "big")
        if all((0x23 <= c < 0x7f or c >= 0xa0) and c not in b"<>'\"!%&;\\()[]{}," for c in b):
            q = rng.choice("'\"")
            forms += [q + b.decode("latin1") + q] * 2
    if rng.random() < .1: forms.append("0" + rng.choice("x") + base_digits(v, 16)) if radix == 10 else None
    if rng.random() < .1 and radix == 10:
        forms.append("000" + base_digits(v, 10))
    return rng.choice(forms)

def gen(rng, depth=4, syms=None, small=False, bits=64, radix=10, ops=None):
    """-> (text, value, precedence). syms: name -> value."""
    ops = ops or (list(BIN) + list(UN))
    for _ in range(200):
        try:
            return _gen(rng, depth, syms or {}, small, bits, radix, ops)
        except (Skip, ZeroDivisionError):
            continue
    return number(rng, 1, radix), 1, 0

def _leaf(rng, syms, small, radix):
    if syms and rng.random() < .35:
        n = rng.choice(sorted(syms)); return n, syms[n] & M64, 0
    r = rng.random()
    if small: v = rng.randrange(0, 200)
    elif r < .45: v = rng.choice(INTERESTING)
    elif r < .75: v = rng.randrange(0, 300)
    elif r < .79: v = int.from_bytes(bytes(rng.choice((0x41, 0x7a, 0xa0, 0xc4, 0xff, rng.randrange(0xa0, 256))) for _ in range(rng.choice((1, 2, 3, 4)))), "big")   # writable as a character constant
    else: v = rng.getrandbits(rng.choice((8, 16, 17, 31, 32, 33, 48, 63, 64)))
    return number(rng, v, radix), v, 0

def _wrap(rng, t, need):
    if need or rng.random() < .08:
        return "(%s%s%s)" % (rng.choice(("", " ")), t, rng.choice(("", " ")))
    return t

def _gen(rng, depth, syms, small, bits, radix, ops):
    if depth <= 0 or rng.random() < .12: return _leaf(rng, syms, small, radix)
    op = rng.choice(ops)
    def case(s): return rng.choice((s, s.lower(), s.capitalize()))
    if op in UN:
        t, v, p = _gen(rng, depth - 1, syms, small, bits, radix, ops)
        pr = UN[op]
        # same-level unary operators nest to the right
        need = p > pr or (p == pr and op in ("+u", "-u"))
        inner = _wrap(rng, t, need)
        if op in ("+u", "-u"): return op[0] + rng.choice(("", " ")) + inner, calc(op, v, None, bits), pr
        return case(op) + " " + inner, calc(op, v, None, bits), pr
    pr = BIN[op]
    lt, lv, lp = _gen(rng, depth - 1, syms, small, bits, radix, ops)
    if op in ("SHL", "SHR") and rng.random() < .8:
        rv = rng.choice((0, 1, 4, 7, 8, 15, 16, 31, 32, 33, 47, 63, 64, 65, 100)); rt, rp = number(rng, rv, radix), 0
    else:
        rt, rv, rp = _gen(rng, depth - 1, syms, small, bits, radix, ops)
    v = calc(op, lv, rv, bits)
    # a lower-binding prefix operator inside the left operand would swallow op
    lt = _wrap(rng, lt, lp > pr)
    rt = _wrap(rng, rt, rp >= pr)
    if op.isalpha(): return "%s %s %s" % (lt, case(op), rt), v, pr
    sp = rng.choice(("", " ", "  ", "\t"))
    return lt + sp + op + sp + rt, v, pr
