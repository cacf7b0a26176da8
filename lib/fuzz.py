"""Mutations of assembler sources: line, token, byte and structure level."""
import os, random, re, vf
WORDS = open(os.path.join(vf.VERIF, "data", "words.txt")).read().split("\n")[:-1]
MNEM = open(os.path.join(vf.VERIF, "data", "mnemonics.txt")).read().split("\n")[:-1]
NUMS = ["0", "1", "-1", "2", "7", "8", "16", "31", "32", "63", "64", "127", "128", "-128", "-129", "255", "256", "32767", "-32768", "65535", "65536", "7fffffffh", "80000000h", "-80000000h",
        "0ffffffffh", "100000000h", "7fffffffffffffffh", "8000000000000000h", "0ffffffffffffffffh", "0ffffffffffffffffffffffffffffffffh", "1.0", "1e400", "-0.0", "3fr", "0q", "1b", "12t", "99999999999999999999"]
TOK = re.compile(rb"[A-Za-z_@$?.][\w@$?.]*|\d[\w.]*|\"[^\"\n]*\"|'[^'\n]*'|\s+|.", re.S)
FORMATS = [["-bin"], ["-omf"], ["-coff"], ["-win64"], ["-elf"], ["-elf64"], ["-macho64"], ["-mz"], ["-pe"]]
EXTRA = [["-Zp1"], ["-Zp16"], ["-Zi"], ["-Zd"], ["-Zi8", "-Zd", "-Zf"], ["-Fl", "-Sg", "-Sn"], ["-Fl", "-Sa"], ["-Cp"], ["-Cu"], ["-Zne"], ["-Zm"], ["-Zg"], ["-Gz"], ["-Gc"], ["-mf"], ["-ms"], ["-ml"],
         ["-W4"], ["-WX"], ["-EP"], ["-Zs"], ["-D", "X=1"], ["-DT=<a>"], ["-10"], ["-6"], ["-0"], ["-archAVX"], ["-zcw"], ["-zlc"], ["-zlf"], ["-zzs"], ["-zze"], ["-safeseh"], ["-FPi"], ["-nologo"], ["-Fd"], ["-eq"], ["-e1"], ["-less"]]
def ident(rng, n): return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_@$?") for _ in range(n))
def word(rng):
    r = rng.random()
    if r < .45: return rng.choice(WORDS).encode()
    if r < .65: return rng.choice(MNEM).encode()
    if r < .9: return rng.choice(NUMS).encode()
    return ident(rng, rng.choice([1, 3, 31, 32, 100, 246, 247, 248, 255, 256, 300, 600, 1100]))
def mut_line(rng, L, other):
    i = rng.randrange(len(L)); r = rng.random()
    if r < .2: del L[i]
    elif r < .35: L.insert(rng.randrange(len(L) + 1), L[i])
    elif r < .5: j = rng.randrange(len(L)); L[i], L[j] = L[j], L[i]
    elif r < .75 and other: j = rng.randrange(len(other)); L[i:i] = other[j:j + rng.choice([1, 1, 2, 5, 12])]
    elif r < .82: j = min(len(L), i + rng.choice([2, 5, 20])); L[i:j] = []
    elif r < .87: L[i] = L[i].rstrip(b"\r") + b" \\"
    elif r < .92: L[i:i] = L[i:i + rng.choice([1, 3])] * rng.choice([2, 20, 60])
    elif r < .96: L[i:i] = [word(rng) + b" " + word(rng) + b" " + word(rng)]
    else: del L[i + 1:]
def mut_token(rng, L, other):
    i = rng.randrange(len(L)); T = TOK.findall(L[i]); k = [j for j, t in enumerate(T) if t.strip()]
    if not k: L[i] = word(rng); return
    j = rng.choice(k); r = rng.random()
    if r < .25: T[j] = word(rng)
    elif r < .4: T.insert(j, b" " + word(rng) + b" ")
    elif r < .5: del T[j]
    elif r < .6: a = rng.choice(k); T[j], T[a] = T[a], T[j]
    elif r < .68: T[j] = T[j] * rng.choice([2, 3, 10])
    elif r < .73: T[j:j + 1] = (T[j:] + [b","]) * rng.choice([2, 10, 50])
    elif r < .78: T[j] = b"(" * rng.choice([1, 5, 50, 200]) + T[j] + b")" * rng.choice([0, 1, 5, 50, 200])
    elif r < .82: T[j] = rng.choice([b'"', b"'", b"<", b">", b"{", b"}", b"[", b"]", b"(", b")", b"%", b"&", b"!", b"\\", b";", b",", b"::", b"="])
    elif r < .86: T[j] = b'"' + ident(rng, rng.choice([0, 1, 5, 17, 200, 255, 256, 500, 1000])) + b'"'
    elif r < .9: T[j] = b"<" + T[j] + b">"
    elif r < .95 and other: o = [t for t in TOK.findall(rng.choice(other)) if t.strip()]; T[j] = rng.choice(o) if o else b"x"
    elif r < .97: T[j] = ident(rng, rng.choice([31, 200, 247, 256, 500, 1023, 1100, 2100]))
    else: T[j] = T[j] + b" " * rng.choice([100, 500, 1100]) + b","
    L[i] = b"".join(T)
def mut_byte(rng, L, other):
    i = rng.randrange(len(L)); b = bytearray(L[i] or b" "); j = rng.randrange(len(b))
    b[j:j + rng.choice([0, 1, 1, 4])] = bytes(rng.choice([0, 9, 13, 26, 32, 34, 39, 33, 37, 38, 40, 41, 44, 59, 60, 62, 92, 123, 127, 128, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 1, 3])))
    L[i] = bytes(b)
WRAP = [("if 1", "endif"), ("ifdef zz", "endif"), ("rept 2", "endm"), ("mm{n} macro a,b", "endm\nmm{n} 1,2"), ("irp x,<1,2>", "endm"), ("irpc x,<ab>", "endm"), ("s{n} struct", "s{n} ends"), ("s{n} union", "s{n} ends"),
        ("s{n} segment", "s{n} ends"), (".if eax==1", ".endif"), (".while eax", ".endw"), (".repeat", ".until eax"), ("p{n} proc a:dword", "p{n} endp"), ("comment ~", "~"), (".switch eax\n.case 1", ".endswitch"), (".for (eax=0:eax<5:eax++)", ".endfor"), ("while 0", "endm"), ("p{n} proc frame\n local x[4]:byte", "p{n} endp")]
def mut_wrap(rng, L, other):
    i = rng.randrange(len(L)); j = min(len(L), i + rng.choice([0, 1, 4, 15])); a, b = rng.choice(WRAP); d = rng.choice([1, 1, 1, 2, 5, 30])
    n = [rng.randrange(1000) for _ in range(d)]
    L[i:j] = [x for k in n for x in a.format(n=k).encode().split(b"\n")] + L[i:j] + [x for k in n[::-1] for x in b.format(n=k).encode().split(b"\n")]
def mutate(rng, src, other):
    L = src.split(b"\n"); O = other.split(b"\n") if other else []
    if len(L) > 400:   # a window of a big source
        i = rng.randrange(len(L) - 300); L = L[:40] + L[i:i + 200]
    for _ in range(rng.choice([1, 1, 2, 3, 6, 12])):
        if not L: L = [b""]
        rng.choice([mut_line, mut_token, mut_token, mut_token, mut_byte, mut_wrap])(rng, L, O)
    b = b"\n".join(L)
    return b[:200000]
# what may legitimately expand without bound
ENDLESS = re.compile(rb"\b(while|rept|repeat|goto|macro|dup|org|for|include|forc|irpc?)\b", re.I)
