"""The assembler's own regression sources as workload (never as oracle): every
source with the options its group is assembled with and the files it includes."""
import os, vf
OPTS = {"plain_bin": "-bin", "pe64_bin": "-bin", "win64": "-c -win64 -Zp8", "flat": "-bin", "coff": "-coff", "coffdbg": "-coff -Zi", "oo": "-win64 -Zp8 -Zi -Zd -Zf",
        "ooerr": "-win64 -Zp8 -Zi -Zd -Zf", "literals": "-win64 -Zp8", "literalerr": "-win64 -Zp8 -Zi -Zd -Zf", "linux64": "-elf64", "macho64": "-macho64", "cinvoke": "-coff",
        "mz": "-mz", "flat16": "-bin", "avxerr": "-bin", "invoke64err": "-win64 -Zp8", "avx512": "-bin", "vcall": "-c -win64 -Zp8", "CodeGenV2": "-c -bin", "CodeGenV2Error": "-c -bin",
        "codeview8_32": "-c -coff -Zi8 -Zd -Zf", "codeview8_64": "-c -win64 -Zi8 -Zd -Zf", "pe": "-pe", "elf": "-elf", "elf64": "-elf64", "systemv": "-elf64", "safeseh": "-coff -safeseh",
        "zd": "-Zd", "zg": "-Zg", "zne": "-Zne", "dllimp": "-coff", "borland_register": "-omf"}
class Entry:
    def __init__(s, d, f, path, opts): s.dir = d; s.file = f; s.path = path; s.opts = opts; s.id = d + "/" + f; s.src = open(path, "rb").read()
def load(maxsize=1 << 20):
    base = os.path.join(vf.REPO, "regress", "src"); r = []
    for d in sorted(os.listdir(base)):
        p = os.path.join(base, d)
        if not os.path.isdir(p): continue
        for f in sorted(os.listdir(p)):
            if f.lower().endswith(".asm") and os.path.getsize(os.path.join(p, f)) <= maxsize:
                r.append(Entry(d, f, os.path.join(p, f), OPTS.get(d, "-omf").split()))
    return r
def includes(d):
    """name -> bytes of the other files of a source directory (small ones)."""
    base = os.path.join(vf.REPO, "regress", "src", d); r = {}
    for f in sorted(os.listdir(base)):
        p = os.path.join(base, f)
        if os.path.isfile(p) and not f.lower().endswith(".asm") and os.path.getsize(p) < 4 << 20: r[f] = open(p, "rb").read()
    return r
