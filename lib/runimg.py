"""links an object to a flat image (GNU ld) and runs it in native/runner.c"""
import os, subprocess, tempfile, hashlib
import vf
BASE = 0x10000000
def runner():
    src = vf.VERIF + "/native/runner.c"; h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    d = vf.BUILD; exe = os.path.join(d, "runner-" + h)
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True); t = exe + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-static", "-no-pie", "-w", "-o", t, src], check=True); os.rename(t, exe)
    return exe
def link(bits, objs, d, data=None):
    fs = []
    for i, o in enumerate(objs): p = os.path.join(d, "o%d.o" % i); open(p, "wb").write(o); fs.append(p)
    r = subprocess.run(["ld", "-m", "elf_i386" if bits == 32 else "elf_x86_64", "-Ttext", hex(BASE), "-e", "0", "--oformat", "binary", "-z", "noexecstack", "-o", d + "/t.bin"] + fs, capture_output=True, text=True)
    return r
def run(rn, bits, objs, outsize=1 << 20, timeout=40):
    """-> (status, bytes written, message); status None: link error"""
    if isinstance(objs, bytes): objs = [objs]
    with tempfile.TemporaryDirectory() as d:
        r = link(bits, objs, d)
        if r.returncode: return None, b"", "link: " + r.stderr[:300]
        for k in range(20): # the heap's random place may be the image's
            p = subprocess.run([rn, str(bits), d + "/t.bin", hex(BASE), str(outsize)], capture_output=True, timeout=timeout)
            if b"mmap" not in p.stderr: break
        return p.returncode, p.stdout, p.stderr.decode("latin1")[:200]
