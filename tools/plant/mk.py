#!/usr/bin/env python3
"""mk.py ID: (re)creates seeded/ID from the spec file tools/plant/ID.py-like dict given on stdin; verifies it."""
import sys, os, subprocess, shutil, json
V = "/verif"; sys.path.insert(0, V + "/tools/plant")
def plant(id, prop, edits, demo, needs, what, xf=""):
    D = "%s/seeded/%s" % (V, id); W = "/tmp/wt.%s" % id
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, "HEAD"], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(W, f); t = open(p, newline="", encoding="latin1").read()
            for o, n in ((old, new), (old.replace("\n", "\r\n"), new.replace("\n", "\r\n"))):
                if t.count(o) == 1: t = t.replace(o, n); break
            else: print(id, f, "pattern found", t.count(old), "times"); return
            open(p, "w", newline="", encoding="latin1").write(t)
        os.makedirs(D, exist_ok=True)
        d = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout
        open(D + "/patch.diff", "wb").write(d)
        shutil.copy(V + "/tools/plant/native.sh", D + "/native.sh")
        open(D + "/demo.sh", "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n%s. "$here/native.sh"\n' % ("XF='%s'\n" % xf if xf else "") + demo)
        os.chmod(D + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(D + "/meta.json", "w"), indent=1)
        T = "/tmp/dm.%s" % id; shutil.copytree(D, T, dirs_exist_ok=True)
        a = subprocess.run(["bash", T + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["bash", T + "/demo.sh"], cwd=W, capture_output=True, text=True)
        shutil.rmtree(T)
        print(id, "unchanged:", a.returncode, a.stdout[-200:], a.stderr[-300:], "| patched:", b.returncode, b.stdout[-200:], b.stderr[-200:], "| OK" if a.returncode == 0 and b.returncode else "| BAD")
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W])
