#!/usr/bin/env python3
"""Sanity of a fresh sandbox: the native builds work and run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
for v in ("plain", "asan"):
    exe = vf.build(v)
    r = vf.asm(exe, ".x64\n_T segment 'CODE'\n nop\n_T ends\nend\n")
    print(v, exe, r.rc, r.files.get("t.bin"))
    assert r.rc == 0 and r.files["t.bin"] == b"\x90"
