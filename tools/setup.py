#!/usr/bin/env python3
"""Sanity of a fresh checkout: the modules parse and the program builds."""
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from nbv import build  # noqa: E402

for m in sorted(glob.glob(V + "/spec/*.tla")):
    r = subprocess.run(["tla-sany", os.path.basename(m)], cwd=V + "/spec", stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or "*** Errors" in r.stdout:
        sys.exit("%s: %s" % (m, r.stdout[-2000:]))
with build.Scratch("setup") as s:
    build.build_nbx(s + "/bin")
    build.build(s + "/bin")
    build.build(s + "/bin", weak=True)
print("ok")
