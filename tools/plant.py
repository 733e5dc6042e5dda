#!/usr/bin/env python3
"""Plants a bug: plant.py FILE, where FILE is Python defining ID, PROPERTY,
NEEDS, BREAKS, EDITS (list of (file, old, new)) and DEMO (shell, after lib.sh).
Keeps it in seeded/ID if it builds, passes the stable tests and is told apart
by the demonstration."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = r'''# Everything happens in a scratch directory below /tmp.
set -u
NB=$PWD/build/nb
D=$(mktemp -d /tmp/nbdemo.XXXXXX) || exit 2
trap 'chmod -R u+rwx "$D" 2>/dev/null; rm -rf "$D"' EXIT
R=$D/repo; F=$D/files
mkdir "$R" "$F"
export LC_ALL=C
fail() { echo "FAIL: $*"; exit 1; }
config() { printf '%s\n' "$@" > "$R/config"; }
backup() { echo y | "$NB" "$R" > "$D/out" 2> "$D/err"; }
must() { "$@" || { cat "$D/out" "$D/err"; fail "$*"; }; }
restore() { echo y | "$NB" "$R" "$1" "$2" > "$D/out" 2> "$D/err"; }
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    skip_tests = "--fast" in sys.argv
    d = os.path.join(V, "seeded", g["ID"])
    base = tempfile.mkdtemp(prefix="nbplant-", dir="/tmp")
    ok = False
    try:
        work = base + "/repo"
        subprocess.run(["cp", "-a", "/repo", work], check=True)
        os.makedirs(d, exist_ok=True)
        with open(d + "/lib.sh", "w") as f:
            f.write(LIB)
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + g["DEMO"].strip("\n") + "\n")
        os.chmod(d + "/demo.sh", 0o755)
        for name, text in g.get("FILES", {}).items():
            with open(d + "/" + name, "w") as f:
                f.write(text)

        def build():
            sh("rm -f build/nb build/dependencies.makefile; find build -name '*.o' -delete; "
               "CC=gcc CFLAGS='-Wall -Wextra -pedantic -O0 -ggdb' LDFLAGS='-O0 -ggdb' make -j8 build/nb",
               shell=True, cwd=work)
            return os.path.exists(work + "/build/nb")

        def demo(times):
            for _ in range(times):
                r = sh(["timeout", "280", "bash", d + "/demo.sh"], cwd=work)
                yield r.returncode, r.stdout.decode(errors="replace")[-600:]
        if not build():
            print("base does not build")
            return 1
        for rc, text in demo(3):
            if rc != 0:
                print("demo fails on base:", rc, text)
                return 1
        for name, old, new in g["EDITS"]:
            p = work + "/" + name
            s = open(p).read()
            if s.count(old) != 1:
                print("%d matches in %s: %r" % (s.count(old), name, old[:80]))
                return 1
            open(p, "w").write(s.replace(old, new))
        if not build():
            print("patched does not build", sh("make build/nb", shell=True, cwd=work).stdout.decode()[-1500:])
            return 1
        for rc, text in demo(3):
            if rc == 0:
                print("demo passes with the patch:", text)
                return 1
        print("demo with patch:", rc, text.strip()[-200:])
        if not skip_tests:
            r = sh([V + "/tools/run_tests_in.sh", work])
            tail = r.stdout.decode(errors="replace").strip().split("\n")[-3:]
            print("tests:", r.returncode, tail)
            if r.returncode != 0:
                return 1
        diff = sh(["git", "diff", "--", "src"], cwd=work).stdout
        with open(d + "/patch.diff", "wb") as f:
            f.write(diff)
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, f, indent=1)
            f.write("\n")
        ok = True
        print("planted", g["ID"])
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
        if not ok:
            shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
