"""Builds nb from /repo's working tree, and the helpers of this framework."""
import glob
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("NBV_REPO", "/repo")
EVIDENCE = os.environ.get("NBV_EVIDENCE", VERIF + "/evidence")


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > (512 << 20):
                return d
    return tempfile.gettempdir()


class Scratch:
    """A directory that is removed at the end."""

    def __init__(self, name):
        self.path = tempfile.mkdtemp(prefix="nbv-%s-" % name, dir=scratch_base())
        os.chmod(self.path, 0o755)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class BuildError(Exception):
    pass


def build(out_dir, weak=False):
    """-> path of a static nb binary whose clock, order of directory entries (and hash) we
    control."""
    os.makedirs(out_dir, exist_ok=True)
    exe = os.path.join(out_dir, "nb-weak" if weak else "nb")
    obj = os.path.join(out_dir, "obj-weak" if weak else "obj")
    os.makedirs(obj, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/*.c")) + sorted(glob.glob(REPO + "/third-party/*/*.c"))
    srcs += [VERIF + "/harness/clock.c", VERIF + "/harness/order.c"]
    wrap = ["time", "clock_gettime", "gettimeofday", "readdir", "readdir64", "closedir"]
    if weak:
        srcs.append(VERIF + "/harness/weakhash.c")
        wrap += ["blake2b_init", "blake2b_update", "blake2b_final", "blake2b"]
    flags = ["-O0", "-g", "-w", "-std=c99", "-D_XOPEN_SOURCE=600", "-D_FILE_OFFSET_BITS=64",
             "-I" + REPO + "/src", "-I" + REPO + "/third-party"]
    procs = []
    objs = []
    for n, s in enumerate(srcs):
        o = os.path.join(obj, "%d.o" % n)
        objs.append(o)
        std = flags if not s.startswith(VERIF) else ["-O0", "-w", "-std=gnu11"]
        procs.append(subprocess.Popen(["gcc"] + std + ["-c", "-o", o, s],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for s, p in zip(srcs, procs):
        text = p.communicate()[0]
        if p.returncode != 0:
            raise BuildError("%s: %s" % (s, text.decode("utf-8", "replace")))
    r = subprocess.run(["gcc", "-static", "-o", exe] + objs +
                       ["-Wl," + ",".join("--wrap=" + w for w in wrap)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(r.stdout.decode("utf-8", "replace"))
    shutil.rmtree(obj, ignore_errors=True)
    return exe


def build_nbx(out_dir):
    os.makedirs(out_dir, exist_ok=True)
    exe = os.path.join(out_dir, "nbx")
    r = subprocess.run(["gcc", "-O2", "-w", "-o", exe, VERIF + "/harness/nbx.c"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(r.stdout.decode("utf-8", "replace"))
    return exe
