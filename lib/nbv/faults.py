"""Component of the crash and fault checks: a random history leads to some
state; its last command is then repeated from copies of that state, each time
killed at another system call, or with another system call failing.  What
follows is checked by TLC like any other history."""
import errno
import os
import random
import shutil
import subprocess
import time

from . import gen, histories, par, trace
from .enc import dec
from .histories import profile
from .trace import History, Stop
from .world import World

BASE = dict(steps=(1, 3), consent=0.0, again=0.0, odd_names=0.02)
PROFILES = {
    "backup": profile(mutations=(2, 8), dup_contents=4, links=0.08, others=0.03, foreign=0.1,
                      ops={"backup": 10, "restore": 0.5}, **BASE),
    "bigbackup": profile(mutations=(2, 7), dup_contents=4, links=0.03, others=0.0, big=0.25, foreign=0.0,
                         ops={"backup": 10}, **BASE),
    "gc": profile(foreign=0.7, ops={"backup": 10, "gc": 1}, **BASE),
    "restore": profile(restore_damage=(2, 10), links=0.12, same_size=0.6, mutations=(1, 7), ops={"backup": 10, "restore": 1}, **BASE),
    "integrity": profile(ops={"backup": 10, "integrity": 1}, **BASE),
}

PROFILES["busy"] = profile(mutations=(3, 8), dup_contents=4, links=0.1, others=0.0, big=0.12, foreign=0.0,
                           policies=["copy", "mirror", "track", "track"], ops={"backup": 10}, **BASE)

CREATING = os.O_CREAT | os.O_TRUNC
CHANGING = {"write", "pwrite64", "writev", "pwritev", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir",
            "unlink", "unlinkat", "link", "linkat", "symlink", "symlinkat", "mknod", "mknodat", "truncate",
            "ftruncate", "fallocate", "chmod", "fchmod", "fchmodat", "fchmodat2", "chown", "lchown", "fchown",
            "fchownat", "utime", "utimes", "futimesat", "utimensat", "sendfile", "copy_file_range", "splice", "creat"}
WRITING = {"write", "pwrite64", "writev", "pwritev", "sendfile", "copy_file_range"}
STATS = {"stat", "lstat", "newfstatat", "statx", "access", "faccessat", "faccessat2", "readlink", "readlinkat"}


def opens_to_write(e):
    flags = {"open": 1, "openat": 2}.get(e.name)
    return flags is not None and (e.args[flags] & (CREATING | os.O_WRONLY | os.O_RDWR))


def changes(e):
    """May the system call change anything but the standard streams?"""
    if e.name in CHANGING:
        return not (e.name in WRITING and e.args[0] in (1, 2))
    return bool(opens_to_write(e))


def errors_of(e):
    """Errors with which the system call may fail."""
    n = e.name
    if n in ("mmap", "execve", "fork", "clone", "exit", "ioctl", "lseek"):
        return []
    if n in WRITING:
        return [errno.ENOSPC, errno.EIO] if e.args[0] > 2 else []
    if n in ("open", "openat", "creat"):
        return [errno.EACCES, errno.EIO, errno.ENOSPC] if opens_to_write(e) else [errno.EACCES, errno.EMFILE]
    if n in STATS:
        return [errno.EACCES, errno.EIO]
    if n in ("fstat", "read", "pread64", "getdents64", "getdents", "close", "readv"):
        return [errno.EIO] if e.args[0] > 2 or n not in ("fstat", "close") else []
    if n in ("fsync", "fdatasync", "sync", "syncfs"):
        return [errno.EIO]
    if n in ("fcntl",):
        return [errno.ENOLCK] if e.args[1] in (5, 6, 7, 37, 38) else []
    if n in ("mkdir", "mkdirat", "rename", "renameat", "renameat2", "symlink", "symlinkat", "link", "linkat"):
        return [errno.ENOSPC, errno.EIO]
    if n in CHANGING:
        return [errno.EPERM, errno.EIO]
    return []


class Case:
    """A command to be interrupted, and the state before it."""


def make(ctx, kind, seed, path):
    """-> Case or None"""
    prof = PROFILES[kind]
    rng = random.Random(seed)
    w = World(path, ctx.nb, ctx.nbx)
    w.umask = gen.UMASKS[seed % len(gen.UMASKS)]
    w.clock = gen.CLOCKS[seed // 3 % len(gen.CLOCKS)]
    c = Case()
    c.kind, c.seed, c.rng = kind, seed, rng
    c.h = History(w, str(seed))
    g = gen.Gen(w, rng, prof)
    c.g = g
    try:
        g.history(c.h)
        op = {"bigbackup": "backup", "busy": "backup"}.get(kind, kind)
        last = {}

        # the generator prepares the command, but it is not run yet
        class Take(Exception):
            pass

        def take(name):
            def f(*a, **kw):
                last["op"], last["a"], last["kw"] = name, a, kw
                raise Take()
            return f
        saved = c.h
        for name in ("backup", "restore", "gc", "integrity"):
            setattr(saved, name, take(name))
        try:
            for _ in range(8):
                g.step(saved, op)
        except Take:
            pass
        for name in ("backup", "restore", "gc", "integrity"):
            delattr(saved, name)
        if not last:
            return None
        c.op, c.a, c.kw = last["op"], last["a"], last["kw"]
        if c.op == "backup":
            saved.write_config(c.a[0])
            saved.note_config(c.a[0])
        saved.user()
        c.config = saved.w.path + "/r/config"
    except Stop:
        return None
    return c


def command(h, c, **kw):
    return getattr(h, c.op)(*c.a, **dict(c.kw, **kw))


def follow(h, c, rng, ref=None):
    """What happens after the interruption."""
    conf = open(h.w.path + "/r/config", "rb").read() if os.path.exists(h.w.path + "/r/config") else None
    if c.op == "restore":
        x = {"ref": ref, "refbase": c.h.fs} if ref is not None else None
        command(h, c, extra=x)
        if rng.random() < 0.2:
            command(h, c, again=True)
        return
    if rng.random() < 0.25 and h.meta["ex"]:
        h.integrity()
    if rng.random() < 0.3 and h.meta["ex"]:
        h.gc()
    if c.op == "integrity" and c.g.repair:
        c.g.repair(h.w.path)
        h.user()
    if conf is not None:
        h.backup(conf)
        if rng.random() < 0.3:
            h.integrity()
        if rng.random() < 0.25:
            h.natural = False
            h.restore(0)


def touch(h, what, path, r):
    """Somebody else changes a file."""
    w = h.w
    f = w.full(path)
    if not os.path.lexists(f):
        return
    reg = os.path.isfile(f) and not os.path.islink(f)
    st = os.lstat(f)
    data = b""
    if reg:
        with open(f, "rb") as x:
            data = x.read()
    n = len(data)

    def put(new, how):
        if how == "rename":
            with open(os.path.dirname(f) + b"/.new~", "wb") as x:
                x.write(new)
            os.chown(os.path.dirname(f) + b"/.new~", st.st_uid, st.st_gid)
            os.rename(os.path.dirname(f) + b"/.new~", f)
        else:
            fd = os.open(f, os.O_WRONLY)
            if len(new) < n:
                os.ftruncate(fd, len(new))
            os.write(fd, new)
            os.close(fd)
    k = what
    if not reg and k not in ("gone", "link", "dir", "file", "attr"):
        k = "gone"
    if k in ("same", "same-rename"):
        put(bytes([c ^ 32 for c in data]), "rename" if k != "same" else "")
    elif k in ("tail", "head"):
        i = n - 1 if k == "tail" else 0
        put(data[:i] + bytes(c ^ 1 for c in data[i:i + 1]) + data[i + 1:], "")
    elif k == "other":
        put(bytes([c ^ 32 for c in data]) + b"o" * r.choice([1, 5, 30, 5000]), r.choice(["", "rename"]))
    elif k == "other-short":
        put(bytes([c ^ 32 for c in data])[:r.choice([n // 2, max(n - 1, 0), min(n, 20)])], r.choice(["", "rename"]))
    elif k == "grow":
        put(data + bytes([97 + r.randrange(3)]) * r.choice([1, 1, 7, 30, 5000]), r.choice(["", "rename"]))
    elif k == "shrink":
        put(data[:r.choice([n // 2, max(n - 1, 0), 0, min(n, 20), min(n, 21)])], r.choice(["", "rename"]))
    elif k in ("gone", "link", "dir", "file"):
        w.remove(path)
        if k == "link":
            others = [p for p, s in h.fs.items() if s["t"] == "reg" and p != path]
            same = [p for p in others if h.fs[p]["sz"] == n]
            os.symlink(dec(r.choice(same or others or ["/nowhere"])), f)
        elif k == "dir":
            os.mkdir(f)
            with open(f + b"/a", "wb") as x:
                x.write(b"in here" * 9)
        elif k == "file":
            with open(f, "wb") as x:
                x.write(b"was something else" * 3)
        if k != "gone":
            os.chown(f, 100000, 100000, follow_symlinks=False)
        if k == "dir":
            os.chown(f + b"/a", 100000, 100000)
    elif k == "attr":
        os.chown(f, 100001, 100002, follow_symlinks=False)
    if reg and r.random() < 0.5 and os.path.isfile(f) and not os.path.islink(f):
        # within the same second
        w.utime(path, int(st.st_mtime_ns // 1000000000))
    now = time.time()
    for p in [path, path.rsplit("/", 1)[0], path + "/a"]:
        g = w.full(p)
        if p and os.path.lexists(g) and not os.path.islink(g) and abs(os.lstat(g).st_mtime - now) < 3600:
            w.utime(p, w.fresh_time())


def put_back(h, path, saved):
    """Undoes a touch completely, times included."""
    w = h.w
    st = h.fs[path]
    if os.path.lexists(w.full(path)):
        w.remove(path)
    parent = path.rsplit("/", 1)[0]
    if not os.path.isdir(w.full(parent)):
        return
    subprocess.run(["cp", "-a", saved, w.full(path)], check=True)
    for p in (path, parent):
        if p and h.fs[p].get("mt", "NOW") != "NOW" and not (p == path and st["t"] == "lnk"):
            w.utime(p, int(h.fs[p]["mt"]))


TOUCHES = ["same", "same-rename", "other", "other", "other-short", "tail", "head", "grow", "grow", "shrink", "shrink", "gone", "link", "dir", "attr"]


def touch_points(c, events, rng):
    """Faults of the kind ("touch", k, what, path)."""
    out = []
    fds = {}
    files = {p for p, st in c.h.fs.items() if p != "/r" and st["t"] in ("reg", "dir", "lnk")}
    names = {dec(p): p for p in files}
    near = {}
    for e in events:
        p = None
        if e.name in ("open", "openat", "creat"):
            p = names.get(e.p1)
            if e.ret is not None and e.ret >= 0:
                fds[e.ret] = p
        elif e.p1 in names:
            p = names[e.p1]
        elif e.name in ("read", "pread64", "fstat", "close", "getdents64", "lseek", "mmap"):
            p = fds.get(e.args[4] if e.name == "mmap" and len(e.args) > 4 else e.args[0])
        if p is not None:
            near.setdefault(p, set()).update((e.idx, e.idx + 1))
    for p, ks in near.items():
        st = c.h.fs[p]
        for k in sorted(ks):
            for what in (TOUCHES if st["t"] == "reg" else ["gone", "link", "file", "attr"]):
                out.append(("touch", k, what, p))
    for p in rng.sample(sorted(files), min(len(files), 3)):
        for k in rng.sample(range(len(events)), min(len(events), 6)):
            out.append(("touch", k, rng.choice(TOUCHES), p))
    # a second change while the command goes on
    for f in rng.sample(out, len(out) // 3):
        later = [k for k in near.get(f[3], ()) if k > f[1]]
        if later:
            what = rng.choice(TOUCHES) if c.h.fs[f[3]]["t"] == "reg" else rng.choice(["gone", "link", "file", "attr"])
            out.append(f + (rng.choice(later), rng.choice(["back", "back", what]) if c.h.fs[f[3]]["t"] == "reg" else what))
    return out


class LateDict:
    """A dictionary looked at when it is needed."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]

    def __bool__(self):
        return True


def variant(ctx, c, path, fault, rng, ref):
    """Runs the command with a fault: ("kill", k), ("part", k) (killed after
    half of a write), ("errno", k, e), ("short", k), ("full", k) (the disk is
    full from then on).  -> History"""
    h = c.h.clone(path)
    try:
        k = fault[1]
        hit = {}
        mid = {}

        def commander(e):
            if e.idx < k:
                return "n %d" % k
            if fault[0] == "touch":
                first = not mid.get("mids") and len(fault) > 4
                if first:
                    subprocess.run(["cp", "-a", h.w.full(fault[3]), path + "-saved"])
                if len(fault) > 4 and not first and fault[5] == "back":
                    put_back(h, fault[3], path + "-saved")
                else:
                    touch(h, fault[2] if first or len(fault) < 5 else fault[5], fault[3],
                          random.Random("%s/%s/%s/%s" % (c.seed, k, fault[2], first)))
                mid["mid"] = h.w.snapshot_fs()
                if first:
                    mid["mids"] = [mid["mid"]]
                    return "n %d" % fault[4]
                return "q"
            if fault[0] == "kill":
                return "k"
            if fault[0] == "part":
                if e.idx == k and e.name == "write" and e.args[2] > 1:
                    return "s %d" % (e.args[2] // 2)
                return "k"
            if fault[0] == "full":
                if (e.name in WRITING and e.args[0] > 2) or e.name.startswith("mkdir") or opens_to_write(e):
                    hit["call"] = e
                    return "f %d" % errno.ENOSPC
                return "g"
            hit["call"] = e
            if fault[0] == "short":
                return "s %d" % max(1, e.args[2] // 2)
            return "f %d" % fault[2]

        asked = [0]

        def once(e):
            # everything after the fault goes on by itself
            if fault[0] in ("errno", "short"):
                if e.idx > k:
                    return "q"
            return commander(e)

        label = "kill" if fault[0] in ("kill", "part") else "errno"
        try:
            def wrapped(e):
                asked[0] += 1
                return once(e)
            extra = {}
            if fault[0] == "errno" and fault[3] in ("fsync", "fdatasync"):
                extra["fsync"] = True
            if fault[0] == "touch":
                label = "touched"
                mid["mid"] = h.w.snapshot_fs()
                mid["mids"] = []
                extra = LateDict(mid)
            command(h, c, mode="step", commander=wrapped, fault=label, extra=extra)
            if fault[0] == "touch":
                f = h.w.full(fault[3])
                if len(fault) > 4 and os.path.isfile(f) and not os.path.islink(f):
                    # another content may have been recorded with this time
                    h.w.utime(fault[3], h.w.fresh_time())
                h.settle()
            follow(h, c, rng, ref)
        except Stop:
            pass
        h.fault = fault
        return h
    finally:
        h.w.close()
        if len(fault) > 4:
            shutil.rmtree(path + "-saved", ignore_errors=True)
            if os.path.lexists(path + "-saved"):
                os.unlink(path + "-saved")


def plan(c, events, faults, rng, most):
    """The faults to be tried."""
    out = []
    if "kill" in faults:
        ks = [e.idx for e in events if changes(e)]
        for k in ks:
            out.append(("kill", k))
            e = events[k]
            if e.name == "write" and e.args[2] > 1:
                out.append(("part", k))
        if ks and ks[-1] + 1 < len(events):
            out.append(("kill", ks[-1] + 1))
    if "touch" in faults:
        out += touch_points(c, events, rng)
        if len(out) > most:
            # each kind as often
            groups = {}
            for f in out:
                groups.setdefault((f[2] if len(f) < 5 else f[5] == "back", c.h.fs[f[3]]["t"]), []).append(f)
            for g in groups.values():
                rng.shuffle(g)
            out = []
            while len(out) < most and groups:
                for key in list(groups):
                    out.append(groups[key].pop())
                    if not groups[key]:
                        del groups[key]
            out = out[:most]
    if "errno" in faults:
        for e in events:
            for x in errors_of(e):
                out.append(("errno", e.idx, x, e.name))
            if e.name in ("write", "read") and e.args[2] > 1 and e.args[0] > 2:
                out.append(("short", e.idx))
        ks = [e.idx for e in events if changes(e)]
        out += [("full", k) for k in ks]
    if len(out) > most:
        if "kill" in faults and "errno" not in faults:
            out = sorted(rng.sample(out, most), key=lambda f: f[1])
        else:
            # rare kinds of system calls as often as frequent ones
            groups = {}
            for f in out:
                e = events[f[1]]
                groups.setdefault((f[0], e.name, e.args[0] if e.name in WRITING else 0), []).append(f)
            for g in groups.values():
                rng.shuffle(g)
            pick = []
            while len(pick) < most and groups:
                for key in list(groups):
                    pick.append(groups[key].pop())
                    if not groups[key]:
                        del groups[key]
                    if len(pick) >= most:
                        break
            out = pick
    return out


def richness(c, events):
    """How much there is to go wrong: kinds of changing system calls, and contents that are written."""
    kinds = {(e.name, e.args[0] if e.name in WRITING else 0) for e in events if changes(e)}
    big = sum(1 for e in events if e.name in WRITING and e.args[0] > 2 and e.args[2] > 20)
    return len(kinds) + min(big, 4)


def record(ctx, kind, seed, base):
    """-> (case, reference history, system calls, tree restored); case None: nothing to interrupt"""
    shutil.rmtree(base, ignore_errors=True)
    c = make(ctx, kind, seed, base)
    if c is None:
        return None, None, [], None
    h = c.h.clone(base + "-ref")
    events, ref = [], None
    try:
        res = command(h, c, mode="trace")
        events = res.events
        if c.op == "restore":
            ref = h.fs if res.exit == 0 else None
    except Stop:
        pass
    finally:
        h.w.close()
    return c, h, events, ref


def one(ctx, kind, seed, faults, most):
    """-> (Case, [History])"""
    base = os.path.join(ctx.scratch, "f-%s-%d-%d" % (kind, seed, os.getpid()))
    hs = []
    try:
        # mostly, much must be at stake: the best of several
        tries = random.Random("rich/%d" % seed).choice([1, 3, 6, 6])
        best, rich = None, -1
        for n in range(tries):
            s = seed + n * 1000000007
            c, h, events, ref = record(ctx, kind, s, base)
            if c is None:
                continue
            k = 99 if h.broken else richness(c, events)
            if k > rich:
                best, rich = s, k
            if h.broken:
                break
        if best is None:
            return None, []
        if best != s or c is None:
            c, h, events, ref = record(ctx, kind, best, base)
        h.fault = ("none",)
        hs.append(h)
        if not h.broken:
            for n, f in enumerate(plan(c, events, faults, c.rng, most)):
                hs.append(variant(ctx, c, "%s-%d" % (base, n), f, c.rng, ref))
                hs[-1].syscall = repr(events[f[1]])[:300] if f[1] < len(events) else "end"
        return c, hs
    finally:
        shutil.rmtree(base, ignore_errors=True)


GROUP = 3  # scenarios for one run of TLC


def explore(ctx, kinds, faults, labels, seconds, most, offset=0):
    names = list(kinds)
    deadline = time.time() + seconds

    def job(n):
        rng = random.Random("%d/%d/%d" % (ctx.seed, offset, n))
        all_hs, which = [], []
        out = {"scenarios": 0, "st": {"states": 0, "events": 0}, "bad": [], "und": [], "faults": {}, "sample": None}
        group = GROUP if most < 1000 else 1
        for k in range(group):
            kind = rng.choices(names, [kinds[x] for x in names])[0]
            seed = ctx.seed * 100000000 + offset * 1000000 + n * group + k
            c, hs = one(ctx, kind, seed, faults, most)
            all_hs += hs
            which += [(kind, seed)] * len(hs)
            out["scenarios"] += bool(hs)
            for h in hs:
                ev = [e for e in h.events if "fault" in e]
                if ev:
                    key = "%s %s exit %s" % (c.op, h.fault[0], ev[0]["exit"])
                    out["faults"][key] = out["faults"].get(key, 0) + 1
            if len(hs) > 1 and not out["sample"]:
                out["sample"] = {"kind": kind, "seed": seed, "fault": hs[1].fault, "syscall": hs[1].syscall,
                                 "commands": hs[1].cmds[:2]}
        out["hists"] = len(all_hs)
        if not all_hs:
            return out
        bad, st, und = histories.validate_robust(all_hs, False)
        out["st"] = st
        out["und"] = [which[i] + (all_hs[i].fault, why) for i, why in und]
        by = {}
        for m in bad:
            by.setdefault(m["h"], []).append(m)
        out["bad"] = [which[k] + (all_hs[k].fault, getattr(all_hs[k], "syscall", ""), by[k], all_hs[k].cmds) for k in by]
        return out

    def hit(r):
        return any(any(m["label"] in labels for m in b[4]) for b in r["bad"])

    res = par.run(job, deadline, first=par.CORES, enough=hit)
    for i, err in par.run.errors:
        ctx.error("fault job %d: %s" % (i, err[-700:]))
    out = {"fault_histories": sum(r["hists"] for r in res), "scenarios": sum(r["scenarios"] for r in res),
           "states": sum(r["st"]["states"] for r in res), "events": sum(r["st"]["events"] for r in res),
           "faults": {}, "undecided": 0, "other_labels": {},
           "samples": [r["sample"] for r in res if r["sample"]][:2]}
    ctx.tried(out["fault_histories"], sum(len(r["und"]) for r in res))
    for r in res:
        for k, v in r["faults"].items():
            out["faults"][k] = out["faults"].get(k, 0) + v
        for u in r["und"]:
            out["undecided"] += 1
            ctx.note("undecided %s/%d %r: %s" % (u[0], u[1], u[2], u[3][:1200]))
        for b in r["bad"]:
            rel = [m for m in b[4] if m["label"] in labels]
            if not rel:
                for m in b[4]:
                    out["other_labels"][m["label"]] = out["other_labels"].get(m["label"], 0) + 1
                ctx.note("unrelated %s/%d %r: %s" % (b[0], b[1], b[2], [m["label"] for m in b[4]][:8]))
                continue
            if ctx.violations:
                continue
            # it counts if it happens again
            data = {"kind": "fault", "scenario": b[0], "seed": b[1], "faults": sorted(faults), "most": most,
                    "fault": list(b[2]), "syscall": b[3], "mismatches": rel[:10], "commands": b[5]}
            again = replay(ctx, data, quiet=True)
            rel2 = [m for m in again if m["label"] in labels]
            if rel2:
                m = rel2[0]
                ctx.violation("%s: %s with %r at %s: %s" % (m["label"], b[0], b[2], b[3], m["detail"][:1200]), data)
            else:
                ctx.note("not reproduced: %s/%d %r %s" % (b[0], b[1], b[2], [m["label"] for m in rel]))
    return out


def replay(ctx, data, quiet=False):
    c, hs = one(ctx, data["scenario"], data["seed"], set(data["faults"]), data["most"])
    hs = [h for h in hs if list(h.fault) == list(data["fault"])]
    if not hs:
        return []
    bad, _, und = histories.validate_robust(hs[:1], False)
    if not quiet:
        for x in hs[0].cmds:
            print(x)
        for m in bad:
            print("MISMATCH event %d %s %s: %s" % (m["i"], m["op"], m["label"], m["detail"]))
        for u in und:
            print("UNDECIDED", u[1])
    return bad
