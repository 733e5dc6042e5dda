"""Component: several real nb processes on one repository.  Their system calls
are interleaved by behaviours of spec/Lock (drawn by TLC) and by systematic
preemption; TLC judges the recorded interleavings (spec/LockTrace)."""
import errno
import json
import os
import posixpath
import queue
import random
import re
import shutil
import tempfile
import threading
import time

from . import faults, par, trace
from .enc import enc
from .faults import CHANGING, opens_to_write
from .world import World

LOCK = b"/r/lockfile"
PATIENCE = 8
READING = {"read", "pread64", "readv", "preadv", "getdents64", "getdents", "sendfile", "copy_file_range"}
FDS = {"write", "pwrite64", "writev", "pwritev", "ftruncate", "fallocate", "fchmod", "fchown", "fsync", "fdatasync",
       "sync_file_range"} | READING
# as in World.run: another name of the repository
ALIAS = b"/alias"


class Proc:
    """A process whose system calls are granted one by one."""

    def __init__(self, sched, n, args, cwd):
        self.sched, self.n, self.args, self.cwd = sched, n, args, cwd
        self.replies = queue.Queue()
        self.fds = {}
        self.prev = None
        self.stop = None        # the event at which it waits
        self.state = "idle"     # idle, stopped, running, over, stuck
        self.exit = None
        self.calls = []         # kinds of the calls granted
        self.err = b""
        self.thread = None

    def start(self):
        self.state = "running"
        self.sched.log.append({"p": self.n, "e": "start"})
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        try:
            r = self.sched.w.run(self.args, b"y\n", mode="step", commander=self.ask, cwd=self.cwd, timeout=90)
            self.err = r.err
            self.sched.box.put((self, "end", r.exit))
        except Exception as e:
            self.sched.box.put((self, "error", repr(e)))

    def ask(self, e):
        if self.prev is not None and self.prev.ret is not None:
            self.learn(self.prev)
        self.prev = e
        self.sched.box.put((self, "stop", e))
        return self.replies.get()

    def norm(self, p):
        x = posixpath.normpath(posixpath.join(self.cwd.encode(), p))
        x = b"/" + x.lstrip(b"/")
        if x == ALIAS or x.startswith(ALIAS + b"/"):
            x = b"/r" + x[len(ALIAS):]
        return x

    def learn(self, e):
        if e.name in ("open", "openat", "creat") and e.ret >= 0:
            self.fds[e.ret] = self.norm(e.p1)
        elif e.name == "close":
            self.fds.pop(e.args[0], None)
        elif e.name in ("dup", "dup2", "dup3") and e.ret >= 0:
            self.fds[e.ret] = self.fds.get(e.args[0])
        elif e.name == "fcntl" and e.args[1] in (0, 1030) and e.ret >= 0:
            self.fds[e.ret] = self.fds.get(e.args[0])

    @staticmethod
    def inside(p):
        return p is not None and (p == b"/r" or p.startswith(b"/r/")) and p != LOCK

    def kind(self, e):
        """What the system call is about: open, lock, unlock, look (at the
        lockfile), remove (it), w (work on the repository) or nothing."""
        n = e.name
        if n in FDS or n == "mmap":
            fd = e.args[0]
            if n == "mmap":
                return ""
            p = self.fds.get(fd)
            return "w" if self.inside(p) else ""
        if n in ("open", "openat", "creat"):
            p = self.norm(e.p1)
            if p == LOCK:
                return "open"
            return "w" if self.inside(p) and opens_to_write(e) else ""
        if n in ("fcntl", "flock"):
            if self.fds.get(e.args[0]) != LOCK:
                return ""
            if n == "flock":
                return "unlock" if e.args[1] & 8 else "lock"
            if e.args[1] in (6, 7, 37, 38):
                return "unlock" if e.p2 == b"2" else "lock"
            return ""
        if n in CHANGING:
            ps = [self.norm(x) for x in (e.p1, e.p2) if x and n not in ("write", "writev", "pwrite64")]
            if n in ("symlink", "symlinkat"):
                ps = ps[1:]
            if LOCK in ps and n.startswith(("unlink", "rename", "rmdir")):
                return "remove"
            return "w" if any(self.inside(p) for p in ps) else ""
        if e.p1 and self.norm(e.p1) == LOCK and n in ("stat", "newfstatat", "statx", "lstat"):
            return "look"
        return ""

    def what(self):
        return self.kind(self.stop) if self.stop is not None else ""

    def go(self, cmd="g"):
        """Grants the system call at which it waits."""
        k = self.what()
        if cmd == "k":
            self.sched.log.append({"p": self.n, "e": "kill"})
        else:
            if cmd[0] == "f":
                self.sched.log.append({"p": self.n, "e": "fault"})
            elif k in ("w", "remove"):
                self.sched.log.append({"p": self.n, "e": "w" if k == "w" else "unlink"})
            self.calls.append(k)
        self.state, self.stop = "running", None
        self.replies.put(cmd)


class Sched:
    """Runs processes of which at most one goes on at any time."""

    def __init__(self, w):
        self.w = w
        self.log = []
        self.box = queue.Queue()
        self.procs = {}
        self.error = None

    def add(self, n, args, cwd="/"):
        self.procs[n] = Proc(self, n, args, cwd)

    def take(self, timeout):
        p, what, x = self.box.get(timeout=timeout)
        if what == "stop":
            p.state, p.stop = "stopped", x
        elif what == "end":
            p.state, p.exit = "over", x
            if x != 1009:
                self.log.append({"p": p.n, "e": "end", "x": x})
        else:
            p.state, self.error = "over", x

    def settle(self, p):
        """Waits until p has stopped again."""
        deadline = time.time() + PATIENCE
        while p.state == "running":
            left = deadline - time.time()
            if left <= 0:
                p.state = "stuck"
                self.log.append({"p": p.n, "e": "stuck"})
                return
            try:
                self.take(left)
            except queue.Empty:
                pass

    def step(self, p, cmd="g"):
        if p.state == "idle":
            p.start()
        elif p.state == "stopped":
            p.go(cmd)
        self.settle(p)

    def advance(self, p, marks):
        """One step, and on to the next mark."""
        self.step(p)
        while p.state == "stopped" and not marks(p):
            self.step(p)

    def finish(self, p):
        while p.state in ("idle", "stopped"):
            self.step(p)

    def close(self):
        for p in self.procs.values():
            if p.state == "stopped":
                p.go("k")
        deadline = time.time() + 100
        while any(p.state not in ("over", "idle") for p in self.procs.values()) and time.time() < deadline:
            try:
                self.take(5)
            except queue.Empty:
                for p in self.procs.values():
                    if p.state == "stopped":
                        p.go("k")
        for p in self.procs.values():
            if p.thread is not None:
                p.thread.join(10)


def arguments(cmd, spelling):
    return [spelling] + ([] if cmd == "backup" else [cmd])


SPELLINGS = [("/r", "/"), ("/r/", "/"), ("r", "/"), ("./r//", "/"), (".", "/r"), ("/alias", "/"), ("../r", "/r")]
COMMANDS = ["backup", "backup", "gc", "integrity", "0"]


def leftover(w, rng):
    f = w.path + "/r/lockfile"
    with open(f, "wb") as x:
        x.write(rng.choice([b"", b"", b"some text"]))
    os.chmod(f, rng.choice([0o220, 0o200, 0, 0o644]))
    os.chown(f, 100000 + rng.choice([0, 0, 1, 5]), 100000)


def marks_of(total):
    """Marks for three segments of work."""
    third = max(1, total // 3)

    def marks(p):
        k = p.what()
        if k == "w":
            done = sum(1 for x in p.calls if x == "w")
            return done == 0 or done % third == 0
        return k != ""
    return marks


def execute(ctx, base, plan, rng):
    """Runs a plan on a copy of the world.  -> case"""
    w = base.clone(tempfile.mktemp(prefix="l-", dir=ctx.scratch))
    s = Sched(w)
    try:
        os.symlink("r", w.path + "/alias")
        os.chown(w.path + "/alias", 100000, 100000, follow_symlinks=False)
        if plan["leftover"]:
            leftover(w, rng)
        for n, (cmd, (spelling, cwd)) in plan["procs"].items():
            s.add(int(n), arguments(cmd, spelling), cwd)
        ps = s.procs
        try:
            if plan["kind"] == "schedule":
                totals = {n: plan["work"].get(plan["procs"][str(n)][0], 30) for n in ps}
                for st in plan["steps"]:
                    p = ps[st["p"]]
                    if st["a"] == "kill":
                        if p.state == "stopped":
                            s.step(p, "k")
                    else:
                        s.advance(p, marks_of(totals[p.n]))
            else:
                # p1 until its k-th call, then the others, then the rest
                a = ps[1]
                s.step(a)
                for _ in range(plan["k"]):
                    s.step(a)
                if plan["kind"] == "kill":
                    if a.state == "stopped":
                        s.step(a, "k")
                for n in sorted(ps):
                    if n == 1:
                        continue
                    p = ps[n]
                    seen = 0
                    while p.state in ("idle", "stopped"):
                        k = p.what()
                        if n == 2 and k in ("open", "lock", "look", "unlock", "remove") and plan.get("fail"):
                            seen += 1
                            if seen == plan["fail"][0]:
                                s.step(p, "f %d" % plan["fail"][1])
                                continue
                        if n == 2 and k and plan.get("pause"):
                            seen += 1
                            if seen == plan["pause"]:
                                # back to the first one for a while
                                for _ in range(plan["then"]):
                                    s.step(a)
                        s.step(p)
            for n in sorted(ps):
                s.finish(ps[n])
        finally:
            s.close()
        if s.error:
            raise RuntimeError(s.error)
        log = squeeze(s.log)
        for args in (["/r", "integrity"], ["/r"]):
            if args[1:] and not os.path.exists(w.path + "/r/metadata"):
                continue
            r = w.run(args, b"y\n")
            if r.exit and not args[1:] and refuses(w):
                # the files are in a state in which no backup is possible
                log = [{"p": int(n), "e": "fault", "x": -1} for n, x in plan["procs"].items() if x[0] == "backup"] + log
                break
            log.append({"p": 0, "e": "after", "x": r.exit})
        exits = {n: p.exit for n, p in ps.items()}
        return {"ev": log, "exits": exits, "errs": {n: enc(p.err)[-300:] for n, p in ps.items()},
                "calls": {n: len(p.calls) for n, p in ps.items()},
                "work": {n: sum(1 for x in p.calls if x == "w") for n, p in ps.items()},
                "marks": {n: [k for k, x in enumerate(p.calls) if x not in ("", "w")] for n, p in ps.items()}}
    finally:
        w.close()


def refuses(w):
    """Would a new repository refuse to back this up, too?"""
    v = w.clone(w.path + "-new")
    try:
        for n in os.listdir(v.path + "/r"):
            if n != "config":
                f = v.path + "/r/" + n
                shutil.rmtree(f) if os.path.isdir(f) and not os.path.islink(f) else os.unlink(f)
        return v.run(["/r"], b"y\n").exit != 0
    finally:
        v.close()


def squeeze(log):
    """Without repetitions of work by the same process."""
    out = []
    for e in log:
        if e["e"] == "w" and len(out) > 1 and out[-1] == e and out[-2] == e:
            continue
        out.append(e)
    for e in out:
        e.setdefault("x", -1)
    return out


_SCHED = re.compile(r'^"SCHED (.*)"$')


def schedules(seed, num):
    """Behaviours of spec/Lock."""
    code, text = trace.tlc("LockGen.tla", "LockGen.cfg", {}, 1, 200,
                           extra=["-simulate", "num=%d" % num, "-depth", "70", "-seed", str(seed % 2000000000)])
    out = []
    for l in text.split("\n"):
        if l.startswith('"SCHED '):
            out.append(json.loads(json.loads(l)[6:]))
    if not out:
        raise trace.TlcError("no schedules: " + text[-1500:])
    return out


def judge(cases):
    fd, path = tempfile.mkstemp(prefix="nbv-lock-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"cases": [{"ev": c["ev"]} for c in cases]}, f)
        code, text = trace.tlc("LockTrace.tla", "LockTrace.cfg", {"TRACE": path}, 1, 300)
    finally:
        os.unlink(path)
    bad = [json.loads(json.loads(l)[9:]) for l in text.split("\n") if l.startswith('"MISMATCH ')]
    st = trace._STATS.search(text)
    if code != 0 or not st or int(st.group(2)) < sum(len(c["ev"]) for c in cases):
        raise trace.TlcError("TLC failed (%d): %s" % (code, text[text.find("Error:"):][:3000]))
    return bad, int(st.group(2))


def base_world(ctx, seed):
    for k in range(20):
        c = faults.make(ctx, "backup", seed + k, os.path.join(ctx.scratch, "lb-%d-%d" % (seed + k, os.getpid())))
        if c is not None and c.h.meta["ex"] and c.op == "backup" and not refuses(c.h.w):
            return c.h.w
        if c is not None:
            c.h.w.close()
    return None


FAILS = [errno.EACCES, errno.EIO, errno.EMFILE, errno.ENOSPC, errno.ENOLCK, errno.ENOENT]


def plans(ctx, base, seed, rng, scheds, most):
    """Plans for one world."""
    def procs(n):
        return {str(k): (rng.choice(COMMANDS), rng.choice(SPELLINGS) if rng.random() < 0.5 else SPELLINGS[0])
                for k in range(1, n + 1)}
    # every command alone, to know how long they take
    ref, out = {}, []
    for cmd in sorted(set(COMMANDS)):
        plan = {"kind": "schedule", "procs": {"1": (cmd, SPELLINGS[0])}, "leftover": rng.random() < 0.5, "steps": [],
                "work": {}}
        c = execute(ctx, base, plan, rng)
        ref[cmd] = c
        out.append((plan, c))
    work = {cmd: c["work"][1] for cmd, c in ref.items()}
    for s in scheds:
        st = s["s"]
        out.append(({"kind": "schedule", "procs": procs(3), "leftover": st[0]["a"] == "leftover", "steps": st[1:],
                     "work": work, "end": s["end"]}, None))
    for _ in range(most):
        ps = procs(rng.choice([2, 2, 3]))
        first = ref[ps["1"][0]]
        n = first["calls"][1]
        marks = first["marks"][1]
        k = rng.choice(marks) + rng.choice([0, 1]) if rng.random() < 0.5 else rng.randrange(n)
        plan = {"kind": rng.choice(["preempt", "preempt", "preempt", "kill"]), "procs": ps, "k": k,
                "leftover": rng.random() < 0.3}
        if rng.random() < 0.2:
            # only who merely reads can do without a lock, in a read-only repository
            changing = ps["2"][0] in ("backup", "gc")
            plan["fail"] = (rng.choice([1, 1, 2, 3, 4, 5, 6]), rng.choice(FAILS + [errno.EROFS] * 3 * changing))
        elif rng.random() < 0.5 and plan["kind"] == "preempt":
            plan["pause"] = rng.randrange(1, 9)
            plan["then"] = rng.choice([1, 2, 3, n, n, rng.randrange(1, n + 1)])
        out.append((plan, None))
    return out


def explore(ctx, seconds, offset=0):
    deadline = time.time() + seconds

    def job(n):
        seed = ctx.seed * 100000000 + offset * 1000000 + n * 40
        rng = random.Random("locks/%d" % seed)
        base = base_world(ctx, seed)
        if base is None:
            return None
        try:
            scheds = schedules(seed, 25)
            todo = plans(ctx, base, seed, rng, scheds, 25)
            cases = []
            same = 0
            for k, (plan, c) in enumerate(todo):
                if c is None:
                    if time.time() > deadline + 20:
                        break
                    c = execute(ctx, base, plan, random.Random("locks/%d/%d" % (seed, k)))
                if "end" in plan:
                    got = ["done" if x == 0 else "dead" if x == 1009 else "failed"
                           for _, x in sorted(c["exits"].items())]
                    same += got == plan["end"]
                cases.append((plan, c, k))
            bad, states = judge([c for _, c, _ in cases])
            kinds = {}
            for plan, c, _ in cases:
                for m, x in c["exits"].items():
                    key = "%s %s exit %s" % (plan["kind"], plan["procs"][str(m)][0], x)
                    kinds[key] = kinds.get(key, 0) + 1
            return {"cases": len(cases), "states": states, "events": sum(len(c["ev"]) for _, c, _ in cases),
                    "kinds": kinds, "same": same, "scheds": sum(1 for p, _, _ in cases if "end" in p),
                    "calls": sum(sum(c["calls"].values()) for _, c, _ in cases),
                    "bad": [dict(m, seed=seed, k=cases[m["c"] - 1][2], plan=cases[m["c"] - 1][0],
                                 log=cases[m["c"] - 1][1]) for m in bad],
                    "sample": {"plan": cases[-1][0], "events": cases[-1][1]["ev"][:30]}}
        finally:
            base.close()

    code, text = trace.tlc("Lock.tla", "Lock.cfg", {}, 4, 300)
    st = trace._STATS.search(text)
    if code != 0 or not st:
        raise trace.TlcError("Lock: " + text[-2000:])
    model = int(st.group(2))
    res = [r for r in par.run(job, deadline, first=par.CORES, enough=lambda r: bool(r and r["bad"])) if r]
    for i, err in par.run.errors:
        ctx.error("lock job %d: %s" % (i, err))
    out = {"cases": sum(r["cases"] for r in res), "states": sum(r["states"] for r in res), "model": model,
           "events": sum(r["events"] for r in res), "calls": sum(r["calls"] for r in res),
           "schedules": sum(r["scheds"] for r in res), "as_modelled": sum(r["same"] for r in res), "kinds": {},
           "samples": [r["sample"] for r in res][:2]}
    for r in res:
        for k, v in r["kinds"].items():
            out["kinds"][k] = out["kinds"].get(k, 0) + v
        for b in r["bad"]:
            if ctx.violations:
                continue
            data = {"kind": "lock", "seed": b["seed"], "k": b["k"], "plan": b["plan"], "label": b["label"], "log": b["log"]}
            if replay(ctx, data, quiet=True):
                ctx.violation("%s: process %s in %s" % (b["label"], b["p"], json.dumps(b["plan"])[:600]), data)
            else:
                ctx.note("not reproduced: %r" % data)
    return out


def replay(ctx, data, quiet=False):
    base = base_world(ctx, data["seed"])
    try:
        c = execute(ctx, base, data["plan"], random.Random("locks/%d/%d" % (data["seed"], data["k"])))
    finally:
        base.close()
    bad, _ = judge([c])
    if not quiet:
        for e in c["ev"]:
            print(e)
        print(c["exits"], c["errs"])
        for m in bad:
            print("MISMATCH", m)
    return any(m["label"] == data["label"] for m in bad)
