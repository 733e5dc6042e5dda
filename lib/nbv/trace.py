"""Histories of the real program and their validation by TLC (spec/Trace)."""
import json
import os
import posixpath
import re
import shutil
import subprocess
import tempfile

from . import meta as M
from . import regex
from .build import VERIF
from .enc import enc, dec, toks
from .world import HUGE, split_stored

_SPLIT = re.compile(r"\n")


class Stop(Exception):
    """The history cannot go on (already recorded as broken)."""


CREATING = os.O_CREAT | os.O_TRUNC
# system calls that change something: number of the paths they change
BY_PATH = {"rename": (1, 2), "renameat": (1, 2), "renameat2": (1, 2), "mkdir": (1,), "mkdirat": (1,), "rmdir": (1,),
           "unlink": (1,), "unlinkat": (1,), "link": (2,), "linkat": (2,), "symlink": (2,), "symlinkat": (2,),
           "mknod": (1,), "mknodat": (1,), "truncate": (1,), "chmod": (1,), "fchmodat": (1,), "fchmodat2": (1,),
           "chown": (1,), "lchown": (1,), "fchownat": (1,), "utime": (1,), "utimes": (1,), "futimesat": (1,),
           "utimensat": (1,), "setxattr": (1,), "lsetxattr": (1,), "removexattr": (1,), "lremovexattr": (1,),
           "creat": (1,)}
BY_FD = {"write", "pwrite64", "writev", "pwritev", "pwritev2", "ftruncate", "fallocate", "fchmod", "fchown", "fsetxattr",
         "fremovexattr"}


def effects(events, cwd):
    """What the system calls changed: [{p: path, n: name, b: before any answer was read}]."""
    out = []
    fds = {}
    asked = False

    def norm(p):
        return posixpath.normpath(posixpath.join(b"/", dec(cwd), p)).replace(b"//", b"/")

    def add(p, n):
        x = {"p": enc(p), "n": n, "b": not asked}
        if x not in out:
            out.append(x)
    for e in events:
        ok = e.ret is None or e.ret >= 0
        if e.name == "read" and e.args[0] == 0:
            asked = True
        if not ok:
            continue
        if e.name in ("open", "openat"):
            fds[e.ret] = norm(e.p1)
            if e.args[1 if e.name == "open" else 2] & CREATING:
                add(norm(e.p1), e.name)
        elif e.name in ("dup", "dup2", "dup3"):
            fds[e.ret] = fds.get(e.args[0])
        elif e.name == "fcntl" and e.args[1] in (0, 1030):
            fds[e.ret] = fds.get(e.args[0])
        elif e.name == "close":
            fds.pop(e.args[0], None)
        elif e.name in BY_FD or (e.name == "utimensat" and e.p1.startswith(b"\0")):
            p = fds.get(e.args[0])
            if p is not None:
                add(p, e.name)
        elif e.name in BY_PATH:
            for k in BY_PATH[e.name]:
                add(norm(e.p1 if k == 1 else e.p2), e.name)
    return out


class History:
    """Runs commands in a World and records them as events."""

    def __init__(self, world, name=""):
        self.w = world
        self.name = name
        self.events = []
        self.cmds = []       # for the replay file
        self.fs = {}
        self.repo = {}
        self.meta = M.NO_META
        self.regexes = set()
        self.broken = None
        self.pairs = {}      # (size, time) -> content
        self.natural = False  # timestamps are left as they are
        self.watch = False   # effects of single system calls are recorded
        self.linked = []     # paths having further hard links
        self.base = {}       # file system before the last restore
        self.user()

    def _observe(self, ev):
        fs = self.w.snapshot_fs()
        self.linked = sorted(enc(p) for p in self.w.linked)
        if fs != self.fs:
            ev["fs"] = fs
            self.fs = fs
        repo = self.w.snapshot_repo()
        if repo != self.repo:
            ev["repo"] = repo
            self.repo = repo
        meta, why = self.w.read_meta()
        if meta is None:
            if "tolerate" in ev:
                return
            ev["broke"] = "meta-unreadable"
            ev["why"] = why
            self.broken = ev["broke"]
        elif meta != self.meta:
            ev["meta"] = meta
            self.meta = meta

    def broke(self, label):
        self.events.append({"op": "user", "broke": label})
        self.broken = label
        raise Stop()

    def sync(self):
        """Another repository got everything from this one and took its place."""
        ev = {"op": "sync"}
        self._observe(ev)
        self.events.append(ev)
        if self.broken:
            raise Stop()

    def user(self):
        """Something else changed the file system or the repository."""
        some = False
        if not self.natural:
            self.w.stamp_now()
            some = self.settle()
        ev = {"op": "user"}
        self._observe(ev)
        self.events.append(ev)
        if self.broken:
            raise Stop()
        return some

    def settle(self):
        """Size and modification time together never denote two contents: nb
        does not notice such a change, by design.  -> True if changed"""
        some = False
        for p, st in self.w.snapshot_fs().items():
            if st["t"] == "reg" and self.pairs.setdefault((st["sz"], st["mt"]), st["c"]) != st["c"]:
                t = self.w.fresh_time()
                self.w.utime(p, t)
                self.pairs[(st["sz"], str(t))] = st["c"]
                some = True
        return some

    def write_config(self, data):
        path = self.w.path + "/r/config"
        try:
            with open(path, "rb") as f:
                if f.read() == data:
                    return
            if os.stat(path).st_nlink > 1:
                os.unlink(path)
        except OSError:
            pass
        with open(path, "wb") as f:
            f.write(data)
        os.chown(path, 100000, 100000)

    @staticmethod
    def config_lines(data):
        lines = data.split(b"\n")
        if lines and lines[-1] == b"":
            lines.pop()
        return [toks(l) for l in lines]

    def clone(self, path):
        """The history of a copy of the world, beginning now."""
        h = History(self.w.clone(path), self.name)
        h.pairs = dict(self.pairs)
        h.regexes = set(self.regexes)
        h.natural = True
        return h


    def _run(self, ev, args, stdin=b"", fault="", extra=None, around=None, **kw):
        if self.watch and "mode" not in kw:
            kw["mode"] = "trace"
        back = around() if around else (lambda: True)
        res = self.w.run(args, stdin, **kw)
        stuck = not back()
        if kw.get("mode") == "trace":
            ev["eff"] = effects(res.events, kw.get("cwd", "/"))
        ev["exit"] = res.exit
        if fault:
            ev["fault"] = fault
        ev.update(extra or {})
        text = res.out.split(b"\n")
        tail = text.pop()
        ev["out"] = [enc(l) for l in text] + ([enc(tail) + "%EOF"] if tail else [])
        said = res.err.split(b"\n")
        if not said[-1]:
            said.pop()
        ev["err"] = [enc(l) for l in said]
        ev["noout"] = bool(fault) or any("%0A" in p or "%0A" in st.get("tg", "") for p, st in self.fs.items()) \
            or any("%0A" in x["st"].get("tg", "") for m in self.meta["paths"].values() for x in m["hist"])
        ev["input"] = toks(stdin)
        self.cmds.append({"args": [a if isinstance(a, str) else enc(a) for a in args],
                          "stdin": enc(stdin), "exit": res.exit, "out": enc(res.out)[-2000:],
                          "err": enc(res.err)[-2000:]})
        if stuck:
            ev["broke"] = self.broken = "fail-repo"
        elif res.exit > 1 and not (fault == "kill" and res.exit == 1009):
            ev["broke"] = "timeout" if res.exit == 1999 else "crash"
            self.broken = ev["broke"]
        else:
            self._observe(ev)
        self.events.append(ev)
        if self.broken:
            raise Stop()
        return res

    def note_config(self, data):
        for line in data.split(b"\n"):
            self.regexes.add(line)
            for k in range(len(line)):
                if line[k:k + 1] == b"/" and not line.startswith(b"#"):
                    # regex elements: everything after a run of slashes
                    self.regexes.add(line[k + 1:])
                    for j in range(k + 1, len(line)):
                        if line[j:j + 1] == b"/":
                            self.regexes.add(line[k + 1:j])
            for part in line.split(b"/"):
                self.regexes.add(part)

    def backup(self, config, stdin=b"y\n", repo="/r", **kw):
        self.write_config(config)
        self.note_config(config)
        self.user()
        now = self.w.backup_time()
        ev = {"op": "backup", "config": self.config_lines(config), "now": str(now)}
        return self._run(ev, [repo], stdin, now=now, **kw)

    def gc(self, repo="/r", **kw):
        self.user()
        return self._run({"op": "gc"}, [repo, "gc"], **kw)

    def integrity(self, repo="/r", **kw):
        self.user()
        return self._run({"op": "integrity"}, [repo, "integrity"], **kw)

    def restore(self, ident, path=None, stdin=b"y\n", cwd="/", repo="/r", again=False, **kw):
        """path: None (everything) or the argument as given to nb."""
        if self.user():
            again = False
        arg = b"/" if path is None else dec(path)
        full = arg if arg.startswith(b"/") else dec(cwd).rstrip(b"/") + b"/" + arg
        full = full.rstrip(b"/")
        args = [repo, str(ident)] + ([] if path is None else [arg])
        # ids beyond every backup are all the same to the specification
        ev = {"op": "restore", "id": min(int(ident), 1000000), "path": enc(full)}
        if again:
            ev["again"] = True
            ev["base"] = self.base
        self.base = self.fs
        ev["linked"] = self.linked
        return self._run(ev, args, stdin, cwd=cwd, **kw)

    def refused(self, args, stdin=b"y\n", around=None, **kw):
        """around puts something in the way and returns a function removing it."""
        self.user()
        return self._run({"op": "refused"}, args, stdin, around=around, **kw)


# -- tables ----------------------------------------------------------------
def _link_target(c, tg):
    t = dec(tg)
    base = dec(c.rsplit("/", 1)[0] or "/")
    return enc(posixpath.normpath(posixpath.join(base, t)).rstrip(b"/"))


def _prefixes(paths):
    for p in list(paths):
        while "/" in p:
            paths.add(p)
            p = p.rsplit("/", 1)[0]
    paths.discard("")


def _history_paths(h):
    """Every path which may play a role in a history, also those that lead
    through symlinks."""
    total = set()
    fs, meta = {}, M.NO_META
    for ev in h.events:
        fs = ev.get("fs", fs)
        meta = ev.get("meta", meta)
        here = set(fs) | set(meta["paths"])
        for mid in ev.get("mids", ()):
            here |= set(mid)
        if ev["op"] == "restore" and ev["path"]:
            here.add(ev["path"])
        links = [(p, _link_target(p, st["tg"])) for p, st in fs.items() if st["t"] == "lnk"]
        for _ in range(2):
            more = set()
            for p, t in links:
                for q in here:
                    if q.startswith(t + "/") or t == "":
                        more.add(p + q[len(t):])
                    if q.startswith(p + "/"):
                        more.add(t + q[len(p):])
            more = {q for q in more if len(q) < 700 and q.count("/") < 9}
            here |= more
            if len(here) > 2500:
                break
        total |= here
    _prefixes(total)
    return total


def tables(hists, weak):
    paths = set()
    repo_paths = set()
    sizes = set()
    follow = {}
    for h in hists:
        paths |= _history_paths(h)
        for ev in h.events:
            if "fs" in ev or "mids" in ev:
                states = [x for f in [ev.get("fs", {})] + ev.get("mids", []) for x in f.items()]
                for p, st in states:
                    if st["t"] == "lnk":
                        follow.setdefault(p, {})[st["tg"]] = None
                    elif st["t"] == "reg":
                        sizes.add(st["sz"])
            if "repo" in ev:
                repo_paths.update(ev["repo"])
            if "meta" in ev:
                for e in ev["meta"]["paths"].values():
                    for x in e["hist"]:
                        if x["st"]["t"] == "reg":
                            sizes.add(x["st"]["sz"])
    for p in follow:
        for tg in follow[p]:
            t = _link_target(p, tg)
            follow[p][tg] = t if t == "" or t in paths else "?"
    par = {p: p.rsplit("/", 1)[0] for p in paths}
    nm = {p: p.rsplit("/", 1)[1] for p in paths}
    regs = set()
    for h in hists:
        regs |= h.regexes
    rxok, rx = {}, {}
    strings = [(s, dec(s)) for s in paths | set(nm.values())]
    for r in regs:
        rxok[enc(r)] = regex.ok(r)
        if rxok[enc(r)]:
            rx[enc(r)] = {s: regex.match(r, d) for s, d in strings}
    for p in list(repo_paths):
        while "/" in p:
            p = p.rsplit("/", 1)[0]
            repo_paths.add(p)
    # names under which states in the metadata expect their content
    refs = set()
    for h in hists:
        for ev in h.events:
            if "meta" in ev:
                for e in ev["meta"]["paths"].values():
                    for x in e["hist"]:
                        st = x["st"]
                        if st["t"] == "reg" and st["sz"] > 20:
                            refs.add("%sx%xx%s" % (st["k"], st["sz"], st["sl"]))
    for p in list(refs):
        while p:
            repo_paths.add(p)
            p = p.rsplit("/", 1)[0] if "/" in p else ""
    repo_paths |= {"config", "metadata"}
    return {
        "par": par, "nm": nm, "rxok": rxok, "rx": rx,
        "follow": follow, "hex": {str(n): "%x" % n for n in sizes},
        "rpar": {p: (p.rsplit("/", 1)[0] if "/" in p else "") for p in repo_paths},
        "rsplit": {p: split_stored(p) for p in repo_paths},
        "huge": {str(i): {"m": n >> 20, "b": n & 0xfffff} for n, i in HUGE.items()},
        "weak": weak,
        "hist": [h.events for h in hists],
    }


JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


Timeout = subprocess.TimeoutExpired


def tlc(module, cfg, env=None, workers=1, timeout=600, extra=(), heap="2g", cwd=None):
    """-> stdout lines; raises TlcError."""
    tmp = tempfile.mkdtemp(prefix="nbv-tlc-")
    try:
        e = dict(os.environ)
        e.update(env or {})
        # short runs, many at once: the optimising compiler would only cost time
        short = "-XX:TieredStopAtLevel=1 -XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=%s -Xmx%s -Xss16m" % (tmp, heap)
        r = subprocess.run(["java"] + short.split() + ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", tmp, "-noGenerateSpecTE"] + list(extra)
                           + ["-config", cfg, module],
                           cwd=cwd or VERIF + "/spec", env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = r.stdout.decode("utf-8", "replace")
        return r.returncode, text
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def validate(hists, weak=False, workers=1, timeout=600):
    """-> (mismatches, stats): mismatches are dicts with h (0-based), i, op,
    label, detail."""
    d = tables(hists, weak)
    fd, path = tempfile.mkstemp(prefix="nbv-trace-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(d, f)
        code, text = tlc("Trace.tla", "Trace.cfg", {"TRACE": path}, workers, timeout)
    finally:
        os.unlink(path)
    bad = []
    for line in text.split("\n"):
        if line.startswith('"MISMATCH '):
            m = json.loads(json.loads(line)[9:])
            m["h"] -= 1
            bad.append(m)
    st = _STATS.search(text)
    total = sum(len(h.events) for h in hists)
    if code != 0 or not st or int(st.group(2)) < total:
        raise TlcError("TLC failed (%d): %s" % (code, text[text.find("Error:"):][:3000]))
    return bad, {"states": int(st.group(2)), "events": total}
