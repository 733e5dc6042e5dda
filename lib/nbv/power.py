"""Component for power failures: the system calls of a backup or garbage
collection are recorded, and replayed by TLC on the specification of a disk
(spec/Disk) which may lose whatever has not been synchronised."""
import json
import os
import posixpath
import random
import shutil
import tempfile
import time

from . import faults, par, trace
from .enc import enc
from .trace import Stop

SYNCING = os.O_SYNC | os.O_DSYNC


def ops_of(w, base, events, cwd=b"/"):
    """Changes of the repository directory made by the system calls.
    base: snapshot of the repository before.  -> (ops, unknown)"""
    ops = []
    ino = {}          # path -> inode number (a string)
    data = {}         # inode -> bytearray
    for n, (p, st) in enumerate(sorted(base.items())):
        ino[p] = "dir" if st["t"] == "dir" else "b%d" % n
    fds = {}          # fd -> ("file", inode, [offset], sync) or ("dir", path)
    count = [0]
    unknown = []
    root = os.fsencode(w.path)

    def rel(p):
        """path in the repository, None outside"""
        q = posixpath.normpath(posixpath.join(cwd, p))
        if q.startswith(b"//"):
            q = q[1:]
        if q == b"/r":
            return ""
        if q.startswith(b"/r/"):
            return enc(q[3:])
        return None

    def fresh():
        count[0] += 1
        return "n%d" % count[0]

    def bytes_of(i, p):
        if i not in data:
            data[i] = None  # content of before, not known here
        return data[i]

    def name(i):
        x = data.get(i)
        if x is None:
            return "unknown"
        x = bytes(x)
        return "%sx%x" % (w.key(x), len(x))

    def op(e, **kw):
        kw["n"] = "%d:%s %s" % (e.idx, e.name, enc(e.p1)[:60])
        ops.append(kw)

    def removed(p):
        ino.pop(p, None)

    for e in events:
        if e.ret is None or e.ret < 0:
            continue
        n = e.name
        a = e.args
        if n in ("open", "openat", "creat"):
            p = rel(e.p1)
            if p is None:
                fds.pop(e.ret, None)
                continue
            flags = {"open": a[1], "openat": a[2]}.get(n, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            if p == "" or ino.get(p) == "dir":
                fds[e.ret] = ("dir", p)
                continue
            if p not in ino:
                if not flags & os.O_CREAT:
                    fds.pop(e.ret, None)
                    continue
                ino[p] = fresh()
                data[ino[p]] = bytearray()
                op(e, op="create", p=p, i=ino[p])
            elif flags & os.O_TRUNC and flags & 3:
                data[ino[p]] = bytearray()
                op(e, op="dirty", i=ino[p])
            fds[e.ret] = ("file", ino[p], [0], flags)
        elif n in ("dup", "dup2", "dup3"):
            if a[0] in fds:
                fds[e.ret] = fds[a[0]]
        elif n == "fcntl" and a[1] in (0, 1030):
            if a[0] in fds:
                fds[e.ret] = fds[a[0]]
        elif n == "close":
            fds.pop(a[0], None)
        elif n == "lseek":
            if a[0] in fds and fds[a[0]][0] == "file":
                fds[a[0]][2][0] = e.ret
        elif n in ("write", "pwrite64", "writev"):
            f = fds.get(a[0])
            if f is None or f[0] != "file":
                continue
            buf = data.get(f[1])
            got = e.p2[:e.ret]
            if len(got) != e.ret:
                unknown.append(e)
            if buf is None:
                buf = data[f[1]] = bytearray()
                unknown.append(e)
            at = a[3] if n == "pwrite64" else len(buf) if f[3] & os.O_APPEND else f[2][0]
            if at > len(buf):
                buf.extend(bytes(at - len(buf)))
            buf[at:at + e.ret] = got
            if n != "pwrite64":
                f[2][0] = at + e.ret
            op(e, op="dirty", i=f[1])
            if f[3] & SYNCING & ~os.O_NONBLOCK and (f[3] & os.O_DSYNC):
                op(e, op="sync", i=f[1], c=name(f[1]))
        elif n in ("read", "readv"):
            f = fds.get(a[0])
            if f is not None and f[0] == "file":
                f[2][0] += e.ret
        elif n == "ftruncate":
            f = fds.get(a[0])
            if f is not None and f[0] == "file":
                buf = data.get(f[1])
                if buf is not None:
                    del buf[a[1]:]
                    buf.extend(bytes(a[1] - len(buf)))
                op(e, op="dirty", i=f[1])
        elif n in ("fsync", "fdatasync"):
            f = fds.get(a[0])
            if f is None:
                continue
            if f[0] == "dir":
                op(e, op="syncdir", p=f[1])
            else:
                op(e, op="sync", i=f[1], c=name(f[1]))
        elif n in ("sync", "syncfs"):
            op(e, op="syncall", l=[{"i": i, "c": name(i)} for i in data if data[i] is not None])
        elif n in ("rename", "renameat", "renameat2", "link", "linkat"):
            p, q = rel(e.p1), rel(e.p2)
            if p is None or q is None or p not in ino:
                if q is not None:
                    ino[q] = fresh()
                    op(e, op="create", p=q, i=ino[q])
                continue
            if n.startswith("rename"):
                ino[q] = ino.pop(p)
                op(e, op="move", p=p, q=q)
            else:
                ino[q] = ino[p]
                op(e, op="link", p=p, q=q)
        elif n in ("unlink", "unlinkat", "rmdir"):
            p = rel(e.p1)
            if p is not None:
                removed(p)
                op(e, op="remove", p=p)
        elif n in ("mkdir", "mkdirat"):
            p = rel(e.p1)
            if p is not None:
                ino[p] = "dir"
                op(e, op="mkdir", p=p)
        elif n in ("symlink", "symlinkat", "mknod", "mknodat"):
            p = rel(e.p2 if n.startswith("sym") else e.p1)
            if p is not None:
                ino[p] = fresh()
                op(e, op="create", p=p, i=ino[p])
        elif n in ("sendfile", "copy_file_range", "splice", "pwritev", "pwritev2", "truncate", "fallocate"):
            unknown.append(e)
    return ops, unknown


def refs_of(meta):
    out = {}
    for x in meta["paths"].values():
        for y in x["hist"]:
            st = y["st"]
            if st["t"] == "reg" and st["sz"] > 20:
                out["%sx%xx%s" % (st["k"], st["sz"], st["sl"])] = "%sx%x" % (st["k"], st["sz"])
    return [{"p": p, "c": c} for p, c in sorted(out.items())]


def label_of(st):
    return "dir" if st["t"] == "dir" else "%sx%x" % (st["k"], st["sz"]) if st["t"] == "reg" else st["t"]


def make_case(ctx, kind, seed, path):
    """-> (case for the specification, description) or None"""
    c = faults.make(ctx, kind, seed, path)
    try:
        if c is None:
            return None
        before = dict(c.h.repo)
        old = c.h.meta
        h = c.h
        try:
            res = faults.command(h, c, mode="trace", timeout=60)
        except Stop:
            return None
        if "config" not in before or before["config"]["t"] != "reg":
            return None
        ops, unknown = ops_of(h.w, before, res.events, os.fsencode(c.kw.get("cwd", "/")))
        if unknown:
            return {"unknown": repr(unknown[0])[:200]}, c
        ops.append({"op": "end", "n": "exit %s" % res.exit})
        cur, data = {}, {}
        for n, (p, st) in enumerate(sorted(before.items())):
            cur[p] = "dir" if st["t"] == "dir" else "b%d" % n if p != "config" else label_of(st)
            if cur[p] != "dir":
                data[cur[p]] = label_of(st)
        metas = {}
        oldname = label_of(before["metadata"]) if old["ex"] else "none"
        metas[oldname] = refs_of(old)
        newname = label_of(h.repo["metadata"]) if h.meta["ex"] else "none"
        metas[newname] = refs_of(h.meta)
        return {"cur": cur, "data": data, "ops": ops, "metas": metas, "new": newname, "exit": res.exit,
                "cmds": h.cmds[-1:]}, c
    finally:
        if c is not None:
            c.h.w.close()
        shutil.rmtree(path, ignore_errors=True)


def dirs_of(cases):
    out = {}

    def add(p):
        while p not in out:
            d = p.rsplit("/", 1)[0] if "/" in p else ""
            out[p] = d
            if d == "":
                break
            p = d
    for p in ("metadata", "config"):
        add(p)
    for c in cases:
        for p in c["cur"]:
            add(p)
        for o in c["ops"]:
            for k in ("p", "q"):
                if o.get(k):
                    add(o[k])
        for refs in c["metas"].values():
            for r in refs:
                add(r["p"])
    return out


def judge(cases):
    fd, path = tempfile.mkstemp(prefix="nbv-power-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"cases": [{k: v for k, v in c.items() if k != "cmds"} for c in cases],
                       "dirof": dirs_of(cases)}, f)
        code, text = trace.tlc("Power.tla", "Power.cfg", {"TRACE": path}, 1, 400)
    finally:
        os.unlink(path)
    bad = [json.loads(json.loads(l)[9:]) for l in text.split("\n") if l.startswith('"MISMATCH ')]
    st = trace._STATS.search(text)
    if code != 0 or not st or int(st.group(2)) < sum(len(c["ops"]) for c in cases):
        raise trace.TlcError("TLC failed (%d): %s" % (code, text[text.find("Error:"):][:3000]))
    return bad, int(st.group(2))


# steps of the protocol without which it has to fail
NEEDED = ["data", "metadata", "dir2", "entry", "metatop", "top"]


def protocol(ctx):
    """Checks spec/Writer exhaustively, and that leaving out any necessary
    step breaks it.  -> number of states"""
    with open(trace.VERIF + "/spec/Writer.cfg") as f:
        cfg = f.read()
    states = 0
    for omit in ["none"] + NEEDED:
        path = os.path.join(ctx.scratch, "Writer-%s.cfg" % omit)
        with open(path, "w") as f:
            f.write(cfg.replace('"none"', '"%s"' % omit))
        code, text = trace.tlc("Writer.tla", path, {}, 1, 200)
        st = trace._STATS.search(text)
        if omit == "none":
            if code != 0 or not st:
                raise trace.TlcError("Writer: " + text[-2000:])
            states = int(st.group(2))
        elif "is violated" not in text:
            raise trace.TlcError("Writer holds without %s: %s" % (omit, text[-2000:]))
    return states


KINDS = {"backup": 5, "bigbackup": 3, "busy": 3, "gc": 2}


def explore(ctx, seconds, offset=0, per=24):
    deadline = time.time() + seconds
    names = list(KINDS)
    model = protocol(ctx)

    def job(n):
        rng = random.Random("power/%d/%d/%d" % (ctx.seed, offset, n))
        cases, ids = [], []
        unknown = 0
        for k in range(per):
            kind = rng.choices(names, [KINDS[x] for x in names])[0]
            seed = ctx.seed * 100000000 + offset * 1000000 + n * per + k
            x = make_case(ctx, kind, seed, os.path.join(ctx.scratch, "p-%d-%d" % (seed, os.getpid())))
            if x is None:
                continue
            if "unknown" in x[0]:
                unknown += 1
                continue
            cases.append(x[0])
            ids.append((kind, seed))
        if not cases:
            return {"cases": 0, "states": 0, "ops": 0, "bad": [], "unknown": unknown, "kinds": {}, "sample": None}
        bad, states = judge(cases)
        kinds = {}
        for c, (kind, _) in zip(cases, ids):
            key = "%s exit %s%s" % (kind, c["exit"], "" if c["new"] == list(c["metas"])[0] else " new metadata")
            kinds[key] = kinds.get(key, 0) + 1
        return {"cases": len(cases), "states": states, "ops": sum(len(c["ops"]) for c in cases), "unknown": unknown,
                "kinds": kinds, "bad": [dict(m, kind=ids[m["c"] - 1][0], seed=ids[m["c"] - 1][1],
                                             cmds=cases[m["c"] - 1]["cmds"]) for m in bad],
                "sample": {"id": ids[0], "calls": [o["n"] for o in cases[0]["ops"]][:12]}}

    res = par.run(job, deadline, first=par.CORES, enough=lambda r: bool(r["bad"]))
    for i, err in par.run.errors:
        ctx.error("power job %d: %s" % (i, err[-700:]))
    out = {"model": model, "cases": sum(r["cases"] for r in res), "states": sum(r["states"] for r in res),
           "ops": sum(r["ops"] for r in res), "unknown": sum(r["unknown"] for r in res), "kinds": {},
           "samples": [r["sample"] for r in res if r["sample"]][:2]}
    for r in res:
        for k, v in r["kinds"].items():
            out["kinds"][k] = out["kinds"].get(k, 0) + v
        for b in r["bad"]:
            if ctx.violations:
                continue
            data = {"kind": "power", "scenario": b["kind"], "seed": b["seed"], "label": b["label"], "call": b["call"],
                    "commands": b["cmds"]}
            if replay(ctx, data, quiet=True):
                ctx.violation("%s: %s, power failure after %s" % (b["label"], b["kind"], b["call"]), data)
            else:
                ctx.note("not reproduced: %r" % data)
    return out


def replay(ctx, data, quiet=False):
    x = make_case(ctx, data["scenario"], data["seed"], os.path.join(ctx.scratch, "replay"))
    if x is None or "unknown" in x[0]:
        return False
    bad, _ = judge([x[0]])
    if not quiet:
        for o in x[0]["ops"]:
            print(o["n"], {k: v for k, v in o.items() if k != "n"})
        for m in bad:
            print("MISMATCH", m)
    return any(m["label"] == data["label"] for m in bad)
