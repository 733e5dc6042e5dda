"""Component for damaged metadata: commands of the real program run on altered
metadata files; TLC decides by spec/MetaFormat whether each file is well-formed
and what the commands may do then."""
import json
import os
import random
import shutil
import struct
import tempfile
import time

from . import gen, par, trace
from .histories import profile
from .trace import History, Stop
from .world import World

PROF = profile(steps=(2, 4), ops={"backup": 1}, consent=0.0, odd_config=0.0, odd_names=0.05, mutations=(1, 4),
               foreign=0.0, links=0.2, others=0.0, policies=["copy", "mirror", "track", "track", "track"],
               config_change=0.3, config_reset=0.0)


class Fields:
    """The fields of a well-formed metadata file: (offset, length, kind)."""

    def __init__(self, data):
        self.d, self.i, self.f, self.items = data, 0, [], []
        n = self.num("backups", 8)
        for _ in range(n):
            self.num("time", 8)
        self.hist()
        self.num("total", 8)
        self.paths()

    def num(self, kind, n):
        if self.i + n > len(self.d):
            raise ValueError("truncated")
        self.f.append((self.i, n, kind))
        v = int.from_bytes(self.d[self.i:self.i + n], "little")
        self.i += n
        return v

    def hist(self):
        for _ in range(self.num("points", 8)):
            a = self.i
            self.num("id", 8)
            t = self.num("type", 1)
            if t:
                self.num("owner", 4)
                self.num("owner", 4)
            if t == 1:
                self.num("mode", 4)
                self.num("time", 8)
                sz = self.num("size", 8)
                if sz > 20:
                    self.num("hash", 20)
                    self.num("slot", 1)
                elif sz:
                    self.num("content", sz)
            elif t == 2:
                self.num("target", self.num("length", 8))
            elif t == 3:
                self.num("mode", 4)
                self.num("time", 8)
            self.items.append((a, self.i, "point"))

    def paths(self):
        for _ in range(self.num("paths", 8)):
            a = self.i
            self.num("name", self.num("length", 8))
            self.num("policy", 1)
            h = self.i
            self.hist()
            self.items.append((h, self.i, "history"))
            h = self.i
            self.paths()
            self.items.append((h, self.i, "subtree"))
            self.items.append((a, self.i, "path"))


COUNTS = {"backups", "points", "paths", "length", "size", "total", "id"}
NAMES = [b"", b".", b"..", b"/", b"\0", b"a/b", b"a\0", b"...", b"/a", b"a/", b"\0\0", b".\0", b"./", b"x", b"..a"]
HUGE = [2**64 - 1, 2**63, 2**32, 2**31, 2**40, 2**62, 2**64 - 8, 2**61]


def alter(r, data):
    """-> (altered bytes, description)"""
    f = Fields(data)
    x = r.random()
    if x < 0.08:
        n = r.randrange(len(data))
        return data[:n], "cut to %d of %d" % (n, len(data))
    if x < 0.13:
        tail = r.choice([b"\0", b"\n", b"x", bytes(8), data[:8], data[-8:], bytes([r.randrange(256)]), b"\0" * 4096])
        return data + tail, "appended %r" % tail[:9]
    if x < 0.16:
        return data[r.randint(1, 9):], "beginning cut"
    if x < 0.32:
        # the name of a path, length adjusted
        names = [k for k in range(1, len(f.f)) if f.f[k][2] == "name"]
        k = r.choice(names)
        a, n, _ = f.f[k]
        new = r.choice(NAMES)
        if r.random() < 0.3:
            new = bytearray(data[a:a + n])
            if new:
                new[r.randrange(len(new))] = r.choice([0, 47])
            new = bytes(new)
        return (data[:a - 8] + struct.pack("<Q", len(new)) + new + data[a + n:],
                "name %r at %d becomes %r" % (data[a:a + n], a, new))
    if x < 0.38:
        # a path without history
        hs = [it for it in f.items if it[2] == "history"]
        a, b, _ = r.choice(hs)
        return data[:a] + bytes(8) + data[b:], "no history at %d" % a
    if x < 0.45:
        # something left out or twice, with its count wrong or right
        a, b, k = r.choice(f.items)
        y = r.random()
        if y < 0.5:
            return data[:a] + data[b:], "%s at %d left out" % (k, a)
        return data[:b] + data[a:b] + data[b:], "%s at %d twice" % (k, a)
    if x < 0.75:
        kinds = sorted({k for _, n, k in f.f if n})
        kind = r.choice([k for k in kinds if k in COUNTS or k in ("type", "policy")] if r.random() < 0.85 else kinds)
        a, n, _ = r.choice([y for y in f.f if y[2] == kind and y[1]])
        old = int.from_bytes(data[a:a + n], "little")
        if kind == "id":
            nb = int.from_bytes(data[:8], "little")
            new = r.choice([nb, nb, nb + 1, max(0, nb - 1), 0, 1, 2**64 - 1, 2**32, old + 2**32, 2**63])
        elif kind in ("type", "policy"):
            new = r.choice([0, 1, 2, 3, 4, 4, 5, 127, 128, 255])
        elif kind in COUNTS:
            new = r.choice([old + 1, max(0, old - 1), 0, 1, 20, 21, old + 2**32, old + 2**63] + HUGE)
        else:
            new = r.randrange(256 ** min(n, 8))
        new %= 256 ** n
        return data[:a] + new.to_bytes(n, "little") + data[a + n:], "%s at %d: %d becomes %d" % (kind, a, old, new)
    out = bytearray(data)
    for _ in range(r.choice([1, 1, 1, 2, 5, 20])):
        k = r.randrange(len(out))
        out[k] = r.choice([0, 1, 255, out[k] ^ (1 << r.randrange(8)), r.randrange(256), 47, 46])
    return bytes(out), "bytes changed"


def chain(r, data):
    """Adds directories nested very deeply. -> (altered bytes, description, chain)"""
    f = Fields(data)
    a = [y for y in f.f if y[2] == "paths"][0][0]
    depth, n = r.choice([(3, 1), (300, 200), (1000, 255), (2047, 1), (3000, 1), (20000, 1), (60000, 1), (100000, 3)])
    hist = struct.pack("<QQBIIIq", 1, 0, 3, 0, 0, 0o40755, 1)
    one = struct.pack("<Q", n) + b"~" * n + bytes([r.randrange(4)]) + hist
    out = bytearray(data)
    out[a:a + 8] = struct.pack("<Q", int.from_bytes(data[a:a + 8], "little") + 1)
    out += (one + struct.pack("<Q", 1)) * (depth - 1) + one + bytes(8)
    cut = r.random() < 0.2
    if cut:
        del out[-r.randint(1, 20):]
    return bytes(out), "%d directories below each other, names of %d%s" % (depth, n, ", cut" * cut), {"cut": cut}


def signature(root):
    """{path: what changes when anything changes}"""
    out = {}
    stack = [os.fsencode(root)]
    while stack:
        d = stack.pop()
        for e in os.scandir(d):
            st = e.stat(follow_symlinks=False)
            p = e.path[len(root):]
            if p == b"/r/lockfile":
                continue
            out[p] = (st.st_ino, st.st_mode, st.st_uid, st.st_gid) + (
                () if p == b"/r" else (st.st_size, st.st_mtime_ns, st.st_ctime_ns))
            if e.is_dir(follow_symlinks=False):
                stack.append(e.path)
    return out


class Scene:
    """A repository with some history, and files to be backed up or restored."""

    def __init__(self, ctx, seed, path):
        self.ctx, self.path = ctx, path
        self.rng = random.Random("damage/%d" % seed)
        w = World(path, ctx.nb, ctx.nbx)
        self.w = w
        self.ok = False
        h = History(w, str(seed))
        try:
            g = gen.Gen(w, self.rng, PROF)
            g.history(h)
            for _ in range(3):
                g.mutate()
            h.user()
        except Stop:
            return
        if not h.meta["ex"] or not h.meta["paths"]:
            return
        with open(path + "/r/metadata", "rb") as f:
            self.data = f.read()
        self.ok = len(self.data) < 4000
        self.cfg = os.path.exists(path + "/r/config")

    def case(self, data, desc, ops):
        """Runs the commands with data as metadata. -> case for the specification"""
        c = {"bytes": list(data), "runs": [], "desc": desc}
        for op in ops:
            cp = self.path + "-c"
            if not os.path.isdir(cp):
                self.copy = self.w.clone(cp)
                self.base = None
            m = cp + "/r/metadata"
            with open(m, "wb") as f:
                f.write(data)
            os.chown(m, 100000, 100000)
            if os.path.lexists(cp + "/r/lockfile"):
                os.unlink(cp + "/r/lockfile")
            before = signature(cp)
            res = self.copy.run(["/r"] + op, b"y\n", now=str(self.w.stamp + 100))
            after = signature(cp)
            diff = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
            stored = {p for p in diff if p.startswith(b"/r/") and p in before and p != b"/r/metadata"
                      and (before[p][1] & 0o170000) == 0o100000}
            c["runs"].append({"op": " ".join(op) or "backup", "exit": res.exit, "meta": b"/r/metadata" in diff,
                              "store": bool(stored), "extra": any(p.startswith(b"/r/") for p in diff),
                              "fs": any(not (p == b"/r" or p.startswith(b"/r/")) for p in diff),
                              "original": data == self.data, "err": res.err[-200:].decode("latin1")})
            if diff:
                shutil.rmtree(cp)
        return c

    def close(self):
        self.w.close()
        shutil.rmtree(self.path + "-c", ignore_errors=True)


OPS = [[], ["gc"], ["integrity"], ["0"]]


def judge(cases):
    """-> (mismatches, verdicts, states)"""
    fd, path = tempfile.mkstemp(prefix="nbv-damage-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"cases": [{**({"chain": c["chain"]} if "chain" in c else {}), "bytes": c["bytes"], "runs": [{k: v for k, v in x.items() if k not in ("err", "op")}
                                                                for x in c["runs"]]} for c in cases]}, f)
        code, text = trace.tlc("Damage.tla", "Damage.cfg", {"TRACE": path}, 1, 300)
    finally:
        os.unlink(path)
    bad, verdicts = [], {}
    for line in text.split("\n"):
        if line.startswith('"MISMATCH '):
            m = json.loads(json.loads(line)[9:])
            bad.append(m)
        elif line.startswith('"VERDICT '):
            m = json.loads(json.loads(line)[8:])
            verdicts[m["c"]] = m["v"]
    st = trace._STATS.search(text)
    if code != 0 or not st or len(verdicts) != len(cases):
        raise trace.TlcError("TLC failed (%d): %s" % (code, text[text.find("Error:"):][:3000]))
    return bad, verdicts, int(st.group(2))


def job_cases(ctx, seed, count, sweep):
    path = os.path.join(ctx.scratch, "d-%d-%d" % (seed, os.getpid()))
    s = Scene(ctx, seed, path)
    cases = []
    try:
        if not s.ok:
            return []
        r = s.rng
        cases.append(s.case(s.data, "unaltered", OPS[1:3]))
        for k in range(count):
            if sweep and k < len(s.data):
                # every length
                data, desc = s.data[:k], "cut to %d of %d" % (k, len(s.data))
                ops = [OPS[k % 4]]
            else:
                data, desc = alter(r, s.data)
                if r.random() < 0.15:
                    try:
                        data, d2 = alter(r, data)
                        desc += ", " + d2
                    except (IndexError, ValueError, OverflowError):
                        pass
                ops = r.sample(OPS, r.choice([1, 2, 4]))
            if data == s.data or len(data) > 9000:
                continue
            cases.append(s.case(data, desc, ops))
        if seed % 3 == 0:
            data, desc, ch = chain(r, s.data)
            c = s.case(data, desc, r.sample(OPS[:3], 2))  # restoring it is beyond Python
            c["bytes"], c["chain"] = list(s.data), ch
            cases.append(c)
        return cases
    finally:
        s.close()


def explore(ctx, seconds, offset=0, per=120):
    deadline = time.time() + seconds

    def job(n):
        seed = ctx.seed * 100000000 + offset * 1000000 + n
        cases = job_cases(ctx, seed, per, n % 4 == 0)
        if not cases:
            return None
        bad, verdicts, states = judge(cases)
        out = {"cases": len(cases), "states": states, "runs": sum(len(c["runs"]) for c in cases), "verdicts": {},
               "bad": [], "exits": {}}
        for v in verdicts.values():
            out["verdicts"][v or "well-formed"] = out["verdicts"].get(v or "well-formed", 0) + 1
        for c in cases:
            for x in c["runs"]:
                k = "%s exit %s" % (x["op"], x["exit"])
                out["exits"][k] = out["exits"].get(k, 0) + 1
        for m in bad:
            c = cases[m["c"] - 1]
            out["bad"].append({"seed": seed, "sweep": n % 4 == 0, "case": m["c"] - 1, "label": m["label"], "why": m["why"],
                               "desc": c["desc"], "run": c["runs"][m["i"] - 1], "metadata": bytes(c["bytes"]).hex()})
        out["sample"] = {"seed": seed, "file": cases[-1]["desc"], "verdict": verdicts[len(cases)],
                         "runs": [(x["op"], x["exit"], x["err"].strip()) for x in cases[-1]["runs"]]}
        return out

    res = [r for r in par.run(job, deadline, first=par.CORES, enough=lambda r: bool(r and r["bad"])) if r]
    for i, err in par.run.errors:
        ctx.error("damage job %d: %s" % (i, err))
    out = {"files": sum(r["cases"] for r in res), "states": sum(r["states"] for r in res),
           "runs": sum(r["runs"] for r in res), "verdicts": {}, "exits": {}, "samples": [r["sample"] for r in res[:2]]}
    for r in res:
        for key in ("verdicts", "exits"):
            for k, v in r[key].items():
                out[key][k] = out[key].get(k, 0) + v
        for b in r["bad"]:
            if ctx.violations:
                continue
            data = dict(b, kind="damage", per=per)
            if replay(ctx, data, quiet=True):
                ctx.violation("%s: %s of a metadata file (%s; %s): exit %s" % (
                    b["label"], b["run"]["op"], b["desc"], b["why"] or "well-formed", b["run"]["exit"]), data)
            else:
                ctx.note("not reproduced: %r" % {k: b[k] for k in ("seed", "label", "desc")})
    return out


def replay(ctx, data, quiet=False):
    cases = job_cases(ctx, data["seed"], data["per"], data["sweep"])
    cases = [c for c in cases if bytes(c["bytes"]).hex() == data["metadata"] and c["desc"] == data["desc"]]
    if not cases:
        return False
    bad, verdicts, _ = judge(cases)
    if not quiet:
        for c in cases:
            print(c["desc"], [(x["op"], x["exit"], x["err"]) for x in c["runs"]])
        for m in bad:
            print("MISMATCH", m)
    return any(m["label"] == data["label"] for m in bad)
