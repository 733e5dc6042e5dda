"""Random histories: file systems, configurations, commands."""
import glob
import os
import random
import shutil
import socket
import stat
import subprocess

from . import meta as M
from . import regex
from .enc import enc, dec
from .trace import History, Stop
from .world import IDS, World, content_id, split_stored

NAMES = ["a", "b", "c", "d", "ab"]
ODD_NAMES = ["x y", "%C3%BC", "%25s", "-n", "a.b", "^s", "%5C", "%22q%22", "[c]", "..x", ".h", "~", "%FF",
             "n%09t", "...", " ", "a ", "a%5C", "*", "#a", "(", "a$", "+b|", "%0D", ".a", "L" * 120, "M" * 255]
SIZES = [0, 1, 5, 20, 20, 21, 21, 22, 40, 300, 1500]
BIG_SIZES = [4095, 4096, 4097, 8192, 12287, 65536, 70001, 131073]
MODES = [0o644, 0o600, 0o755, 0o000, 0o400, 0o777, 0o4755, 0o2755, 0o6711, 0o1644, 0o666]
DIR_MODES = [0o755, 0o700, 0o711, 0o1777, 0o2775, 0o500, 0o000, 0o3770]
UMASKS = [0o022, 0, 0o022, 0o077, 0o777, 0o027, 0o022]
ORDERS = [0, 1, 2, 3, 0]
CLOCKS = ["on", "back", "on", "wild", "on", "on", "slow"]
TIMES = [0, 1, -1, -1000000, 2147483647, 2147483648, 4294967295, 4294967296, 6000000000, 12345]


class Profile:
    """Weights of what happens in a history."""
    steps = (5, 9)
    tops = ["/t", "/u"]
    odd_names = 0.04
    big = 0.03
    weak = False
    foreign = 0.1
    mutations = (0, 5)
    config_change = 0.45
    config_reset = 0.1
    links = 0.12
    others = 0.05
    odd_config = 0.0    # configurations taken from the grammar at large
    weak_big = 0.0      # contents of several blocks
    watch = 0.0         # how many histories are observed call by call
    same_size = 0.15    # other contents of the same size
    parents = 0.15      # something in the way of a path to be restored
    park = 0.0          # whole directories go and come back
    scenario = None
    hardlinks = 0.03
    environ = 0.0       # how often the surroundings change
    fork = 0.0          # how often another repository comes into being
    reorder = 0.0       # metadata files rewritten by somebody else
    vast = 0.0          # declined backups of huge files
    hexlinks = 0.0      # symlinks named like directories of stored files
    dup_contents = 3
    ops = {"backup": 10, "restore": 3, "gc": 1, "integrity": 1}
    consent = 0.1
    restore_damage = (0, 4)
    restore_root = 0.5
    again = 0.3
    revert = 0.25
    policies = ["copy", "mirror", "track", "track"]
    root_policy = 0.03


class Gen:
    def __init__(self, world, rng, prof):
        self.w = world
        self.r = rng
        self.p = prof
        self.seen = {}      # path -> states it has had
        self.n_entries = 0
        self.entries = {}
        self.ignore = []
        self.summarize = []
        self.repair = None
        self.parked = []
        self.others = []    # other repositories
        self.n_others = 0
        self.looks = {}
        self.names = list(NAMES[:rng.randint(2, len(NAMES))])
        if rng.random() < prof.odd_names * 5:
            self.names += rng.sample(ODD_NAMES, rng.randint(1, 3))
        self.owner_chance = rng.choice([0.0, 0.3, 0.8])
        self.sizes = rng.sample(SIZES, 4) + ([rng.choice(BIG_SIZES)] if rng.random() < prof.big * 5 else [])
        if rng.random() < prof.weak_big:
            self.sizes = rng.sample([300, 4096, 4097, 8192, 8193, 12289, 16384], 2)

    # -- file system ------------------------------------------------------------
    def snap(self):
        s = self.w.snapshot_fs()
        s.pop("/r", None)
        return s

    def dirs(self, s, depth=4):
        return [""] + [p for p, st in s.items() if st["t"] == "dir" and p.count("/") < depth]

    def content(self, size=None):
        r = self.r
        n = r.choice(self.sizes) if size is None else size
        v = r.randrange(self.p.dup_contents)
        if n == 0:
            return b""
        kind = r.random()
        if kind < 0.55:
            return bytes([65 + v]) * n
        if kind < 0.62:  # any bytes at all
            return random.Random("%d/%d" % (v, n)).randbytes(n)
        if kind < 0.66:
            return bytes(n - 1) + bytes([v % 2])
        if kind < 0.7:  # nothing special behind a NUL
            return bytes([65 + v]) + bytes([0]) + bytes([65 + (v * 7) % 5]) * (n - 2) if n > 1 else b"\0"
        if kind < 0.8:  # differs in the last byte only
            return b"Q" * (n - 1) + bytes([65 + v])
        if kind < 0.9:  # differs somewhere only
            k = r.choice([n // 2, n * 2 // 3, max(n - 2, 0), min(n - 1, 4095), min(n - 1, 4096)])
            return b"Q" * k + bytes([65 + v]) + b"Q" * (n - 1 - k)
        return bytes([65 + v]) + b"R" * (n - 1)

    def attrs(self, p, st_type):
        r = self.r
        if r.random() < self.owner_chance:
            self.w.own(p, r.choice(IDS), r.choice(IDS))
        else:
            self.w.own(p, 0, 0)
        f = self.w.full(p)
        if st_type != "lnk":
            if r.random() < 0.4:
                os.chmod(f, r.choice(MODES if st_type == "reg" else DIR_MODES))
            if r.random() < 0.2:
                self.w.utime(p, r.choice(TIMES), r.choice([0, 0, 123456789]))
            else:
                self.w.utime(p, self.w.fresh_time(), r.choice([0, 0, 999999999]))

    def target(self, s):
        r = self.r
        cands = [p for p, st in s.items()]
        x = r.random()
        if cands and x < 0.6:
            p = r.choice(cands)
            return dec(p)
        if x < 0.75:
            return dec(r.choice(self.names))
        return r.choice([b"/nonexistent", b"loop", b"x y/z", b"/t", b"/u", b"%", b"../up", b"n" * 300,
                         r.choice([b" ", b"//" * 30 + b"t", b"a\nb", b"\xff\xfe", b"../" * 400 + b"t", b"/t" * 1000, b"q" * 4095])])

    def make(self, p, typ, s):
        f = self.w.full(p)
        r = self.r
        if typ == "reg":
            with open(f, "wb") as h:
                h.write(self.content())
        elif typ == "dir":
            os.mkdir(f)
        elif typ == "lnk":
            os.symlink(self.target(s), f)
        else:
            os.mkfifo(f)
        if typ == "oth":
            self.w.own(p, 0, 0)
        else:
            self.attrs(p, typ)

    def pick_type(self):
        r = self.r
        x = r.random()
        if x < self.p.others:
            return "oth"
        if x < self.p.others + self.p.links:
            return "lnk"
        return "reg" if x < 0.65 else "dir"

    def recreate(self, p, st):
        """Puts an earlier state back."""
        f = self.w.full(p)
        if st["t"] == "reg":
            with open(f, "wb") as h:
                h.write(st["data"])
        elif st["t"] == "dir":
            os.mkdir(f)
        elif st["t"] == "lnk":
            os.symlink(dec(st["tg"]), f)
        else:
            return self.make(p, "oth", {})
        self.w.own(p, int(st["u"]), int(st["g"]))
        if st["t"] != "lnk":
            os.chmod(f, st["m"])
            if st["mt"] != "NOW" and self.r.random() < 0.6:
                # only together with the very content
                self.w.utime(p, int(st["mt"]))
            else:
                self.w.utime(p, self.w.fresh_time())

    def remember(self, s):
        for p, st in s.items():
            if st["t"] == "oth":
                continue
            if st["t"] == "reg" and not 0 <= st["sz"] <= 5000:
                continue
            lst = self.seen.setdefault(p, [])
            if len(lst) < 6 and st not in [{k: v for k, v in x.items() if k != "data"} for x in lst]:
                x = dict(st)
                if st["t"] == "reg":
                    with open(self.w.full(p), "rb") as f:
                        x["data"] = f.read()
                lst.append(x)

    def hardlink(self, s):
        """Another name of a file, mostly in the place of another file."""
        r = self.r
        src = [p for p, st in s.items() if st["t"] == "reg" or (st["t"] == "lnk" and r.random() < 0.3)]
        if not src:
            return False
        a = r.choice(src)
        to = [p for p, st in s.items() if st["t"] in ("reg", "lnk") and p != a]
        if r.random() < 0.3 or not to:
            to = [d + "/" + n for d in self.dirs(s, 3) if d for n in self.names if d + "/" + n not in s]
        if not to:
            return False
        b = r.choice(to)
        if b in s:
            self.w.remove(b)
        os.link(self.w.full(a), self.w.full(b), follow_symlinks=False)
        return True

    def mutate(self):
        """One random change."""
        r = self.r
        s = self.snap()
        live = [p for p in s]
        x = r.random()
        if not live or x < 0.2:
            # create
            cands = []
            for d in self.dirs(s):
                if d == "":
                    cands += [t for t in self.p.tops if t not in s]
                else:
                    cands += [d + "/" + n for n in self.names if d + "/" + n not in s]
            if cands:
                self.make(r.choice(cands), self.pick_type(), s)
            return
        p = r.choice(live)
        st = s[p]
        if r.random() < self.p.hardlinks and self.hardlink(s):
            return
        if x < 0.2 + self.p.revert:
            # something which existed before comes back (perhaps as another type)
            back = [q for q in self.seen if (q not in s or self.seen[q][-1]["t"] != s[q]["t"] or r.random() < 0.3)]
            back = [q for q in back if q.rsplit("/", 1)[0] == "" or
                    s.get(q.rsplit("/", 1)[0], {}).get("t") == "dir"]
            if back:
                q = r.choice(back)
                if q in s:
                    self.w.remove(q)
                self.recreate(q, r.choice(self.seen[q]))
                return
        x = r.random()
        if x < 0.18:
            self.w.remove(p)
        elif x < 0.36:
            # replaced by another type
            others = [t for t in ("reg", "dir", "lnk", "oth") if t != st["t"]]
            weights = [self.p.others if t == "oth" else self.p.links if t == "lnk" else 0.4 for t in others]
            t = r.choices(others, weights)[0]
            self.w.remove(p)
            self.make(p, t, s)
        elif x < 0.46:
            # moved
            cands = [d + "/" + n for d in self.dirs(s, 3) if d and not (d + "/").startswith(p + "/")
                     for n in self.names if d + "/" + n not in s]
            if cands and p.count("/") > 1:
                os.rename(self.w.full(p), self.w.full(r.choice(cands)))
        elif x < 0.52 and st["t"] in ("reg", "dir"):
            if r.random() < 0.2:
                self.w.utime(p, r.choice(TIMES))
            else:
                self.w.utime(p, self.w.fresh_time())
        elif x < 0.58 and st["t"] in ("reg", "dir"):
            os.chmod(self.w.full(p), r.choice(MODES if st["t"] == "reg" else DIR_MODES))
        elif x < 0.64 and st["t"] != "oth":
            self.w.own(p, r.choice(IDS), r.choice(IDS))
            if st["t"] != "lnk" and r.random() < 0.7:
                os.chmod(self.w.full(p), st["m"])
        elif st["t"] == "reg":
            f = self.w.full(p)
            with open(f, "rb") as h:
                old = h.read()
            new = self.content(len(old) if r.random() < max(0.33, self.p.same_size) else None)
            if self.p.weak and len(new) == len(old) and len(old) > 20:
                new = self.content(len(old) + 1)
            if new == old:
                self.w.utime(p, self.w.fresh_time())
                return
            mt = os.lstat(f).st_mtime_ns
            with open(f, "wb") as h:
                h.write(new)
            os.chmod(f, st["m"])
            if len(new) != len(old) and r.random() < 0.3:
                self.w.utime(p, mt // 1000000000)
            else:
                self.w.utime(p, self.w.fresh_time())
        elif st["t"] == "lnk":
            f = self.w.full(p)
            os.unlink(f)
            os.symlink(self.target(s), f)
            self.w.own(p, int(st["u"]), int(st["g"]))
        elif st["t"] == "dir":
            kids = [d for d in self.names if p + "/" + d not in s]
            if kids and p.count("/") < 4:
                self.make(p + "/" + r.choice(kids), self.pick_type(), s)

    def mutations(self, span):
        n = self.r.randint(*span)
        for _ in range(n):
            self.mutate()
        if n:
            self.w.stamp_now()
            self.remember(self.snap())

    def park(self):
        """A directory goes with everything in it, or comes back, often under
        another policy."""
        r = self.r
        s = self.snap()
        back = [k for k, (p, tree) in enumerate(self.parked)
                if p.count("/") == 1 or s.get(p.rsplit("/", 1)[0], {}).get("t") == "dir"]
        if back and r.random() < 0.65:
            p, tree = self.parked.pop(r.choice(back))
            if p in s:
                self.w.remove(p)
            alter = r.random() < 0.4
            gone = []
            for q, st in tree:
                if any(q.startswith(x + "/") for x in gone):
                    continue
                if alter and q != p and r.random() < 0.3:
                    gone.append(q)
                    if r.random() < 0.5:
                        self.make(q, self.pick_type(), s)
                    continue
                self.recreate(q, st)
            if r.random() < 0.5:
                near = [k for k in self.entries if k.startswith(dec(p)) or dec(p).startswith(k)]
                pol = r.choice(self.p.policies)
                for k in near or list(self.entries):
                    self.entries[k] = pol if r.random() < 0.7 else r.choice(self.p.policies)
            return
        cands = [p for p, st in s.items() if st["t"] == "dir" and any(q.startswith(p + "/") for q in s)]
        if not cands:
            return
        p = r.choice(cands)
        tree = []
        for q in sorted(s):
            if q == p or q.startswith(p + "/"):
                st = dict(s[q])
                if st["t"] == "reg":
                    with open(self.w.full(q), "rb") as f:
                        st["data"] = f.read()
                tree.append((q, st))
        self.parked.append((p, tree))
        self.w.remove(p)
        t = r.choice(["reg", "reg", "lnk", None])
        if t:
            self.make(p, t, {})

    def swap_contents(self):
        """Other contents of the same size, nothing else but the time changes."""
        r = self.r
        s = self.snap()
        for p, st in s.items():
            if st["t"] == "reg" and st["sz"] > 0 and r.random() < 0.6:
                f = self.w.full(p)
                with open(f, "rb") as h:
                    old = h.read()
                i = r.choice([0, len(old) - 1, len(old) // 2])
                with open(f, "wb") as h:
                    h.write(old[:i] + bytes([old[i] ^ 2]) + old[i + 1:])
                os.chmod(f, st["m"])
                self.w.utime(p, self.w.fresh_time())

    def in_the_way(self, h):
        """Replaces a parent of a recorded path.  -> the path"""
        r = self.r
        s = self.snap()
        cands = [p for p in h.meta["paths"] if p.count("/") > 1]
        if not cands:
            return None
        p = r.choice(cands)
        q = p
        for _ in range(r.randint(1, p.count("/") - 1)):
            q = q.rsplit("/", 1)[0]
        up = q.rsplit("/", 1)[0]
        if up and s.get(up, {}).get("t") != "dir":
            return None
        if q in s:
            keep = r.random() < 0.3 and s[q]["t"] == "dir"
            if keep:
                # moved aside, perhaps with a symlink left behind
                aside = up + "/" + r.choice(NAMES) + "2"
                if aside in s or "/" not in q[1:]:
                    return None
                os.rename(self.w.full(q), self.w.full(aside))
                if r.random() < 0.6:
                    os.symlink(os.path.basename(self.w.full(aside)), self.w.full(q))
                    self.w.own(q, 0, 0)
                return p
            self.w.remove(q)
        t = r.choice(["oth", "oth", "reg", "lnk", None])
        if t == "oth":
            self.make(q, "oth", s)
        elif t:
            self.make(q, t, {x: y for x, y in s.items() if x != q and not x.startswith(q + "/")})
        return p

    # -- configuration -----------------------------------------------------------
    def rx_for(self, name):
        r = self.r
        q = "".join("\\" + ch if ch in ".[]()*+?{}|^$\\" else ch for ch in dec(name).decode("latin1"))
        first = q[:2] if q.startswith("\\") else q[:1]
        opts = ["^" + q + "$", "^" + first, ".", "^[ab]+$", "^(a|b)$", "b", "^[^a]", "[c-d]$", "^" + q]
        return r.choice(opts).encode("latin1")

    def pattern(self, s):
        r = self.r
        cands = [p for p in list(s) + list(self.seen) if p.count("/") <= 4]
        if not cands or r.random() < 0.15:
            p = r.choice(self.p.tops)
            for _ in range(r.randint(0, 2)):
                p += "/" + r.choice(self.names)
        else:
            p = r.choice(cands)
        els = p.split("/")[1:]
        out = b""
        for i, e in enumerate(els):
            if r.random() < 0.15 and (i > 0 or len(els) > 1):
                x = self.rx_for(e)
                if i == 0:
                    x = b"^[tu]$" if r.random() < 0.5 else b"^" + dec(e) + b"$"
                out += b"//" + x
            else:
                out += b"/" + dec(e)
        if r.random() < 0.12 and out.count(b"/") < 5:
            out += b"//" + self.rx_for(r.choice(self.names))
        return out

    def change_config(self, s):
        r = self.r
        x = r.random()
        pols = self.p.policies
        if not self.entries or x < 0.3:
            pat = self.pattern(s)
            if b"\n" not in pat:
                self.entries[pat] = r.choice(pols)
        elif x < 0.65:
            k = r.choice(list(self.entries))
            self.entries[k] = r.choice(pols)
        elif x < 0.8:
            if len(self.entries) > 1:
                del self.entries[r.choice(list(self.entries))]
        elif x < 0.9:
            if self.ignore and r.random() < 0.5:
                self.ignore.remove(r.choice(self.ignore))
            else:
                cands = list(s) or ["/t"]
                p = dec(r.choice(cands))
                self.ignore.append(r.choice([b"^" + p + b"$", b"/a$", b"b", b"^" + p + b"/", p, b"/[cd]$"]))
        else:
            if self.summarize and r.random() < 0.5:
                self.summarize.remove(r.choice(self.summarize))
            else:
                p = dec(r.choice(list(s) or ["/t"]))
                self.summarize.append(r.choice([b"^" + p + b"$", b"/a$", p, b"^/t", b"d$"]))
        if r.random() < self.p.root_policy:
            self.entries[b"/"] = r.choice(pols)

    def config(self):
        """The config file; entries in changing order."""
        r = self.r
        if b"/" in self.entries and b"^/r$" not in self.ignore:
            # the repository itself stays out
            self.ignore.append(b"^/r$")
        sections = {}
        for k, v in self.entries.items():
            sections.setdefault(v, []).append(k)
        order = list(sections)
        r.shuffle(order)
        out = b"\xef\xbb\xbf" if r.random() < 0.05 else b""
        parts = []
        for pol in order:
            lines = sections[pol]
            r.shuffle(lines)
            parts.append((pol, [l + (b"/" * r.randint(1, 2) if r.random() < 0.05 and l != b"/" else b"") for l in lines]))
        if self.ignore:
            parts.insert(r.randint(0, len(parts)), ("ignore", self.ignore))
        if self.summarize:
            parts.insert(r.randint(0, len(parts)), ("summarize", self.summarize))
        for pol, lines in parts:
            if r.random() < 0.1:
                out += r.choice([b"# comment\n", b"\n", b" \t\n", b"#\n"])
            out += b"[" + pol.encode() + b"]\n"
            for l in lines:
                out += l + b"\n"
                if r.random() < 0.05:
                    out += r.choice([b"# /c\n", b"\n", b"   \n"])
        if r.random() < 0.1:
            out = out[:-1]
        if r.random() < self.p.odd_config:
            out = self.odd(out)
        return out

    def odd(self, text):
        """Takes liberties with a config file."""
        r = self.r
        pols = [b"[copy]", b"[mirror]", b"[track]"]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            lines = text.split(b"\n")
            paths = [k for k, l in enumerate(lines) if l.startswith(b"/")]
            at = r.randint(0, len(lines))
            x = r.random()
            if x < 0.3 and paths:
                # another definition, perhaps with a parent defined in between
                k = r.choice(paths)
                again = lines[k]
                if r.random() < 0.3:
                    again = again.rstrip(b"/") + b"/" * r.randint(0, 2)
                up = again
                for _ in range(r.choice([1, 1, 2])):
                    up = up.rstrip(b"/").rsplit(b"/", 1)[0].rstrip(b"/")
                new = []
                if up and r.random() < 0.5:
                    if r.random() < 0.5:
                        new.append(r.choice(pols))
                    new.append(up)
                if r.random() < 0.6:
                    new.append(r.choice(pols))
                if r.random() < 0.7:
                    new.append(again)
                y = r.random()
                if y < 0.6:
                    lines += new
                elif y < 0.8 and new[:1] and new[0] in pols:
                    lines[0:0] = new
                else:
                    lines[k + 1:k + 1] = new
            elif x < 0.42:
                lines.insert(at, r.choice([b"[Copy]", b"[copy] ", b" [copy]", b"[]", b"[", b"]", b"[copy", b"copy]",
                                           b"[tracks]", b"[none]", b"[policy]", b"[copy][track]", b"[copy]\r", b"[/t]"]))
            elif x < 0.5:
                lines.insert(0, r.choice([b"/t", b"/t/a", b"t", b"x", b"^", b" ", b"# x", b"/", b"\t/t", b"\xef\xbb\xbf"]))
            elif x < 0.58:
                lines.insert(at, r.choice([b"t/a", b"./t", b"~/t", b"../t", b" /t", b"\t/t/a", b"t", b"a b", b"\\/t", b"-"]))
            elif x < 0.72:
                p = lines[r.choice(paths)] if paths else b"/t/a"
                lines.insert(at, p + r.choice([b"/.", b"/..", b"/./", b"/..//", b"/./a", b"/../t", b"/...", b"/.a", b"/a.",
                                               b"//.", b"//..", b"/ ", b"/. ", b"/..a", b"//./a"]))
                if r.random() < 0.2:
                    lines.insert(at, r.choice([b"/.", b"/..", b"/./t", b"/../t"]))
            elif x < 0.78:
                if lines:
                    k = r.randrange(len(lines))
                    i = r.randint(0, len(lines[k]))
                    lines[k] = lines[k][:i] + b"\0" + lines[k][i:]
            elif x < 0.9:
                bad = r.choice([b"(", b"[a", b"(a", b"*", b"a{2,1}", b"a\\", b"[[:foo:]]", b"[b-a]", b"+", b"a|*", b"{"])
                sect = [k for k, l in enumerate(lines) if l in (b"[ignore]", b"[summarize]")]
                if r.random() < 0.5:
                    p = lines[r.choice(paths)] if paths else b"/t"
                    new = [p.rstrip(b"/") + b"//" + bad + r.choice([b"", b"/a", b"/"])]
                    lines[at:at] = new
                elif sect:
                    lines.insert(r.choice(sect) + 1, bad)
                else:
                    lines += [r.choice([b"[ignore]", b"[summarize]"]), bad]
            elif x < 0.96:
                lines.insert(at, r.choice([b"", b" ", b"\t \t", b"#", b"#/t", b"# [copy]", b" #", b"##"]))
            else:
                text = r.choice([b"", b"\n", b"# nothing\n", b"\xef\xbb\xbf", b"\xef\xbb", b"[copy]", b"[ignore]\n",
                                 b"\xef\xbb\xbf" + text, b"\xef\xbb\xbf\xef\xbb\xbf" + text, b"\n" + text,
                                 text.replace(b"\n", b"\r\n"), text + b"\n\n"])
                continue
            text = b"\n".join(lines)
        # the repository itself stays out
        lines = text.split(b"\n")
        for k, l in enumerate(lines):
            if l.startswith(b"//") and regex.match(l[2:].lstrip(b"/").split(b"/")[0], b"r"):
                lines[k] = b"/t" + l
            if l.startswith(b"///"):
                lines[k] = b"/t" + l
        text = b"\n".join(lines)
        if any(l.strip(b"/") == b"" and l for l in text.split(b"\n")) and b"^/r$" not in self.ignore:
            text = b"[ignore]\n^/r$\n" + text.lstrip(b"\xef\xbb\xbf")
        return text

    def refused(self, h):
        """A command line that makes no sense."""
        r = self.r
        known = dec(r.choice(list(h.meta["paths"]) or ["/t"]))
        cands = [[], [b""], [b"/nope"], [b"/nope", b"gc"], [b"/nope", b"0"], [b"/r/config"], [b"/r/config", b"gc"],
                 [b"/r/nope"], [b"/t"], [b"/t", b"gc"], [b"/t", b"integrity"], [b"/t", b"0"], [b"/t", b"0", known]]
        for b in (b"foo", b"-1", b"", b" 0", b"0 ", b"0x1", b"GC", b"1a", b"gc ", b"+1", b"1.0", b"--help", b"-h",
                  b"backup", b"restore", b"integrit", b"integrityy", b"g", b"99999999999999999999999999", b"/t",
                  b"18446744073709551616", b"0\n", b"^[0-9]+$"):
            cands.append([b"/r", b])
        cands += [[b"/r", b"gc", b"x"], [b"/r", b"gc", b""], [b"/r", b"integrity", b"0"], [b"/r", b"0", known, known],
                  [b"/r", b"0", known, b""], [b"/r", b"0", b"/", b"x", b"y"], [b"/r", b"foo", known],
                  [b"/r", b"gc", b"gc"], [b"/r", b"1x", known], [b"/r", b"0", known + b"/nope"], [b"/r", b"0", b"nope/nope"]]
        if not h.meta["ex"]:
            cands += [[b"/r", b"gc"], [b"/r", b"integrity"], [b"/r", b"0"], [b"/r", b"0", known]] * 3
        if r.random() < 0.3:
            # neither empty configurations nor empty metadata
            what, arg = r.choice([(b"config", []), (b"config", []), (b"metadata", r.choice(
                [[], [b"gc"], [b"integrity"], [b"0"], [b"0", known]]))])
            if what == b"metadata" and not arg and not os.path.exists(self.w.path + "/r/config"):
                return
            h.refused([b"/r"] + arg, around=self.odd_file(os.fsencode(self.w.path + "/r/") + what))
            return
        h.refused(r.choice(cands))

    def odd_file(self, f):
        """Something else takes the place of a file.  -> function undoing it"""
        r = self.r
        kind = r.choice(["dir", "full", "fifo", "sock", "null", "fifolink", "dirlink", "dangling", "loop"])
        if f.endswith(b"config"):
            kind = r.choice([kind, "gone"])

        def put():
            if os.path.lexists(f):
                os.rename(f, f + b".kept")
            if kind in ("dir", "full"):
                os.mkdir(f)
                if kind == "full":
                    with open(f + b"/x", "wb"):
                        pass
            elif kind == "fifo":
                os.mkfifo(f)
            elif kind == "sock":
                with socket.socket(socket.AF_UNIX) as s:
                    d = os.open(os.path.dirname(f), os.O_RDONLY)
                    s.bind(b"/proc/self/fd/%d/" % d + os.path.basename(f))
                    os.close(d)
            elif kind == "fifolink":
                os.mkfifo(f + b".fifo")
                os.symlink(os.path.basename(f) + b".fifo", f)
            elif kind != "gone":
                os.symlink({"null": b"/dev/null", "dirlink": b"/r", "dangling": b"/nope", "loop": os.path.basename(f)}[kind], f)
            before = self.w.snapshot_repo()

            def back():
                if {k: v for k, v in self.w.snapshot_repo().items() if k != "lockfile"} != \
                        {k: v for k, v in before.items() if k != "lockfile"}:
                    return False  # touched
                if kind == "full":
                    os.unlink(f + b"/x")
                if kind == "fifolink":
                    os.unlink(f + b".fifo")
                if kind != "gone":
                    (os.rmdir if kind in ("dir", "full") else os.unlink)(f)
                if os.path.lexists(f + b".kept"):
                    os.rename(f + b".kept", f)
                return True
            return back
        return put

    # -- repository ---------------------------------------------------------------
    def foreign(self):
        """Puts something into the repository that does not belong there."""
        r = self.r
        base = os.fsencode(self.w.path + "/r")
        subs = [base]
        for d, ds, fs in os.walk(base):
            subs += [os.path.join(d, x) for x in ds if not os.path.islink(os.path.join(d, x))]
        d = r.choice(subs)
        nm = r.choice([b"junk", b"a", b"0", b"tmp-file", b"metadata2", b"00", b"f", b"config.bak", b"lockfile",
                       b"x" * 40, b"e1", b"0123456789012345678901234567890123456x15x0", b"metadata", b"config"])
        if nm in (b"tmp-file", b"lockfile", b"metadata", b"config") and d == base and nm != b"tmp-file" and nm != b"lockfile":
            return
        f = d + b"/" + nm
        if os.path.lexists(f):
            return
        x = r.random()
        if nm in (b"tmp-file", b"lockfile") and d == base:
            x = 0
        elif nm in (b"0", b"a", b"f", b"e1", b"00"):
            x = 0.5  # anything else could be in the way of stored files
        if x < 0.45:
            with open(f, "wb") as h:
                if r.random() < 0.1:
                    h.truncate(r.choice(self.SIZES))
                else:
                    h.write(b"z" * r.choice([0, 10, 500, 2000]))
            os.chown(f, 100000, 100000)
        elif x < 0.7:
            os.mkdir(f)
            os.chown(f, 100000, 100000)
            if r.random() < 0.5:
                with open(f + b"/inner", "wb") as h:
                    h.write(b"i" * 33)
                os.chown(f + b"/inner", 100000, 100000)
        elif x < 0.95:
            os.symlink(r.choice([b"/t", b"/r", b"/r/config", b"nowhere", b"/u/a", b"."]), f)
        else:
            os.mkfifo(f)

    def reorder(self):
        """The repository, as another program would have written it."""
        base = self.w.path + "/r"
        slots = {}
        stored = {}
        for d, _, fs in os.walk(base):
            for f in fs:
                x = split_stored(enc(os.fsencode(os.path.join(d, f)[len(base) + 1:])))
                if x and x["slot"] >= 0:
                    stored.setdefault((x["k"], x["sz"]), []).append((x["slot"], os.path.join(d, f)))
        for (k, sz), files in stored.items():
            if self.r.random() < 0.35:
                new = self.r.sample(self.r.choice([range(256), range(8, 20), range(250, 256)]), len(files)) \
                    if len(files) < 6 else [s for s, _ in files]
                for n, (s, f) in zip(new, files):
                    slots[(k, sz, "%x" % s)] = n
                    os.rename(f, f + ".moved")
                for n, (s, f) in zip(new, files):
                    os.rename(f + ".moved", f[:f.rindex("x") + 1] + "%x" % n)
        p = base + "/metadata"
        with open(p, "rb") as f:
            data = f.read()
        data = M.rewrite(data, self.r, slots)
        with open(p, "wb") as f:
            f.write(data)

    def weather(self):
        """Attributes of what the repository consists of."""
        r = self.r
        for d, ds, fs in os.walk(os.fsencode(self.w.path + "/r")):
            for n in fs + ds:
                f = d + b"/" + n
                if os.path.islink(f) or r.random() < 0.5:
                    continue
                if r.random() < 0.5:
                    os.chmod(f, r.choice([0o644, 0o600, 0o444, 0o777, 0o755, 0o000]))
                if r.random() < 0.5:
                    t = r.choice([0, 1, 1000000, 2000000000, 4000000000])
                    os.utime(f, (t, t))

    def fork(self, h):
        """Another repository: a copy, or a new one."""
        r, w = self.r, self.w
        self.n_others += 1
        to = "%s.repo%d" % (w.path, self.n_others)
        cur = w.path + "/r"
        if r.random() < 0.75:
            subprocess.run(["cp", r.choice(["-a", "-a", "-al"]), cur, to], check=True)
        else:
            os.mkdir(to)
        self.others.append(to)
        self.looks[to] = self.look(to)

    def look(self, root):
        return {p: st for p, st in self.w.snapshot_repo(root).items() if p not in ("tmp-file", "lockfile")}

    def untouched(self, h):
        """Nothing happens to other repositories."""
        for to in self.others:
            if self.look(to) != self.looks[to]:
                h.broke("other-repo")

    def aside(self, to):
        """Something happens in another repository meanwhile."""
        r, w = self.r, self.w
        cur = w.path + "/r"
        os.rename(cur, w.path + ".cur")
        os.rename(to, cur)
        subprocess.run(["chown", "-R", "-h", "100000:100000", cur], check=True)
        for _ in range(r.randint(1, 2)):
            self.mutations(self.p.mutations)
            for _ in range(r.randint(0, 2)):
                self.change_config(self.snap())
            if os.path.lexists(cur + "/config"):
                os.unlink(cur + "/config")
            with open(cur + "/config", "wb") as f:
                f.write(self.config())
            os.chown(cur + "/config", 100000, 100000)
            w.run([b"/r"], b"y\n", now=w.backup_time())
        if r.random() < 0.3:
            self.foreign()
        os.rename(cur, to)
        os.rename(w.path + ".cur", cur)

    def sync(self, h):
        """Another repository gets everything this one has, as the documentation
        explains, and takes its place."""
        r, w = self.r, self.w
        cur = w.path + "/r"
        h.user()
        if not h.meta["ex"]:
            return False
        if not self.others:
            self.fork(h)
        self.untouched(h)
        to = r.choice(self.others)
        self.others.remove(to)
        if r.random() < 0.6:
            self.aside(to)
        subprocess.run(["sh", "-c", 'cp -rn "$1"/* "$2"/; cp --remove-destination "$1/config" "$1/metadata" "$2"/', "sh", cur, to],
                       stderr=subprocess.DEVNULL)
        if r.random() < 0.5:
            self.n_others += 1
            back = "%s.repo%d" % (w.path, self.n_others)
            os.rename(cur, back)
            self.others.append(back)
            self.looks[back] = self.look(back)
        else:
            shutil.rmtree(cur)
        os.rename(to, cur)
        subprocess.run(["chown", "-R", "-h", "100000:100000", cur], check=True)
        h.sync()
        self.untouched(h)
        return True

    def hexlink(self):
        """Symlinks where directories of stored files would be."""
        r = self.r
        base = os.fsencode(self.w.path + "/r")
        tops = [n for n in os.listdir(base) if len(n) == 1 and os.path.isdir(base + b"/" + n)]
        d, digits = base, 1
        if tops and r.random() < 0.4:
            d, digits = base + b"/" + r.choice(tops), 2
        for _ in range(r.choice([1, 2])):
            f = d + b"/" + (b"%0*x" % (digits, r.randrange(16 ** digits)))
            if not os.path.lexists(f):
                os.symlink(r.choice([b"/t", b"/u", b"/t", dec(r.choice([p for p, st in self.snap().items() if st["t"] == "dir"]
                                                                       or ["/t"]))]), f)

    def surroundings(self):
        """What should make no difference to nb."""
        r, w = self.r, self.w
        self.weather()
        w.umask = r.choice(UMASKS)
        w.tty = r.random() < 0.35
        w.stdin_file = r.random() < 0.3
        w.clock = r.choice(CLOCKS)
        w.order = r.choice([0, 1, 2, r.randint(3, 10**6)])
        w.env = {}
        for k, vs in (("LC_ALL", ["C", "C.UTF-8", "de_DE.UTF-8", "tr_TR", ""]), ("LANG", ["en_US.UTF-8", "x"]),
                      ("TZ", ["Asia/Tokyo", "UTC+13", ""]), ("HOME", ["/t", "/nowhere"]), ("TMPDIR", ["/t", "/nowhere"]),
                      ("TERM", ["dumb", "xterm"]), ("NO_COLOR", ["1"]), ("POSIXLY_CORRECT", ["1"]), ("COLUMNS", ["10"]),
                      ("PWD", ["/t", "/nowhere"])):
            if r.random() < 0.25:
                w.env[k] = r.choice(vs)

    def spelling(self):
        """Where nb is run, and what it takes for the repository."""
        r = self.r
        if r.random() < (0.4 if self.p.environ else 0.8):
            return "/", "/r"
        return r.choice([("/", "/r/"), ("/", "r"), ("/", "./r"), ("/r", "."), ("/", "/r//"), ("/r", "./"), ("/r", "../r"),
                         ("/", "//r")])

    def stored(self, h):
        return [p for p, st in h.repo.items() if st["t"] == "reg" and p.count("/") == 2 and "x" in p]

    def damage_stored(self, h):
        """Damages stored contents; -> function undoing it."""
        r = self.r
        cands = self.stored(h)
        if not cands:
            return None
        undo = []
        self.fifo = False
        for p in r.sample(cands, min(len(cands), r.choice([1, 1, 2, 3]))):
            f = os.fsencode(self.w.path + "/r/" + p)
            if not os.path.isfile(f) or os.path.islink(f):
                continue
            with open(f, "rb") as x:
                data = x.read()
            if not data:
                continue
            undo.append((f, data))
            k = r.random()
            os.unlink(f)
            if k < 0.2:
                pass
            elif k < 0.3:
                os.mkdir(f)
            elif k < 0.4:
                os.symlink(b"/r/config", f)
            elif k < 0.45:
                g = f + b".real"
                with open(g, "wb") as x:
                    x.write(data)
                os.chown(g, 100000, 100000)
                undo.append((g, None))
                os.symlink(os.path.basename(g), f)
            elif k < 0.5:
                os.mkfifo(f)
                self.fifo = True
            else:
                i = r.randrange(len(data))
                new = r.choice([data[:-1], data + b"x", data[:i] + bytes([data[i] ^ 1]) + data[i + 1:], b"",
                                data[:-1] + bytes([data[-1] ^ 128]), bytes([data[0] ^ 64]) + data[1:],
                                data[::-1] if data != data[::-1] else data[:-2]])
                with open(f, "wb") as x:
                    x.write(new)
                os.chown(f, 100000, 100000)

        def repair(path=None):
            for f, data in undo:
                f = os.fsencode(path or self.w.path) + f[len(os.fsencode(self.w.path)):]
                if os.path.lexists(f):
                    if os.path.isdir(f) and not os.path.islink(f):
                        os.rmdir(f)
                    else:
                        os.unlink(f)
                if data is not None:
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, "wb") as x:
                        x.write(data)
                    os.chown(f, 100000, 100000)
        self.repair = repair
        return repair

    def answers(self):
        r = self.r
        if r.random() >= self.p.consent:
            return b"y\n"
        end = [b"\n", b"\r", b"\0", b"\n"]
        out = b""
        for _ in range(r.randint(0, 3)):
            out += r.choice([b"", b"Y", b"yess", b"ye", b" y", b"y ", b"no way", b"ok", b"N", b"YES", b"yes yes",
                             b"y" * 100, b"n" * 3, b"\xc3\xbc", b"yes\x01"]) + r.choice(end)
        last = r.choice([b"y", b"yes", b"n", b"no", None, None])
        if last is not None:
            out += last + r.choice(end + [b""])
        return out

    # -- a whole history --------------------------------------------------------
    def restore_target(self, h):
        r = self.r
        known = list(h.meta["paths"])
        if not known or r.random() < self.p.restore_root:
            return None
        x = r.random()
        p = r.choice(known)
        if x < 0.05:
            return r.choice(["/nope", p + "/nope", p + "x", "t", p.replace("/", "//", 1)])
        if x < 0.15:
            return p + "/"
        return p

    # around the limits of units and of types
    SIZES = [999, 1000, 1023897, 1023898, 1 << 20, 1048471142, 1048471143, 1 << 30, 1500000000, (1 << 31) - 1, 1 << 31,
             (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 5 << 30, 10 ** 12, 1073634449817, 1073634449818, 1 << 40, 3 << 40]

    def vast(self, h):
        """A backup of much more than there is room for, which is declined."""
        r = self.r
        s = self.snap()
        dirs = [p for p, st in s.items() if st["t"] == "dir" and p != "/r"] or [""]
        made = []
        for _ in range(r.choice([1, 2, 3])):
            p = "%s/vast%d" % (r.choice(dirs), len(made))
            with open(self.w.full(p), "wb") as x:
                x.truncate(r.choice(self.SIZES))
            self.w.own(p, 0, 0)
            made.append(p)
        self.w.stamp_now()
        h.backup(self.config(), r.choice([b"n\n", b"no\n", b""]))
        for p in made:
            self.w.remove(p)
        self.w.stamp_now()

    def small(self, p, i):
        """A small file with the content i."""
        f = self.w.full(p)
        data = b"%d" % i
        if self.r.random() < 0.05:
            data = data.rjust(24, b".")
        with open(f, "wb") as x:
            x.write(data)
        os.chmod(f, 0o644)
        self.w.own(p, 0, 0)
        self.w.utime(p, self.w.fresh_time())

    def crowd(self, h):
        """About 256 states recorded by one backup."""
        r = self.r
        d = r.choice(["/t", "/t/a"])
        if d != "/t":
            self.make("/t", "dir", {})
            self.w.own("/t", 0, 0)
        self.make(d, "dir", {})
        self.w.own(d, 0, 0)
        pol = r.choice(["track", "track", "track", "copy", "mirror"])
        conf = b"[%s]\n%s\n" % (pol.encode(), d.encode())
        n = r.choice([254, 255, 256, 257, 258])
        for i in range(n):
            self.small("%s/%d" % (d, i), i)
        h.backup(conf)
        # parents without a policy are recorded anew by every backup
        k = min(n, r.choice([255, 256, 257, n]) - (d.count("/") - 1) - r.choice([0, 1]))
        for i in range(k):
            self.small("%s/%d" % (d, i), i + 1000)
        h.backup(conf)
        for i in r.sample(range(n), r.choice([1, 3])):
            if r.random() < 0.5:
                self.small("%s/%d" % (d, i), i + 2000)
            else:
                self.w.remove("%s/%d" % (d, i))
        h.backup(conf)
        if r.random() < 0.3:
            self.w.remove(d)
            h.backup(conf)
        h.restore(r.choice([1, 1, 2, 0]), r.choice([None, d]))
        h.backup(conf)

    def slots(self, h):
        """About 256 contents of the same hash and size."""
        r = self.r
        d = "/t"
        self.make(d, "dir", {})
        self.w.own(d, 0, 0)
        conf = b"[%s]\n%s\n" % (r.choice([b"mirror", b"mirror", b"copy", b"track"]), d.encode())
        odd = r.random() < 0.5

        def write(name, i):
            data = b"%024d" % i
            if (sum(data) % 2 == 1) != odd:
                data = b"1" + data[1:]
            f = self.w.full("%s/%s" % (d, name))
            with open(f, "wb") as x:
                x.write(data)
            os.chmod(f, 0o644)
            self.w.own("%s/%s" % (d, name), 0, 0)
            self.w.utime("%s/%s" % (d, name), self.w.fresh_time())

        n = r.choice([250, 254, 255, 256, 256, 257, 258])
        order = list(range(n))
        r.shuffle(order)
        for i, c in enumerate(order):
            write("%d" % i, c)
        for i in range(r.choice([0, 3])):
            write("x%d" % i, r.randrange(n))
        h.backup(conf)
        if r.random() < 0.6:
            for i in r.sample(range(n), r.choice([1, 4])):
                self.w.remove("%s/%d" % (d, i))
            h.backup(conf)
        for i in range(r.choice([1, 2, 5])):
            write("y%d" % i, n + i if r.random() < 0.7 else r.randrange(n))
        h.backup(conf)
        if r.random() < 0.4:
            h.integrity()
        h.restore(0, r.choice([None, d]))
        write("z", r.randrange(n + 5))
        h.backup(conf)

    def spread(self, h):
        """More directories and files than can be open at once."""
        r = self.r
        self.make("/t", "dir", {})
        self.w.own("/t", 0, 0)
        pol = r.choice([b"track", b"track", b"copy", b"mirror"])
        conf = b"[%s]\n/t\n" % pol
        if r.random() < 0.3:
            conf += b"[ignore]\nignored\n"
        n = r.randint(44, 52)

        def write(p, i):
            self.small(p, i)
            if i % 3:
                with open(self.w.full(p), "ab") as x:
                    x.write(b"-%030d" % i)
            self.w.utime(p, self.w.fresh_time())

        def mkdir(p):
            os.mkdir(self.w.full(p))
            os.chmod(self.w.full(p), 0o755)
            self.w.own(p, 0, 0)

        for i in range(n):
            mkdir("/t/%d" % i)
            write("/t/%d/f" % i, i)
            if i % 4 == 0:
                self.make("/t/%d/l" % i, "lnk", {})
                self.w.own("/t/%d/l" % i, 0, 0)
        h.backup(conf)
        todo = r.sample(["write", "touch", "grow", "type"], r.choice([1, 2]))
        for i in range(n):
            f = "/t/%d/f" % i
            what = r.choice(todo)
            if what == "write":
                write(f, i + 100)
            elif what == "touch":
                self.w.utime(f, self.w.fresh_time())
            elif what == "grow":
                with open(self.w.full(f), "ab") as x:
                    x.write(b"+%030d" % i)
                self.w.utime(f, self.w.fresh_time())
            else:
                self.w.remove(f)
                mkdir(f)
                write(f + "/g", i)
        if r.random() < 0.7:
            h.backup(conf)
        if r.random() < 0.5:
            h.integrity()
        if r.random() < 0.5:
            for i in r.sample(range(n), r.choice([1, n - 1, n])):
                self.w.remove("/t/%d" % i)
        self.w.stamp_now()
        h.restore(r.choice([0, 0, 1]), r.choice([None, "/t"]))
        for i in r.sample(range(n), r.choice([1, n])):
            if os.path.lexists(self.w.full("/t/%d" % i)):
                self.w.remove("/t/%d" % i)
        self.w.stamp_now()
        if r.random() < 0.3:
            h.gc()
        h.backup(conf)

    def long(self, h):
        """About 256 backups."""
        r = self.r
        self.make("/t", "dir", {})
        self.w.own("/t", 0, 0)
        pol = r.choice(["track", "track", "track", "copy"])
        conf = b"[%s]\n/t\n" % pol.encode()
        self.small("/t/old", 0)
        n = r.randint(257, 262)
        for i in range(n):
            self.small("/t/a", i)
            if r.random() < 0.02:
                self.small("/t/b%d" % (i % 3), i)
            if r.random() < 0.02 and os.path.exists(self.w.full("/t/b1")):
                self.w.remove("/t/b1")
            h.backup(conf)
        for ident in r.sample([253, 254, 255, 256, 257, 0, 1, 128], 3):
            h.restore(ident, r.choice([None, "/t", "/t/a", "/t/old"]))

    def history(self, h):
        r = self.r
        prof = self.p
        if prof.scenario:
            return getattr(self, prof.scenario)(h)
        for t in prof.tops[:r.randint(1, len(prof.tops))]:
            self.make(t, "dir", {})
        for _ in range(r.randint(2, 10)):
            self.mutate()
        self.w.stamp_now()
        self.remember(self.snap())
        for _ in range(r.randint(1, 4)):
            self.change_config(self.snap())
        ops = list(prof.ops)
        weights = [prof.ops[o] for o in ops]
        first = True
        if "refused" in prof.ops and r.random() < 0.3:
            self.refused(h)
        for _ in range(r.randint(*prof.steps)):
            op = "backup" if first else r.choices(ops, weights)[0]
            first = False
            if r.random() < prof.environ:
                self.surroundings()
            if r.random() < prof.reorder and h.meta["ex"]:
                self.reorder()
            if r.random() < prof.fork:
                self.fork(h)
            self.step(h, op)
        self.untouched(h)

    def step(self, h, op):
        r = self.r
        prof = self.p
        if op == "backup":
            if r.random() < prof.config_change:
                for _ in range(r.choice([1, 1, 2, 3])):
                    self.change_config(self.snap())
            elif r.random() < prof.config_reset:
                self.entries, self.ignore, self.summarize = {}, [], []
                for _ in range(r.randint(1, 3)):
                    self.change_config(self.snap())
            if r.random() < prof.park:
                self.park()
                if r.random() < 0.5:
                    self.mutations((0, 1))
                else:
                    self.mutations(prof.mutations)
                self.w.stamp_now()
                self.remember(self.snap())
            else:
                self.mutations(prof.mutations)
            if r.random() < prof.foreign:
                self.foreign()
            if not self.entries:
                self.change_config(self.snap())
            if r.random() < prof.vast:
                self.vast(h)
            cwd, repo = self.spelling()
            h.backup(self.config(), self.answers(), repo=repo, cwd=cwd)
        elif op == "restore":
            self.mutations(prof.restore_damage)
            n = len(h.meta["times"])
            ident = r.choice([0, 0, r.randint(0, max(n, 1)), r.randint(0, max(n, 1)), n + 3])
            path = self.restore_target(h)
            if r.random() < prof.same_size:
                self.swap_contents()
            if r.random() < prof.parents:
                path = self.in_the_way(h) or path
            cwd = "/"
            arg = path
            if path is not None and r.random() < 0.1 and path.count("/") > 1:
                d = path.rstrip("/").rsplit("/", 1)[0]
                if self.snap().get(d, {}).get("t") == "dir":
                    cwd = d
                    arg = path[len(d) + 1:]
            res = h.restore(ident, arg, self.answers(), cwd=cwd)
            if res.exit == 0 and r.random() < prof.again and (cwd == "/" or self.snap().get(cwd, {}).get("t") == "dir"):
                h.restore(ident, arg, cwd=cwd, again=True)
        elif op == "refused":
            self.refused(h)
        elif op == "sync":
            if self.sync(h) and r.random() < 0.85:
                h.gc()
        elif op == "gc":
            if r.random() < 0.8:
                for _ in range(r.randint(1, 3)):
                    self.foreign()
            if r.random() < prof.hexlinks and h.meta["ex"]:
                self.hexlink()
            cwd, repo = self.spelling()
            h.gc(repo, cwd=cwd)
        elif op == "integrity":
            self.repair = None
            repair = self.damage_stored(h) if r.random() < 0.8 else None
            cwd, repo = self.spelling()
            h.integrity(repo, cwd=cwd)
            if repair:
                if r.random() < 0.3 and not self.fifo and not prof.weak:  # nobody would ever write to it
                    self.mutations(prof.restore_damage)
                    h.restore(0, self.restore_target(h))
                repair()
                if r.random() < 0.3:
                    h.integrity()


def run_history(path, nb, nbx, seed, prof):
    """-> History (possibly broken)."""
    rng = random.Random(seed)
    w = World(path, nb, nbx, prof.weak)
    w.umask = UMASKS[seed % len(UMASKS)]
    w.clock = CLOCKS[seed // 3 % len(CLOCKS)]
    w.tty = seed // 7 % 5 == 0
    w.order = ORDERS[seed // 11 % len(ORDERS)] + (seed if seed // 11 % len(ORDERS) == 3 else 0)
    try:
        h = History(w, str(seed))
        h.seed = seed
        h.watch = rng.random() < prof.watch if prof.watch else False
        try:
            Gen(w, rng, prof).history(h)
        except Stop:
            pass
        return h
    finally:
        for f in glob.glob(glob.escape(w.path) + ".*"):
            shutil.rmtree(f, ignore_errors=True)
        w.close()
