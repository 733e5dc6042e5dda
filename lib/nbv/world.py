"""A scratch root with user files and a repository (/r), in which the real nb
runs, and the projection of its state onto the specification's variables."""
import hashlib
import os
import re
import select
import shutil
import stat
import subprocess
import tempfile
import time
import tty

from . import meta as M
from .enc import enc, dec

# ids inside the user namespace <-> outside (see nbx.c)
ID_RANGES = [(0, 100000, 65536), (2147483640, 200000, 16), (4294967280, 300000, 15)]


def id_out(i):
    for a, b, n in ID_RANGES:
        if a <= i < a + n:
            return b + i - a
    raise ValueError(i)


def id_in(o):
    for a, b, n in ID_RANGES:
        if b <= o < b + n:
            return a + o - b
    return -1


IDS = [0, 0, 0, 1, 2, 1000, 65534, 65535, 2147483647, 2147483648, 4294967294]
_STORED = re.compile(r"^[0-9a-f]/[0-9a-f]{2}/[0-9a-f]{37}x(0|[1-9a-f][0-9a-f]*)x(0|[1-9a-f][0-9a-f]?)$")


def split_stored(p):
    m = _STORED.match(p)
    if not m:
        return {"k": "", "sz": "", "slot": -1}
    return {"k": p[:42], "sz": m.group(1), "slot": int(m.group(2), 16)}


def content_id(data):
    if not data:
        return ""
    if len(data) <= 20:
        return "i" + data.hex()
    return "b" + hashlib.sha1(data).hexdigest()[:16]


def strong_key(data):
    if len(data) <= 20:
        return content_id(data)
    return M.hash_prefix(hashlib.blake2b(data, digest_size=20).digest())


def weak_key(data):
    if len(data) <= 20:
        return content_id(data)
    return M.hash_prefix(bytes(19) + bytes([sum(data) % 2]))


# sizes TLC cannot count -> numbers below 0 standing for them
HUGE = {}


class Result:
    __slots__ = ("exit", "out", "err", "events", "started", "ended")


def displayed(data):
    """What is left on a terminal: without colors and overprinted lines."""
    data = re.sub(rb"\x1b\[[01](;3[0-7])?m", b"", data)
    return re.sub(rb"[^\n]*\n\x1b\[1F\x1b\[2K", b"", data)


class World:
    def __init__(self, path, nb, nbx, weak=False):
        self.path = path
        self.nb = nb
        self.nbx = nbx
        self.key = weak_key if weak else strong_key
        self.stamp = 1000000
        self.umask = 0o022
        self.tty = False
        self.order = 0       # of directory entries
        self.env = {}        # further variables
        self.stdin_file = False
        self.clock = "on"    # how time passes from backup to backup
        self.last = None     # time of the last backup
        self.linked = set()  # paths having further hard links, as of the last snapshot
        self.began = int(time.time()) - 3600
        if not os.path.isdir(path):
            os.makedirs(path + "/r")
            for p in (path, path + "/r"):
                os.chown(p, 100000, 100000)
                os.chmod(p, 0o755)

    def clone(self, path):
        """A copy of everything."""
        subprocess.run(["cp", "-a", self.path, path], check=True)
        w = World(path, self.nb, self.nbx)
        w.key, w.stamp, w.began, w.umask = self.key, self.stamp, self.began, self.umask
        w.clock, w.last = self.clock, self.last
        return w

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)

    def fresh_time(self):
        self.stamp += 1
        return self.stamp

    def backup_time(self):
        """What the clock says at the next backup."""
        t = self.fresh_time()
        n = t * 7919 % 10007  # spread, but always the same
        if self.clock == "back":
            t = 3000000000 - t
        elif self.clock == "wild":
            t = n * 1000003 * (1 + n % 5) + t
        elif self.clock == "slow" and self.last is not None and n % 2:
            t = self.last
        self.last = t
        return t

    # -- running ------------------------------------------------------------
    def run(self, args, stdin=b"", mode="run", now="", timeout=20, cwd="/", commander=None, nb=None):
        """commander(event) -> command, for mode step."""
        ctl_r, ctl_w = os.pipe()
        cin_r = cin_w = -1
        if mode == "step":
            cin_r, cin_w = os.pipe()
        pass_fds = [ctl_w] + ([cin_r] if cin_r >= 0 else [])
        started = time.time()
        masters = []
        pipes = [subprocess.PIPE] * 2
        if self.tty:
            for k in (0, 1):
                master, pipes[k] = os.openpty()
                tty.setraw(pipes[k])
                masters.append(master)
        infile = None
        if self.stdin_file:
            infile = tempfile.TemporaryFile()
            infile.write(stdin)
            infile.seek(0)
        p = subprocess.Popen([self.nbx, self.path, mode, str(ctl_w), str(cin_r), str(timeout), dec(cwd),
                              "--", nb or self.nb] + [a if isinstance(a, bytes) else a.encode() for a in args],
                             stdin=infile or subprocess.PIPE, stdout=pipes[0], stderr=pipes[1],
                             pass_fds=pass_fds, env={"NBV_NOW": str(now), "NBV_UMASK": "%o" % self.umask, "NBV_ORDER": str(self.order),
                                                     "PATH": "/usr/bin:/bin", **self.env})
        for f in [ctl_w, cin_r] + (pipes if masters else []):
            if f >= 0:
                os.close(f)
        out_fd, err_fd = masters or (p.stdout.fileno(), p.stderr.fileno())
        res = Result()
        res.events = []
        res.exit = None
        bufs = {ctl_r: b"", out_fd: b"", err_fd: b""}
        open_fds = set(bufs)
        poll = select.poll()
        for f in bufs:
            poll.register(f, select.POLLIN)
        pending = stdin
        infd = -1
        if infile:
            infile.close()
            pending = b""
        else:
            infd = p.stdin.fileno()
        if pending:
            try:
                n = os.write(infd, pending[:60000])
                pending = pending[n:]
            except BrokenPipeError:
                pending = b""
        if not pending:
            if p.stdin:
                p.stdin.close()
        else:
            os.set_blocking(infd, False)
            poll.register(infd, select.POLLOUT)
        while open_fds:
            for fd, ev in poll.poll(1000):
                if fd == infd and pending is not None and fd not in bufs:
                    try:
                        n = os.write(infd, pending[:60000])
                        pending = pending[n:]
                    except BlockingIOError:
                        pass
                    except (BrokenPipeError, OSError):
                        pending = b""
                    if not pending:
                        poll.unregister(infd)
                        p.stdin.close()
                    continue
                try:
                    data = os.read(fd, 65536)
                except OSError:  # the other side of a terminal is closed
                    data = b""
                if not data:
                    poll.unregister(fd)
                    open_fds.discard(fd)
                    continue
                bufs[fd] += data
                if fd == ctl_r:
                    while b"\n" in bufs[fd]:
                        line, _, rest = bufs[fd].partition(b"\n")
                        bufs[fd] = rest
                        f = line.decode().split("\t")
                        if f[0] == "X":
                            res.exit = int(f[1])
                        elif f[0] in "EA":
                            e = Event(int(f[1]), f[2], [int(x) for x in f[3:7]], dec(f[7]), dec(f[8]))
                            res.events.append(e)
                            if f[0] == "A":
                                cmd = commander(e)
                                try:
                                    os.write(cin_w, cmd.encode() + b"\n")
                                except BrokenPipeError:
                                    pass
                        elif f[0] == "R":
                            res.events[int(f[1])].ret = int(f[2])
                            if len(f) > 3:
                                res.events[int(f[1])].data = dec(f[3])
        os.close(ctl_r)
        if cin_w >= 0:
            os.close(cin_w)
        if p.stdin and not p.stdin.closed:
            p.stdin.close()
        p.wait()
        res.out, res.err = bufs[out_fd], bufs[err_fd]
        if masters:
            os.close(out_fd)
            os.close(err_fd)
            res.out, res.err = displayed(res.out), displayed(res.err)
        else:
            p.stdout.close()
            p.stderr.close()
        res.started, res.ended = started, time.time()
        if res.exit is None or res.exit == 120:
            raise RuntimeError("nbx failed: %r %r %r" % (res.exit, p.returncode, res.err[-300:]))
        return res

    # -- projection ---------------------------------------------------------
    def _mt(self, st):
        t = st.st_mtime_ns // 1000000000
        return "NOW" if self.began <= t <= time.time() + 3600 else str(t)

    def _content(self, full, st):
        if st.st_size >= 1 << 24:
            # only its size matters
            c = "h%d" % st.st_size
            return c, c, HUGE.setdefault(st.st_size, -1 - len(HUGE)) if st.st_size >= 1 << 30 else st.st_size
        with open(full, "rb") as f:
            data = f.read()
        return content_id(data), self.key(data), len(data)

    def state(self, full):
        full = os.fsencode(full)
        st = os.lstat(full)
        u, g = str(id_in(st.st_uid)), str(id_in(st.st_gid))
        if st.st_nlink > 1 and not stat.S_ISDIR(st.st_mode):
            self.linked.add(full[len(os.fsencode(self.path)):])
        m = stat.S_IMODE(st.st_mode)
        if stat.S_ISREG(st.st_mode):
            c, k, n = self._content(full, st)
            return {"t": "reg", "u": u, "g": g, "m": m, "mt": self._mt(st), "sz": n, "c": c, "k": k}
        if stat.S_ISLNK(st.st_mode):
            return {"t": "lnk", "u": u, "g": g, "tg": enc(os.readlink(os.fsencode(full)))}
        if stat.S_ISDIR(st.st_mode):
            return {"t": "dir", "u": u, "g": g, "m": m, "mt": self._mt(st)}
        return {"t": "oth"}

    def snapshot_fs(self):
        """All paths outside the repository; /r itself without timestamp."""
        out = {}
        self.linked = set()

        def walk(full, p):
            with os.scandir(full) as it:
                names = sorted(e.name for e in it)
            for nm in names:
                f = full + b"/" + nm
                q = p + "/" + enc(nm)
                if q == "/r":
                    st = self.state(f)
                    st["mt"] = "0"
                    out[q] = st
                    continue
                st = self.state(f)
                out[q] = st
                if st["t"] == "dir":
                    walk(f, q)

        walk(os.fsencode(self.path), "")
        return out

    def snapshot_repo(self, root=None):
        out = {}

        def walk(full, p):
            with os.scandir(full) as it:
                names = sorted(e.name for e in it)
            for nm in names:
                f = full + b"/" + nm
                q = (p + "/" if p else "") + enc(nm)
                st = os.lstat(f)
                if stat.S_ISREG(st.st_mode):
                    c, k, n = self._content(f, st)
                    out[q] = {"t": "reg", "sz": n, "c": c, "k": k}
                elif stat.S_ISLNK(st.st_mode):
                    out[q] = {"t": "lnk", "tg": enc(os.readlink(f))}
                elif stat.S_ISDIR(st.st_mode):
                    out[q] = {"t": "dir"}
                    walk(f, q)
                else:
                    out[q] = {"t": "oth"}

        walk(os.fsencode(root or self.path + "/r"), "")
        return out

    def read_meta(self, root=None):
        """-> (meta, "") or (None, reason)"""
        try:
            with open((root or self.path + "/r") + "/metadata", "rb") as f:
                data = f.read()
        except FileNotFoundError:
            return M.NO_META, ""
        except OSError as e:
            return None, str(e)
        try:
            return M.parse(data, content_id), ""
        except M.Bad as e:
            return None, str(e)

    # -- changes made by the user ---------------------------------------------
    def full(self, p):
        return os.fsencode(self.path) + dec(p)

    def own(self, p, u, g):
        os.chown(self.full(p), id_out(u), id_out(g), follow_symlinks=False)

    def utime(self, p, t, ns=0):
        os.utime(self.full(p), ns=(t * 1000000000 + ns, t * 1000000000 + ns), follow_symlinks=False)

    def stamp_now(self):
        """Gives paths modified just now a timestamp of their own; True if any."""
        snap = self.snapshot_fs()
        some = False
        for p, st in snap.items():
            if st.get("mt") == "NOW":
                self.utime(p, self.fresh_time())
                some = True
        return some

    def remove(self, p):
        f = self.full(p)
        st = os.lstat(f)
        if stat.S_ISDIR(st.st_mode):
            shutil.rmtree(f)
        else:
            os.unlink(f)


class Event:
    __slots__ = ("idx", "name", "args", "p1", "p2", "ret", "data")

    def __init__(self, idx, name, args, p1, p2):
        self.idx, self.name, self.args, self.p1, self.p2 = idx, name, args, p1, p2
        self.ret, self.data = None, b""

    def __repr__(self):
        return "%d:%s(%s)%r,%r=%r" % (self.idx, self.name, ",".join(map(str, self.args)), self.p1,
                                      self.p2[:40], self.ret)
