"""Independent reader of nano-backup's metadata files."""
import struct
from .enc import enc

POL = ["none", "copy", "mirror", "track"]


class Bad(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.d = data
        self.i = 0

    def take(self, n):
        if n > len(self.d) - self.i:
            raise Bad("truncated")
        r = self.d[self.i:self.i + n]
        self.i += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]

    def u64(self):
        return struct.unpack("<Q", self.take(8))[0]

    def i64(self):
        return struct.unpack("<q", self.take(8))[0]


def hash_prefix(h20):
    x = h20.hex()
    return x[0] + "/" + x[1:3] + "/" + x[3:]


def read_state(r, content_id):
    t = r.u8()
    if t == 0:
        return {"t": "non"}
    u, g = r.u32(), r.u32()
    if t == 1:
        mode, mt, sz = r.u32(), r.i64(), r.u64()
        st = {"t": "reg", "u": str(u), "g": str(g), "m": mode & 0o7777, "mt": str(mt),
              "sz": sz if sz < 2**31 else -1, "k": "", "sl": ""}
        if mode & ~0o7777 != 0o100000:
            raise Bad("file type bits of a regular file")
        if sz > 20:
            st["k"] = hash_prefix(r.take(20))
            st["sl"] = "%x" % r.u8()
        elif sz > 0:
            st["k"] = content_id(r.take(sz))
        return st
    if t == 2:
        n = r.u64()
        if n > len(r.d):
            raise Bad("truncated")
        return {"t": "lnk", "u": str(u), "g": str(g), "tg": enc(r.take(n))}
    if t == 3:
        mode, mt = r.u32(), r.i64()
        if mode & ~0o7777 != 0o040000:
            raise Bad("file type bits of a directory")
        return {"t": "dir", "u": str(u), "g": str(g), "m": mode & 0o7777, "mt": str(mt)}
    raise Bad("state type")


def parse(data, content_id):
    """-> {"ex", "times", "paths"}; raises Bad."""
    r = Reader(data)
    n = r.u64()
    if n * 8 > len(data):
        raise Bad("truncated")
    times = [str(r.i64()) for _ in range(n)]
    paths = {}

    def hist():
        c = r.u64()
        if c * 9 > len(data):
            raise Bad("truncated")
        out = []
        for _ in range(c):
            i = r.u64()
            if i >= n:
                raise Bad("backup id")
            out.append({"id": i, "st": read_state(r, content_id)})
        return out

    hist()
    r.u64()

    def plist(parent):
        c = r.u64()
        if c * 10 > len(data):
            raise Bad("truncated")
        for _ in range(c):
            nm = r.take(r.u64())
            if nm in (b"", b".", b"..") or b"/" in nm or b"\0" in nm:
                raise Bad("path name")
            p = parent + "/" + enc(nm)
            if p in paths:
                raise Bad("path twice")
            pol = r.u8()
            if pol > 3:
                raise Bad("policy")
            h = hist()
            if not h:
                raise Bad("no history")
            paths[p] = {"pol": POL[pol], "hist": h}
            plist(p)

    plist("")
    if r.i != len(data):
        raise Bad("trailing bytes")
    return {"ex": True, "times": times, "paths": paths}


NO_META = {"ex": False, "times": [], "paths": {}}


def rewrite(data, rng, slots):
    """The same metadata, the paths of every directory in another order, and
    contents under other slots: {(prefix, hexadecimal size, slot): slot}."""
    data = bytearray(data)
    r = Reader(data)

    def history():
        for _ in range(r.u64()):
            r.u64()
            st = read_state(r, lambda b: "")
            if st.get("sl"):
                size = struct.unpack("<Q", data[r.i - 29:r.i - 21])[0]
                key = (st["k"], "%x" % size, st["sl"])
                if key in slots:
                    data[r.i - 1] = slots[key]

    def plist():
        out = []
        for _ in range(r.u64()):
            at = r.i
            r.take(r.u64())
            r.u8()
            history()
            own = bytes(data[at:r.i])
            out.append(own + plist())
        k = rng.randrange(3)
        if k == 0:
            out.reverse()
        elif k == 1:
            out.sort(key=lambda b: b[8:], reverse=rng.random() < 0.5)
        else:
            rng.shuffle(out)
        return struct.pack("<Q", len(out)) + b"".join(out)

    r.take(8 * r.u64())
    history()
    r.u64()
    head = bytes(data[:r.i])
    body = plist()
    if r.i != len(data):
        raise Bad("trailing bytes")
    return head + body
