"""Strings for the specification: printable ASCII, everything else as %XX."""

_PLAIN = set(range(0x20, 0x7F)) - {ord("%"), ord('"'), ord("\\")}
_TOK = [chr(b) if b in _PLAIN else "%%%02X" % b for b in range(256)]


def enc(data):
    """bytes -> str"""
    return "".join(_TOK[b] for b in data)


def toks(data):
    """bytes -> list of one-character tokens"""
    return [_TOK[b] for b in data]


def dec(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "%":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)
