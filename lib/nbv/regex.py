"""POSIX extended regular expressions of the C library."""
import ctypes
import functools

_libc = ctypes.CDLL(None)
REG_EXTENDED, REG_NOSUB = 1, 8


class _Regex(ctypes.Structure):
    _fields_ = [("buf", ctypes.c_char * 256)]


_live = []


@functools.lru_cache(maxsize=4096)
def compile_(pattern):
    if b"\0" in pattern:
        return None
    r = _Regex()
    if _libc.regcomp(ctypes.byref(r), ctypes.c_char_p(pattern), REG_EXTENDED | REG_NOSUB) != 0:
        return None
    _live.append(r)
    return r


def ok(pattern):
    return compile_(pattern) is not None


def match(pattern, s):
    r = compile_(pattern)
    return r is not None and _libc.regexec(ctypes.byref(r), ctypes.c_char_p(s), 0, None, 0) == 0


_libc.setlocale.restype = ctypes.c_char_p
_libc.setlocale(6, b"C")  # LC_ALL: the same locale as the program's
