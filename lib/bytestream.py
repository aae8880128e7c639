"""Bytes that commands write: command k owns the byte values {k + 40 j | j < 6}, so that every byte of jom's output is attributable."""
import re

N = 65521


def _table():
    x, out = 1, bytearray()
    for _ in range(N):
        x = (x * 1103515245 + 12345) & 0xffffffff
        out.append((x >> 16) % 6)
    return bytes(out)


TABLE = _table()
XLAT = {k: bytes((k + 40 * b) & 255 if b < 6 else 0 for b in range(256)) for k in range(40)}
OWNERS = bytes((b % 40 if b < 240 else 255) for b in range(256))
RUN = re.compile(rb"(.)\1*", re.S)


def gen(k, seed, n):
    """what 'jt G:k:seed:n:...' writes"""
    o = seed % N
    t = TABLE[o:] + TABLE * (n // N + 1)
    return t[:n].translate(XLAT[k])


def demux(data):
    """owner -> bytes, and the list of (owner, length) runs"""
    runs, parts, i = [], {}, 0
    for m in RUN.finditer(data.translate(OWNERS)):
        o, n = m.group(1)[0], m.end() - m.start()
        runs.append((o, n))
        parts.setdefault(o, []).append(data[m.start():m.end()])
    return {o: b"".join(v) for o, v in parts.items()}, runs


def first_diff(a, b):
    n = min(len(a), len(b))
    lo, hi = 0, n
    while lo < hi:                        # longest common prefix
        mid = (lo + hi + 1) // 2
        if a[:mid] == b[:mid]:
            lo = mid
        else:
            hi = mid - 1
    return lo
