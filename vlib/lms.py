"""Independent HSS / LMS / LM-OTS verification (RFC 8554, with the parameter sets of SP 800-208)."""

import hashlib
import math

LMS = {}
LMOTS = {}
for _base, _h, _n in ((5, "sha256", 32), (10, "sha256", 24), (15, "shake", 32), (20, "shake", 24)):
    for _i, _height in enumerate((5, 10, 15, 20, 25)):
        LMS[_base + _i] = (_h, _n, _height)
for _base, _h, _n in ((1, "sha256", 32), (5, "sha256", 24), (9, "shake", 32), (13, "shake", 24)):
    for _i, _w in enumerate((1, 2, 4, 8)):
        LMOTS[_base + _i] = (_h, _n, _w)


def H(name, n, data):
    return hashlib.sha256(data).digest()[:n] if name == "sha256" else hashlib.shake_256(data).digest(n)


def u32(x):
    return x.to_bytes(4, "big")


def i32(b):
    return int.from_bytes(b[:4], "big")


class Bad(Exception):
    pass


class Reader:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Bad("short")
        out = self.b[self.i:self.i + n]
        self.i += n
        return out


def digits(n, w, q):
    u = 8 * n // w
    v = math.ceil(((2**w - 1) * u).bit_length() / w)
    ls = 16 - v * w
    total = 0
    bits = int.from_bytes(q, "big")
    ds = [(bits >> (8 * n - w * (i + 1))) & (2**w - 1) for i in range(u)]
    for d in ds:
        total += 2**w - 1 - d
    c = (total << ls) & 0xFFFF
    ds += [(c >> (16 - w * (i + 1))) & (2**w - 1) for i in range(v)]
    return ds


def read_lms_sig(r):
    """(q, ots type, C, y, lms type, path)"""
    q = i32(r.take(4))
    ots = i32(r.take(4))
    if ots not in LMOTS:
        raise Bad("LM-OTS type")
    h, n, w = LMOTS[ots]
    c = r.take(n)
    u = 8 * n // w
    v = math.ceil(((2**w - 1) * u).bit_length() / w)
    y = [r.take(n) for _ in range(u + v)]
    t = i32(r.take(4))
    if t not in LMS or LMS[t][1] != n:
        raise Bad("LMS type")
    return q, ots, c, y, t, [r.take(n) for _ in range(LMS[t][2])]


def read_lms_pub(r):
    t = i32(r.take(4))
    ots = i32(r.take(4))
    if t not in LMS:
        raise Bad("LMS type")
    return t, ots, r.take(16), r.take(LMS[t][1])


def lms_verify(pub, msg, sig):
    t, ots, ident, root = pub
    q, sots, c, y, st, path = sig
    if t != st or ots != sots:
        raise Bad("types")
    h, n, height = LMS[t]
    if q >= 2**height:
        raise Bad("index")
    w = LMOTS[ots][2]
    Q = H(h, n, ident + u32(q) + b"\x81\x81" + c + msg)
    z = []
    for i, d in enumerate(digits(n, w, Q)):
        x = y[i]
        for j in range(d, 2**w - 1):
            x = H(h, n, ident + u32(q) + i.to_bytes(2, "big") + bytes([j]) + x)
        z.append(x)
    k = H(h, n, ident + u32(q) + b"\x80\x80" + b"".join(z))
    node = 2**height + q
    x = H(h, n, ident + u32(node) + b"\x82\x82" + k)
    for p in path:
        x = H(h, n, ident + u32(node // 2) + b"\x83\x83" + (p + x if node & 1 else x + p))
        node //= 2
    if x != root:
        raise Bad("root")


def hss(pub, msg, sig):
    """Verifies; gives [(identifier of the tree, index, what it signed)] from the top to the bottom."""
    r = Reader(pub)
    levels = i32(r.take(4))
    key = read_lms_pub(r)
    if r.i != len(pub):
        raise Bad("rest")
    r = Reader(sig)
    if i32(r.take(4)) + 1 != levels:
        raise Bad("levels")
    out = []
    for _ in range(levels - 1):
        s = read_lms_sig(r)
        a = r.i
        nxt = read_lms_pub(r)
        signed = r.b[a:r.i]
        lms_verify(key, signed, s)
        out.append((key[2], s[0], signed))
        key = nxt
    s = read_lms_sig(r)
    if r.i != len(sig):
        raise Bad("rest")
    lms_verify(key, msg, s)
    out.append((key[2], s[0], msg))
    return out
