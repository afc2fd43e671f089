"""Independent references: ML-KEM (FIPS 203) and the verification of SLH-DSA (FIPS 205).

Written from the standards, with none of the code under test; ML-KEM-768 and ML-KEM-1024 are
cross-checked against the implementation of Go (vectors/p14.json.gz, tools/vectors/gen.go).
"""
import hashlib
import hmac  # noqa: F401

Q = 3329


def _brv7(i):
    return int(f"{i:07b}"[::-1], 2)


ZETA = [pow(17, _brv7(i), Q) for i in range(128)]
GAMMA = [pow(17, 2 * _brv7(i) + 1, Q) for i in range(128)]
KEM = {"ml-kem-512": (2, 3, 2, 10, 4), "ml-kem-768": (3, 2, 2, 10, 4), "ml-kem-1024": (4, 2, 2, 11, 5)}


def _ntt(f):
    f, i, ln = list(f), 1, 128
    while ln >= 2:
        for s in range(0, 256, 2 * ln):
            z = ZETA[i]
            i += 1
            for j in range(s, s + ln):
                t = z * f[j + ln] % Q
                f[j + ln] = (f[j] - t) % Q
                f[j] = (f[j] + t) % Q
        ln //= 2
    return f


def _intt(f):
    f, i, ln = list(f), 127, 2
    while ln <= 128:
        for s in range(0, 256, 2 * ln):
            z = ZETA[i]
            i -= 1
            for j in range(s, s + ln):
                t = f[j]
                f[j] = (t + f[j + ln]) % Q
                f[j + ln] = z * (f[j + ln] - t) % Q
        ln *= 2
    return [x * 3303 % Q for x in f]


def _mul(a, b):
    out = [0] * 256
    for i in range(128):
        a0, a1, b0, b1 = a[2 * i], a[2 * i + 1], b[2 * i], b[2 * i + 1]
        out[2 * i] = (a0 * b0 + a1 * b1 * GAMMA[i]) % Q
        out[2 * i + 1] = (a0 * b1 + a1 * b0) % Q
    return out


def _add(*ps):
    return [sum(c) % Q for c in zip(*ps)]


def _uniform(rho, j, i):
    size = 672
    while True:
        b = hashlib.shake_128(rho + bytes([j, i])).digest(size)
        out = []
        for k in range(0, size - 2, 3):
            d1 = b[k] + 256 * (b[k + 1] % 16)
            d2 = b[k + 1] // 16 + 16 * b[k + 2]
            if d1 < Q:
                out.append(d1)
            if d2 < Q:
                out.append(d2)
        if len(out) >= 256:
            return out[:256]
        size += 168


def _cbd(eta, s, n):
    v = int.from_bytes(hashlib.shake_256(s + bytes([n])).digest(64 * eta), "little")
    out, m = [], (1 << eta) - 1
    for _ in range(256):
        a, b = v & m, (v >> eta) & m
        v >>= 2 * eta
        out.append((bin(a).count("1") - bin(b).count("1")) % Q)
    return out


def _enc(d, f):
    v = 0
    for i, x in enumerate(f):
        v |= x << (d * i)
    return v.to_bytes(32 * d, "little")


def _dec(d, b):
    v, m = int.from_bytes(b, "little"), (1 << d) - 1
    return [((v >> (d * i)) & m) % (Q if d == 12 else 1 << d) for i in range(256)]


def _comp(d, f):
    return [((x << (d + 1)) + Q) // (2 * Q) % (1 << d) for x in f]


def _decomp(d, f):
    return [(x * 2 * Q + (1 << d)) >> (d + 1) for x in f]


def kem_keygen(name, d, z):
    k, eta1 = KEM[name][:2]
    g = hashlib.sha3_512(d + bytes([k])).digest()
    rho, sig = g[:32], g[32:]
    s = [_ntt(_cbd(eta1, sig, i)) for i in range(k)]
    e = [_ntt(_cbd(eta1, sig, k + i)) for i in range(k)]
    t = [_add(e[i], *[_mul(_uniform(rho, j, i), s[j]) for j in range(k)]) for i in range(k)]
    ek = b"".join(_enc(12, x) for x in t) + rho
    return ek, b"".join(_enc(12, x) for x in s) + ek + hashlib.sha3_256(ek).digest() + z


def _pke_enc(name, ek, m, r):
    k, eta1, eta2, du, dv = KEM[name]
    t = [_dec(12, ek[384 * i:384 * i + 384]) for i in range(k)]
    rho = ek[384 * k:]
    y = [_ntt(_cbd(eta1, r, i)) for i in range(k)]
    e1 = [_cbd(eta2, r, k + i) for i in range(k)]
    e2 = _cbd(eta2, r, 2 * k)
    u = [_add(_intt(_add(*[_mul(_uniform(rho, i, j), y[j]) for j in range(k)])), e1[i]) for i in range(k)]
    v = _add(_intt(_add(*[_mul(t[j], y[j]) for j in range(k)])), e2, _decomp(1, _dec(1, m)))
    return b"".join(_enc(du, _comp(du, x)) for x in u) + _enc(dv, _comp(dv, v))


def kem_encaps(name, ek, m):
    g = hashlib.sha3_512(m + hashlib.sha3_256(ek).digest()).digest()
    return g[:32], _pke_enc(name, ek, m, g[32:])


def kem_decaps(name, dk, c):
    k, _, _, du, dv = KEM[name]
    s = [_dec(12, dk[384 * i:384 * i + 384]) for i in range(k)]
    ek, h, z = dk[384 * k:768 * k + 32], dk[768 * k + 32:768 * k + 64], dk[768 * k + 64:]
    u = [_decomp(du, _dec(du, c[32 * du * i:32 * du * (i + 1)])) for i in range(k)]
    v = _decomp(dv, _dec(dv, c[32 * du * k:]))
    w = _intt(_add(*[_mul(s[i], _ntt(u[i])) for i in range(k)]))
    m = _enc(1, _comp(1, [(a - b) % Q for a, b in zip(v, w)]))
    g = hashlib.sha3_512(m + h).digest()
    return g[:32] if _pke_enc(name, ek, m, g[32:]) == c else hashlib.shake_256(z + c).digest(32)


# -- SLH-DSA ---------------------------------------------------------------------------------------
SLH = {"128s": (16, 63, 7, 9, 12, 14, 30), "128f": (16, 66, 22, 3, 6, 33, 34),
       "192s": (24, 63, 7, 9, 14, 17, 39), "192f": (24, 66, 22, 3, 8, 33, 42),
       "256s": (32, 64, 8, 8, 14, 22, 47), "256f": (32, 68, 17, 4, 9, 35, 49)}
PREHASH = {"sha256": ("0609608648016503040201", lambda m: hashlib.sha256(m).digest()),
           "sha512": ("0609608648016503040203", lambda m: hashlib.sha512(m).digest()),
           "shake128": ("060960864801650304020b", lambda m: hashlib.shake_128(m).digest(32)),
           "shake256": ("060960864801650304020c", lambda m: hashlib.shake_256(m).digest(64))}


def slh_sig_size(name):
    n, h, d, _, a, k, _ = SLH[name.rsplit("-", 1)[1]]
    return n * (1 + k * (1 + a) + h + d * (2 * n + 3))


def _mgf1(h, seed, ln):
    out, i = b"", 0
    while len(out) < ln:
        out += h(seed + i.to_bytes(4, "big")).digest()
        i += 1
    return out[:ln]


class _Slh:
    def __init__(self, name):
        self.sha2 = "sha2" in name
        self.n, self.h, self.d, self.hp, self.a, self.k, self.m = SLH[name.rsplit("-", 1)[1]]

    def hmsg(self, r, seed, root, msg):
        if not self.sha2:
            return hashlib.shake_256(r + seed + root + msg).digest(self.m)
        h = hashlib.sha256 if self.n == 16 else hashlib.sha512
        return _mgf1(h, r + seed + h(r + seed + root + msg).digest(), self.m)

    def t(self, seed, adrs, msg, small=False):
        layer, tree, typ, w1, w2, w3 = adrs
        tail = b"".join(x.to_bytes(4, "big") for x in (w1, w2, w3))
        if not self.sha2:
            a = layer.to_bytes(4, "big") + tree.to_bytes(12, "big") + typ.to_bytes(4, "big") + tail
            return hashlib.shake_256(seed + a + msg).digest(self.n)
        a = layer.to_bytes(1, "big") + tree.to_bytes(8, "big") + typ.to_bytes(1, "big") + tail
        if self.n == 16 or small:
            return hashlib.sha256(seed + bytes(64 - self.n) + a + msg).digest()[:self.n]
        return hashlib.sha512(seed + bytes(128 - self.n) + a + msg).digest()[:self.n]

    def wots_pk(self, seed, layer, tree, kp, sig, msg):
        n = self.n
        d = [x for b in msg for x in (b >> 4, b & 15)]
        csum = sum(15 - x for x in d) << 4
        d += [(csum >> 12) & 15, (csum >> 8) & 15, (csum >> 4) & 15]
        out = b""
        for i, x in enumerate(d):
            v = sig[i * n:i * n + n]
            for j in range(x, 15):
                v = self.t(seed, (layer, tree, 0, kp, i, j), v, small=True)
            out += v
        return self.t(seed, (layer, tree, 1, kp, 0, 0), out)

    def climb(self, seed, node, idx, auth, adrs):
        layer, tree, typ, kp = adrs
        for z in range(len(auth) // self.n):
            a = auth[z * self.n:(z + 1) * self.n]
            pair = a + node if idx & 1 else node + a
            idx >>= 1
            node = self.t(seed, (layer, tree, typ, kp, z + 1, idx), pair)
        return node

    def root(self, pk, sig, msg):
        n, h, d, hp, a, k = self.n, self.h, self.d, self.hp, self.a, self.k
        seed, root = pk[:n], pk[n:]
        r, pos = sig[:n], n
        dg = self.hmsg(r, seed, root, msg)
        l1, l2, l3 = (k * a + 7) // 8, (h - h // d + 7) // 8, (h // d + 7) // 8
        md = int.from_bytes(dg[:l1], "big") >> (8 * l1 - k * a)
        tree = int.from_bytes(dg[l1:l1 + l2], "big") % (1 << (h - h // d))
        leaf = int.from_bytes(dg[l1 + l2:l1 + l2 + l3], "big") % (1 << (h // d))
        roots = b""
        for i in range(k):
            idx = (md >> (a * (k - 1 - i))) & ((1 << a) - 1)
            sk, pos = sig[pos:pos + n], pos + n
            node = self.t(seed, (0, tree, 3, leaf, 0, (i << a) + idx), sk, small=True)
            auth, pos = sig[pos:pos + a * n], pos + a * n
            roots += self.climb(seed, node, (i << a) + idx, auth, (0, tree, 3, leaf))
        node = self.t(seed, (0, tree, 4, leaf, 0, 0), roots)
        for layer in range(d):
            ln = (2 * n + 3) * n
            w, pos = sig[pos:pos + ln], pos + ln
            auth, pos = sig[pos:pos + hp * n], pos + hp * n
            node = self.wots_pk(seed, layer, tree, leaf, w, node)
            node = self.climb(seed, node, leaf, auth, (layer, tree, 2, 0))
            leaf, tree = tree % (1 << hp), tree >> hp
        return node


def slh_verify(name, pk, sig, msg, ctx=b"", hash_alg=None):
    """FIPS 205 verification; hash_alg for HashSLH-DSA."""
    if len(sig) != slh_sig_size(name) or len(ctx) > 255:
        return False
    s = _Slh(name)
    if len(pk) != 2 * s.n:
        return False
    if hash_alg is None:
        m = b"\x00" + bytes([len(ctx)]) + ctx + msg
    else:
        oid, ph = PREHASH[hash_alg]
        m = b"\x01" + bytes([len(ctx)]) + ctx + bytes.fromhex(oid) + ph(msg)
    return s.root(pk, sig, m) == pk[s.n:]


# -- FrodoKEM (salted, ISO) ------------------------------------------------------------------------
FRODO = {
    640: (15, 2, 16, 32, hashlib.shake_128, [4643, 13363, 20579, 25843, 29227, 31145, 32103, 32525, 32689, 32745,
                                             32762, 32766, 32767]),
    976: (16, 3, 24, 48, hashlib.shake_256, [5638, 15915, 23689, 28571, 31116, 32217, 32613, 32731, 32760, 32766,
                                             32767]),
    1344: (16, 4, 32, 64, hashlib.shake_256, [9142, 23462, 30338, 32361, 32725, 32765, 32767]),
}
LANE = 48


class Frodo:
    """FrodoKEM with explicit randomness."""

    def __init__(self, name):
        _, n, self.gen = name.lower().split("-")
        self.n = int(n)
        self.D, self.B, self.sec, self.se, self.sh, self.cdf = FRODO[self.n]
        self.mask = (1 << self.D) - 1
        self.pk_len = 16 + self.D * self.n
        self.ct_len = self.D * self.n + self.D * 8 + self.se
        self.seed_len = self.sec + self.se + 16

    def shake(self, data, ln):
        return self.sh(data).digest(ln)

    def a_rows(self, seed):
        n = self.n
        if self.gen == "shake":
            for i in range(n):
                b = hashlib.shake_128(i.to_bytes(2, "little") + seed).digest(2 * n)
                yield [int.from_bytes(b[2 * j:2 * j + 2], "little") & self.mask for j in range(n)]
            return
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
        e = Cipher(algorithms.AES(seed), modes.ECB()).encryptor()
        for i in range(n):
            blk = b"".join(i.to_bytes(2, "little") + j.to_bytes(2, "little") + bytes(12) for j in range(0, n, 8))
            b = e.update(blk)
            yield [int.from_bytes(b[2 * j:2 * j + 2], "little") & self.mask for j in range(n)]

    def samples(self, data):
        out = []
        for i in range(0, len(data), 2):
            r = data[i] | data[i + 1] << 8
            e = sum(1 for c in self.cdf[:-1] if (r >> 1) > c)
            out.append(-e if r & 1 else e)
        return out

    def pack(self, vals):
        v = 0
        for x in vals:
            v = v << self.D | (x & self.mask)
        return v.to_bytes(len(vals) * self.D // 8, "big")

    def unpack(self, b):
        v, cnt = int.from_bytes(b, "big"), len(b) * 8 // self.D
        return [(v >> (self.D * (cnt - 1 - i))) & self.mask for i in range(cnt)]

    def encode(self, mu):
        v = int.from_bytes(mu, "little")
        return [((v >> (self.B * i)) & ((1 << self.B) - 1)) << (self.D - self.B) for i in range(64)]

    def decode(self, m):
        v = 0
        for i, x in enumerate(m):
            v |= (((x & self.mask) + (1 << (self.D - self.B - 1))) >> (self.D - self.B)) % (1 << self.B) << (self.B * i)
        return v.to_bytes(64 * self.B // 8, "little")

    @staticmethod
    def lanes(col):
        """Eight values as one big integer (for the products)."""
        v = 0
        for i, x in enumerate(col):
            v += x << (LANE * i)
        return v

    def split(self, v):
        out, m = [], (1 << LANE) - 1
        for _ in range(8):
            x = v & m
            if x >> (LANE - 1):
                x -= 1 << LANE
            out.append(x & self.mask)
            v = (v - x) >> LANE
        return out

    def keygen(self, seed):
        n = self.n
        s, se, z = seed[:self.sec], seed[self.sec:self.sec + self.se], seed[self.sec + self.se:]
        sa = self.shake(z, 16)
        r = self.samples(self.shake(b"\x5f" + se, 2 * n * 8 * 2))
        st = [r[i * n:(i + 1) * n] for i in range(8)]
        e = r[8 * n:]
        packed = [self.lanes([st[k][j] for k in range(8)]) for j in range(n)]
        b = []
        for i, row in enumerate(self.a_rows(sa)):
            acc = sum(a * p for a, p in zip(row, packed))
            b += [x + e[8 * i + k] for k, x in enumerate(self.split(acc))]
        pk = sa + self.pack(b)
        sk = s + pk + b"".join((x & 0xFFFF).to_bytes(2, "little") for row in st for x in row) + self.shake(pk, self.sec)
        return pk, sk

    def _enc(self, pk, mu, salt):
        n = self.n
        sk = self.shake(self.shake(pk, self.sec) + mu + salt, self.se + self.sec)
        se, k = sk[:self.se], sk[self.se:]
        r = self.samples(self.shake(b"\x96" + se, (2 * 8 * n + 64) * 2))
        sp = [r[i * n:(i + 1) * n] for i in range(8)]
        ep, epp = r[8 * n:16 * n], r[16 * n:]
        cols = [self.lanes([sp[k2][i] for k2 in range(8)]) for i in range(n)]
        acc = [0] * n
        for i, row in enumerate(self.a_rows(pk[:16])):
            c = cols[i]
            acc = [x + c * a for x, a in zip(acc, row)]
        sb = [self.split(x) for x in acc]  # per column j: the 8 rows
        bp = [sb[j][i] + ep[i * n + j] for i in range(8) for j in range(n)]
        bm = self.unpack(pk[16:])
        vacc = [sum(cols[j] * bm[8 * j + c] for j in range(n)) for c in range(8)]
        vs = [self.split(x) for x in vacc]
        m = self.encode(mu)
        cc = [vs[c][i] + epp[8 * i + c] + m[8 * i + c] for i in range(8) for c in range(8)]
        return self.pack(bp) + self.pack(cc), k

    def encaps(self, pk, rnd):
        mu, salt = rnd[:self.sec], rnd[self.sec:]
        c, k = self._enc(pk, mu, salt)
        return c + salt, self.shake(c + salt + k, self.sec)

    def decaps(self, sk, ct):
        n = self.n
        c1, c2, salt = ct[:self.D * n], ct[self.D * n:self.D * n + 8 * self.D], ct[self.D * (n + 8):]
        s, pk = sk[:self.sec], sk[self.sec:self.sec + self.pk_len]
        raw = sk[self.sec + self.pk_len:-self.sec]
        st = [int.from_bytes(raw[2 * i:2 * i + 2], "little", signed=True) for i in range(8 * n)]
        bp, c = self.unpack(c1), self.unpack(c2)
        m = [c[8 * i + j] - sum(bp[i * n + x] * st[j * n + x] for x in range(n)) for i in range(8) for j in range(8)]
        mu = self.decode(m)
        c_, k = self._enc(pk, mu, salt)
        return self.shake(ct + (k if c_ == c1 + c2 else s), self.sec)
