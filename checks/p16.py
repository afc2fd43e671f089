"""P16: hybrid KEMs agree on one secret and bind both components."""

import hashlib
import hmac

from vlib.core import Job

RULE = ("case = (combination, kind of change of ciphertext or key, way of encapsulation); decapsulating with the matching key must "
        "give the encapsulated secret (and the one an independent combiner computes from the parts), a changed ciphertext, another "
        "component key or another scheme over the same components must give an error or another secret")
REQUIRED = {"agree": 60, "reference": 40, "changed": 250, "other_key": 60, "other_scheme": 30, "vector": 12, "dhkem": 10, "rsa_kem": 4}
ASSUMPTIONS = ["McEliece and sntrup761 need liboqs, which is absent: their Chempat combinations are not run",
               "the combiner of composite KEMs is compared with the draft (and its vectors) for use_in_cms=False"]
NOTE = "combiners of X-Wing, composite KEM and DHKEM (RFC 9180) written independently; draft vectors for composite KEM"

CURVES = {"secp256r1": "SECP256R1", "secp384r1": "SECP384R1", "secp521r1": "SECP521R1", "brainpoolP256r1": "BrainpoolP256R1",
          "brainpoolP384r1": "BrainpoolP384R1", "brainpoolP512r1": "BrainpoolP512R1"}
OID_BASE = "2.16.840.1.114027.80.5.2."


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def flip(rng, data, lo=0, hi=None):
    b = bytearray(data)
    b[rng.randrange(lo, len(b) if hi is None else hi)] ^= 1 << rng.randrange(8)
    return bytes(b)


def split(name):
    fam = next(f for f in ("composite-kem-", "composite-dhkem-", "chempat-", "xwing") if name.startswith(f))
    if fam == "xwing":
        return "xwing", "ml-kem-768", "x25519"
    rest = name[len(fam):]
    n = 10 if rest.startswith("ml-kem-7") or rest.startswith("ml-kem-5") else 11 if rest.startswith("ml-kem-1") else None
    if n is None:  # frodokem-976-aes-...
        p = rest.split("-")
        return fam[:-1], "-".join(p[:3]), "-".join(p[3:])
    return fam[:-1], rest[:n], rest[n + 1:]


def pq_key(rng, name):
    from pq_logic.keys.kem_keys import FrodoKEMPrivateKey, MLKEMPrivateKey
    if name.startswith("ml-kem"):
        return MLKEMPrivateKey.from_seed(alg_name=name, seed=rb(rng, 64))
    return FrodoKEMPrivateKey(alg_name=name)


def trad_key(name):
    from cryptography.hazmat.primitives.asymmetric import ec, rsa, x448, x25519
    if name == "x25519":
        return x25519.X25519PrivateKey.generate()
    if name == "x448":
        return x448.X448PrivateKey.generate()
    if name.startswith("rsa"):
        return rsa.generate_private_key(65537, int(name[3:]))
    return ec.generate_private_key(getattr(ec, CURVES[name[5:]])())


def make(fam, pq, trad):
    from pq_logic.keys import chempat_key, composite_kem, xwing
    if fam == "xwing":
        return xwing.XWingPrivateKey(pq_key=pq, trad_key=trad)
    if fam == "chempat":
        return chempat_key.ChempatPrivateKey.parse_keys(pq, trad)
    if fam == "composite-kem":
        return composite_kem.CompositeKEMPrivateKey(pq_key=pq, trad_key=trad)
    return composite_kem.CompositeDHKEMRFC9180PrivateKey(pq_key=pq, trad_key=trad)


def encode_pub(k):
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    if isinstance(k, ec.EllipticCurvePublicKey):
        return k.public_bytes(Encoding.X962, PublicFormat.UncompressedPoint)
    if isinstance(k, rsa.RSAPublicKey):
        return k.public_bytes(Encoding.DER, PublicFormat.PKCS1)
    return k.public_bytes_raw()


def load_pub(like, data):
    from cryptography.hazmat.primitives.asymmetric import ec, x448, x25519
    if isinstance(like, ec.EllipticCurvePublicKey):
        return ec.EllipticCurvePublicKey.from_encoded_point(like.curve, data)
    return (x25519.X25519PublicKey if isinstance(like, x25519.X25519PublicKey) else x448.X448PublicKey).from_public_bytes(data)


def dh(priv, pub):
    from cryptography.hazmat.primitives.asymmetric import ec
    return priv.exchange(ec.ECDH(), pub) if isinstance(priv, ec.EllipticCurvePrivateKey) else priv.exchange(pub)


def hkdf(h, salt, ikm, info, n):
    """RFC 5869."""
    prk = hmac.new(salt or bytes(hashlib.new(h).digest_size), ikm, h).digest()
    out, t, i = b"", b"", 0
    while len(out) < n:
        i += 1
        t = hmac.new(prk, t + info + bytes([i]), h).digest()
        out += t
    return out[:n]


KEM_ID = {"secp256r1": (0x10, "sha256"), "secp384r1": (0x11, "sha384"), "secp521r1": (0x12, "sha512"), "x25519": (0x20, "sha256"),
          "x448": (0x21, "sha512"), "brainpoolP256r1": (0x10, "sha256"), "brainpoolP384r1": (0x11, "sha384"),
          "brainpoolP512r1": (0x12, "sha512")}


def dhkem_secret(name, shared, enc, pk):
    """ExtractAndExpand of RFC 9180 (the brainpool curves with the identifiers of the NIST curves)."""
    kid, h = KEM_ID[name.replace("ecdh-", "")]
    n = hashlib.new(h).digest_size
    suite = b"KEM" + kid.to_bytes(2, "big")
    return hkdf(h, b"", b"HPKE-v1" + suite + b"eae_prk" + shared,
                n.to_bytes(2, "big") + b"HPKE-v1" + suite + b"shared_secret" + enc + pk, n)


class Ref:
    """Decapsulation from the parts."""

    def __init__(self, name, pq, trad, oid):
        self.name, self.pq, self.trad = name, pq, trad
        self.fam, self.pqn, self.tn = split(name)
        self.oid = oid
        self.pk = encode_pub(trad.public_key())
        self.trad_len = len(self.pk) if not self.tn.startswith("rsa") else int(self.tn[3:]) // 8

    def parts(self, ct):
        n = self.pq.ct_length
        if self.fam == "chempat":
            return ct[self.trad_len:], ct[:self.trad_len]
        return ct[:n], ct[n:]

    def join(self, pq_ct, trad_ct):
        return trad_ct + pq_ct if self.fam == "chempat" else pq_ct + trad_ct

    def trad_ss(self, ct):
        if self.tn.startswith("rsa"):
            from cryptography.hazmat.primitives import hashes
            from cryptography.hazmat.primitives.asymmetric import padding
            h = hashes.SHA256()
            return self.trad.decrypt(ct, padding.OAEP(mgf=padding.MGF1(h), algorithm=h, label=None))
        s = dh(self.trad, load_pub(self.trad.public_key(), ct))
        return s if self.fam in ("composite-kem", "xwing") else dhkem_secret(self.tn, s, ct, self.pk)

    def secret(self, ct):
        """The secret by the specification, or None where this reference has none."""
        pct, tct = self.parts(ct)
        ps, ts = self.pq.decaps(pct), self.trad_ss(tct)
        if self.fam == "xwing":
            return hashlib.sha3_256(ps + ts + tct + self.pk + bytes.fromhex("5c2e2f2f5e5c")).digest()
        if self.fam.startswith("composite"):
            from pyasn1.codec.der import encoder
            data = ps + ts + tct + self.pk + encoder.encode(self.oid)
            if self.tn == "x25519" and ("768" in self.pqn or "976" in self.pqn) or self.tn == "x448":
                return hashlib.sha3_256(data).digest()
            h = "sha256" if "768" in self.pqn or "976" in self.pqn else "sha512"
            return hmac.new(bytes(hashlib.new(h).digest_size), data, h).digest()[:32]
        return None


def changed_ct(rng, ref, ct, other):
    """(name, ciphertext) that differ from ct in one component."""
    pct, tct = ref.parts(ct)
    pct2, tct2 = ref.parts(other)
    out = [("pq-bit", ref.join(flip(rng, pct), tct)), ("pq-last", ref.join(flip(rng, pct, len(pct) - 1), tct)),
           ("trad-bit", ref.join(pct, flip(rng, tct))), ("pq-spliced", ref.join(pct2, tct)), ("trad-spliced", ref.join(pct, tct2)),
           ("cut", ct[:-1]), ("trailing", ct + b"\0"), ("front", b"\0" + ct), ("order", tct + pct if ref.fam != "chempat" else pct + tct),
           ("pq-zero", ref.join(bytes(len(pct)), tct)), ("trad-zero", ref.join(pct, bytes(len(tct)))), ("trailing32", ct + rb(rng, 32)),
           ("pq-only", pct), ("trad-only", tct), ("empty", b"")]
    if ref.tn in ("x25519", "x448"):
        if ref.tn == "x25519":
            out.append(("top-bit", ref.join(pct, tct[:-1] + bytes([tct[-1] ^ 0x80]))))
        out.append(("low-order", ref.join(pct, b"\1" + bytes(len(tct) - 1))))
    elif ref.tn.startswith("ecdh"):
        p = {"secp256r1": 2**256 - 2**224 + 2**192 + 2**96 - 1, "secp384r1": 2**384 - 2**128 - 2**96 + 2**32 - 1,
             "secp521r1": 2**521 - 1}.get(ref.tn[5:])
        n = (len(tct) - 1) // 2
        if p:  # the negated point has the same shared x coordinate
            y = (p - int.from_bytes(tct[1 + n:], "big")) % p
            out.append(("negated", ref.join(pct, tct[:1 + n] + y.to_bytes(n, "big"))))
        out.append(("compressed", ref.join(pct, bytes([2 + (tct[-1] & 1)]) + tct[1:1 + n])))
        out.append(("hybrid-form", ref.join(pct, bytes([6 + (tct[-1] & 1)]) + tct[1:])))
    else:
        out.append(("negated", ref.join(pct, (int.from_bytes(tct, "big") ^ 1).to_bytes(len(tct), "big"))))
    return [(w, c) for w, c in out if c != ct]


def differs(rec, key, what, fn, ss, counter, /, **art):
    """fn must fail or give another secret."""
    rec.ev(*what, counter=counter)
    try:
        got = fn()
    except Exception as e:  # an error is one of the two allowed outcomes  # noqa
        rec.count("error-" + type(e).__name__)
        return
    rec.count("other_secret")
    rec.check(got != ss, key, f"{what}: the same secret", **art)


def hybrid(rec, name, rounds):
    from resources import cryptoutils
    rng = rec.rng
    fam, pqn, tn = split(name)
    pq, pq2 = pq_key(rng, pqn), pq_key(rng, pqn)
    trad, trad2 = trad_key(tn), trad_key(tn)
    ok, key = rec.must("make", lambda: make(fam, pq, trad))
    if not ok:
        return
    ref = Ref(name, pq, trad, key.get_oid())
    rec.check(key.name.lower() == name.lower(), "name", f"{name}: the key calls itself {key.name}")
    comp = fam.startswith("composite")
    frodo = pqn.startswith("frodo")
    pub = key.public_key()
    for i in range(rounds):
        cms = bool(i % 2) if comp else None
        kw = {"use_in_cms": cms} if comp else {}
        way = rng.choice(["direct", "util", "static", "reloaded"])
        static = trad_key(tn) if way == "static" and not tn.startswith("rsa") else None
        art = dict(name=name, way=way, cms=cms)
        from pq_logic.combined_factory import CombinedKeyFactory
        from resources.convertutils import subject_public_key_info_from_pubkey
        if way == "reloaded":
            ok, p = rec.must("reload", lambda: CombinedKeyFactory.load_public_key_from_spki(subject_public_key_info_from_pubkey(pub)))
            if not ok:
                continue
            rec.check(p == pub, "reload", f"{name}: reloaded key differs")
        else:
            p = pub
        if way == "util":
            ok, r = rec.must("encaps", lambda: cryptoutils.compute_encapsulation(p, **kw))
        elif static is not None:
            ok, r = rec.must("encaps", lambda: p.encaps(private_key=static, **kw))
        else:
            ok, r = rec.must("encaps", lambda: p.encaps(**kw))
        ok2, r2 = rec.must("encaps", lambda: p.encaps(**kw))
        if not (ok and ok2):
            continue
        (ss, ct), (ss2, ct2) = r, r2
        art.update(ss=ss, ct=ct)
        rec.check(len(ss) == 32, "secret-length", f"{name}: secret of {len(ss)} bytes", **art)
        rec.check(len(ct) == pq.ct_length + ref.trad_len, "ct-length", f"{name}: ciphertext of {len(ct)} bytes", **art)
        rec.check(ss != ss2 and ct != ct2, "not-fresh", f"{name}: two encapsulations agree", **art)
        if static is not None:
            rec.check(ref.parts(ct)[1] == encode_pub(static.public_key()), "static", f"{name}: the given ephemeral key was not used", **art)
        dec = (lambda c: cryptoutils.compute_decapsulation(key, c, **kw)) if way == "util" else (lambda c: key.decaps(c, **kw))
        rec.ev(name, "agree", way, cms, counter="agree")
        ok, got = rec.must("decaps", lambda: dec(ct))
        if ok:
            rec.check(got == ss, "disagree", f"{name} {way}: decapsulation gives another secret", **art)
        if cms is not True:
            want = ref.secret(ct)
            if want is not None:
                rec.ev(name, "reference", counter="reference")
                rec.check(want == ss, "not-the-specification", f"{name}: the secret differs from the specified combiner", **art)
        cases = changed_ct(rng, ref, ct, ct2)
        if frodo and rec.tier == "quick":
            cases = rng.sample(cases, 4)
        for what, c in cases:
            differs(rec, "unbound-ciphertext", (name, what, cms), lambda: dec(c), ss, "changed", **dict(art, changed=c))
        for what, k in (("pq", make(fam, pq2, trad)), ("trad", make(fam, pq, trad2)), ("both", make(fam, pq2, trad2))):
            if frodo and rec.tier == "quick" and rng.random() < 0.5:
                continue
            differs(rec, "unbound-key", (name, "other-" + what, cms), lambda: k.decaps(ct, **kw), ss, "other_key", **art)
        # the same components in other schemes
        for f in ("xwing", "chempat", "composite-kem", "composite-dhkem"):
            if f == fam or f == "xwing" and (pqn, tn) != ("ml-kem-768", "x25519") or tn.startswith("rsa") and f != "composite-kem":
                continue
            if frodo and rng.random() < 0.6:
                continue
            try:
                k = make(f, pq, trad)
                o = k.get_oid()
            except Exception:  # noqa  no such combination
                continue
            r2_ = Ref(f + "-" + pqn + "-" + tn if f != "xwing" else f, pq, trad, o)
            c = r2_.join(*ref.parts(ct))
            differs(rec, "unbound-scheme", (name, "as", f, cms), lambda: k.decaps(c, **({"use_in_cms": bool(cms)} if f.startswith("comp") else {})),
                    ss, "other_scheme", **art)
    if fam == "composite-kem" and not frodo:
        vector(rec, name)


def vector(rec, name):
    import base64
    import json
    from cryptography.hazmat.primitives.serialization import load_der_private_key
    from cryptography.hazmat.primitives.asymmetric import x448, x25519
    from pq_logic.keys.kem_keys import MLKEMPrivateKey
    from resources import certutils
    fam, pqn, tn = split(name)
    with open("data/rfc_test_vectors/composite_kem_testvectors.json") as f:
        data = json.load(f)
    t0 = {"x25519": "X25519", "x448": "X448"}.get(tn) or (tn.upper() if tn.startswith("rsa") else
         "ECDH-" + tn[5:].replace("secp256r1", "P256").replace("secp384r1", "P384").replace("secp521r1", "P521"))
    want = "id-" + pqn.upper().replace("-", "") + "-" + t0 + "-"
    for t in data["tests"]:
        if not t["tcId"].startswith(want):
            continue
        dk, ct, k = (base64.b64decode(t[x]) for x in ("dk", "c", "k"))
        rest = dk[64:]
        trad = {"x25519": x25519.X25519PrivateKey, "x448": x448.X448PrivateKey}[tn].from_private_bytes(rest) if tn.startswith("x") \
            else load_der_private_key(rest, None)
        key = make(fam, MLKEMPrivateKey.from_private_bytes(dk[:64], pqn), trad)
        rec.ev(name, "vector", counter="vector")
        ok, got = rec.must("vector", lambda: key.decaps(ct, use_in_cms=False))
        if ok:
            rec.check(got == k, "vector", f"{name}: secret of the vector of the draft")
        pub = certutils.load_public_key_from_cert(certutils.parse_certificate(base64.b64decode(t["x5c"])))
        rec.check(pub == key.public_key() and pub.public_bytes_raw() == base64.b64decode(t["ek"]), "vector-key", f"{name}: key of the vector")
        for what, c in changed_ct(rec.rng, Ref(name, key.pq_key, trad, key.get_oid()), ct, flip(rec.rng, ct)):
            differs(rec, "unbound-ciphertext", (name, "vector", what), lambda: key.decaps(c, use_in_cms=False), k, "changed", ct=c)


def xwing_seed(rec, rounds):
    """X-Wing from seeds: key derivation of the draft (and its first vector)."""
    from pq_logic.keys.xwing import XWingPrivateKey, XWingPublicKey
    from vlib import refpq
    from cryptography.hazmat.primitives.asymmetric import x25519
    rng = rec.rng
    for i in range(rounds):
        seed = rb(rng, 32)
        key = XWingPrivateKey.from_seed(seed)
        ex = hashlib.shake_256(seed).digest(96)
        ek, dk = refpq.kem_keygen("ml-kem-768", ex[:32], ex[32:64])
        want = ek + x25519.X25519PrivateKey.from_private_bytes(ex[64:]).public_key().public_bytes_raw()
        rec.check(key.public_key().public_bytes_raw() == want, "xwing-seed", "X-Wing key of a seed", seed=seed)
        pub = XWingPublicKey.from_public_bytes(want)
        ss, ct = pub.encaps()
        rec.ev("xwing", "seed", counter="agree")
        rec.check(XWingPrivateKey.from_seed(seed).decaps(ct) == ss, "disagree", "X-Wing by seed", seed=seed, ct=ct)


def trad(rec, rounds):
    """The traditional KEMs the hybrids are built of."""
    from pq_logic.keys.trad_kem_keys import DHKEMPrivateKey, RSADecapKey
    from resources import cryptoutils
    rng = rec.rng
    for tn in ("x25519", "x448") + tuple("ecdh-" + c for c in CURVES):
        for i in range(rounds):
            k, k2 = trad_key(tn), trad_key(tn)
            for rfc in (True, False):
                key = DHKEMPrivateKey(k, use_rfc9180=rfc)
                ss, ct = key.public_key().encaps(None)
                rec.ev(tn, rfc, counter="dhkem")
                pk = encode_pub(k.public_key())
                s = dh(k, load_pub(k.public_key(), ct))
                want = dhkem_secret(tn, s, ct, pk) if rfc else s
                rec.check(ss == want == key.decaps(ct), "dhkem", f"DHKEM {tn} rfc9180={rfc}", ct=ct)
                differs(rec, "unbound-key", (tn, "other"), lambda: DHKEMPrivateKey(k2, use_rfc9180=rfc).decaps(ct), ss, "other_key")
                if rfc:
                    differs(rec, "unbound-scheme", (tn, "plain"), lambda: DHKEMPrivateKey(k, use_rfc9180=False).decaps(ct), ss, "other_scheme")
                    for what, c in (("bit", flip(rng, ct)), ("cut", ct[:-1]), ("trailing", ct + b"\0")):
                        differs(rec, "unbound-ciphertext", (tn, what), lambda: key.decaps(c), ss, "changed", ct=c)
    for size in (2048, 3072):
        k, k2 = trad_key(f"rsa{size}"), trad_key(f"rsa{size}")
        for oaep in (True, False):
            key, n = RSADecapKey(k), rng.choice([16, 24, 32])
            ss, ct = key.public_key().encaps(use_oaep=oaep, ss_length=n)
            rec.ev(size, oaep, n, counter="rsa_kem")
            rec.check(key.decaps(ct, use_oaep=oaep, ss_length=n) == ss and len(ss) == n, "rsa-kem", f"RSA-KEM {size} oaep={oaep}", ct=ct)
            for what, c in (("bit", flip(rng, ct)), ("cut", ct[:-1]), ("trailing", ct + b"\0"), ("zero", bytes(len(ct)))):
                differs(rec, "unbound-ciphertext", ("rsa", size, oaep, what), lambda: key.decaps(c, use_oaep=oaep, ss_length=n), ss, "changed", ct=c)
            differs(rec, "unbound-key", ("rsa", size, oaep), lambda: RSADecapKey(k2).decaps(ct, use_oaep=oaep, ss_length=n), ss, "other_key")
        ss, ct = cryptoutils.compute_encapsulation(k.public_key(), key_length=32)
        z = pow(int.from_bytes(ct, "big"), k.private_numbers().d, k.public_key().public_numbers().n).to_bytes(size // 8, "big")
        rec.ev(size, "kdf3", counter="rsa_kem")
        rec.check(ss == hashlib.sha256(b"\0\0\0\1" + z).digest() == cryptoutils.compute_decapsulation(k, ct, key_length=32), "rsa-kem",
                  f"RSA-KEM {size}: KDF3 of RFC 9690", ct=ct)


def combinations():
    from pq_logic.tmp_oids import (CHEMPAT_OID_2_NAME, COMPOSITE_FRODOKEM_NAME_2_OID, COMPOSITE_KEM_DHKEMRFC9180_NAME_2_OID,
                                   COMPOSITE_KEM_MLKEM_NAME_2_OID)
    names = list(COMPOSITE_KEM_MLKEM_NAME_2_OID) + list(COMPOSITE_FRODOKEM_NAME_2_OID) + list(COMPOSITE_KEM_DHKEMRFC9180_NAME_2_OID)
    names += [n for n in CHEMPAT_OID_2_NAME.values() if "mceliece" not in n and "sntrup" not in n]
    return names + ["xwing"]


def jobs(tier, seed):
    t = tier == "thorough"
    names = combinations()
    frodo = [n for n in names if "frodo" in n]
    rest = [n for n in names if "frodo" not in n]
    if not t:
        frodo = [n for i, n in enumerate(sorted(frodo)) if (i + seed) % 4 == 0]
    out = [Job(n, _hybrid, timeout=2400 if t else 850, alg=n, rounds=(4 if t else 1)) for n in sorted(frodo, key=lambda x: "1344" not in x)]
    out += [Job(n, _hybrid, timeout=2400 if t else 850, alg=n, rounds=60 if t else 4) for n in sorted(rest, key=lambda x: "rsa" not in x)]
    out += [Job("xwing-seed", xwing_seed, rounds=100 if t else 5), Job("trad", trad, rounds=20 if t else 2)]
    return out


def _hybrid(rec, alg, rounds):
    hybrid(rec, alg, rounds)
