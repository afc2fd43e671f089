"""P14: ML-KEM, ML-DSA, SLH-DSA and FrodoKEM against independent references, and under tampering."""

import gzip
import json
import os

from vlib.core import Job

RULE = ("case = (parameter set, operation, shape of message / context, kind of change); keys, ciphertexts, shared secrets and "
        "signatures of generated inputs are compared with independent implementations (own references from the standards and "
        "vectors of the Go standard library), and every changed message, context, signature, ciphertext or key must fail "
        "(signatures) or give the implicit-rejection secret the reference computes (KEMs)")
REQUIRED = {"kem_keygen": 9, "kem_roundtrip": 9, "kem_changed": 40, "kem_length": 12, "kem_vector": 8, "dsa_vector": 20,
            "dsa_sign": 9, "dsa_refused": 150, "slh_sign": 8, "slh_refused": 100, "slh_reference": 8, "frodo_reference": 6,
            "frodo_changed": 12, "prehash": 8}
ASSUMPTIONS = ["signatures that differ in nothing but their randomness are all valid",
               "liboqs is absent here: the pure Python implementations are what runs",
               "FrodoKEM is the salted ISO variant, as the code implements it"]
NOTE = ("references: vlib/refpq.py (ML-KEM, SLH-DSA verification, FrodoKEM, written from the standards) and "
        "vectors/p14.json.gz (Go crypto/mldsa, crypto/mlkem)")

KEM = ["ml-kem-512", "ml-kem-768", "ml-kem-1024"]
DSA = ["ml-dsa-44", "ml-dsa-65", "ml-dsa-87"]
FRODO = [f"frodokem-{n}-{g}" for n in (640, 976, 1344) for g in ("aes", "shake")]
SLH_F = [f"slh-dsa-{h}-{n}f" for h in ("sha2", "shake") for n in (128, 192, 256)]
SLH_S = [f"slh-dsa-{h}-{n}s" for h in ("sha2", "shake") for n in (128, 192, 256)]
SIZES = {"ml-kem-512": (800, 1632, 768), "ml-kem-768": (1184, 2400, 1088), "ml-kem-1024": (1568, 3168, 1568),
         "ml-dsa-44": (1312, 2560, 2420), "ml-dsa-65": (1952, 4032, 3309), "ml-dsa-87": (2592, 4896, 4627)}


def vectors():
    path = os.path.join(os.environ.get("VERIF_HOME", "/verif"), "vectors", "p14.json.gz")
    with gzip.open(path) as f:
        return [{k: v if k == "alg" else bytes.fromhex(v) for k, v in e.items()} for e in json.load(f)]


def flip(rng, data, pos=None):
    b = bytearray(data)
    p = rng.randrange(len(b)) if pos is None else pos
    b[p] ^= 1 << rng.randrange(8)
    return bytes(b)


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def kem(rec, name, rounds):
    from pq_logic.keys.kem_keys import MLKEMPrivateKey, MLKEMPublicKey
    from pq_logic.fips.fips203 import ML_KEM
    from vlib import refpq
    rng = rec.rng
    ekl, dkl, ctl = SIZES[name]
    for v in vectors():
        if v["alg"] != name:
            continue
        ok, key = rec.must("kem-vector", lambda: MLKEMPrivateKey.from_private_bytes(v["seed"], name))
        if not ok:
            continue
        rec.ev(name, "vector", counter="kem_vector")
        rec.check(key.public_key().public_bytes_raw() == v["ek"], "kem-keygen", f"{name}: ek of the Go vector", seed=v["seed"])
        rec.check(key.decaps(v["ct"]) == v["ss"], "kem-decaps", f"{name}: ss of the Go vector", ct=v["ct"])
        rec.check(key.decaps(v["junk"]) == v["rej"], "kem-reject", f"{name}: implicit rejection of the Go vector", ct=v["junk"])
        ss, ct = ML_KEM(name).encaps_internal(v["ek"], v["m"])
        rec.check((ss, ct) == (v["ss"], v["ct"]), "kem-encaps", f"{name}: encapsulation of the Go vector", m=v["m"])
    for i in range(rounds):
        seed = rb(rng, 64) if i else bytes([rng.choice([0, 255])]) * 64
        ek, dk = refpq.kem_keygen(name, seed[:32], seed[32:])
        key = MLKEMPrivateKey.from_private_bytes(seed, name)
        again = MLKEMPrivateKey.from_seed(alg_name=name, seed=seed)
        rec.ev(name, "keygen", i % 4, counter="kem_keygen")
        rec.check(key.public_key().public_bytes_raw() == ek and key.private_bytes_raw() == dk, "kem-keygen",
                  f"{name}: key pair of a seed differs from FIPS 203", seed=seed)
        rec.check(again.private_bytes_raw() == dk and again.public_key().public_bytes_raw() == ek, "kem-keygen-det",
                  f"{name}: the same seed gives another key", seed=seed)
        rec.check((len(ek), len(dk)) == (key.public_key().key_size, key.key_size) == (ekl, dkl), "kem-size", f"{name}: key sizes")
        exp = MLKEMPrivateKey.from_private_bytes(dk, name)
        pub = MLKEMPublicKey.from_public_bytes(ek, name)
        for k, p in ((key, key.public_key()), (exp, exp.public_key()), (exp, pub)):
            ss, ct = p.encaps()
            rec.ev(name, "roundtrip", counter="kem_roundtrip")
            rec.check(len(ct) == ctl == p.ct_length and len(ss) == 32, "kem-size", f"{name}: ct / ss size")
            rec.check(refpq.kem_decaps(name, dk, ct) == ss, "kem-encaps", f"{name}: the reference decapsulates something else",
                      seed=seed, ct=ct, ss=ss)
            rec.check(k.decaps(ct) == ss, "kem-decaps", f"{name}: decapsulation gives another secret", seed=seed, ct=ct, ss=ss)
        m = rb(rng, 32)
        rec.check(ML_KEM(name).encaps_internal(ek, m) == refpq.kem_encaps(name, ek, m), "kem-encaps",
                  f"{name}: encapsulation differs from FIPS 203", ek=ek, m=m)
        other = MLKEMPrivateKey(alg_name=name)
        ss, ct = pub.encaps()
        bad = [("bit", flip(rng, ct)), ("first", flip(rng, ct, 0)), ("last", flip(rng, ct, ctl - 1)),
               ("c2", flip(rng, ct, rng.randrange(ctl - 160, ctl))), ("random", rb(rng, ctl)), ("zero", bytes(ctl)),
               ("ones", b"\xff" * ctl), ("swap", ct[ctl // 2:] + ct[:ctl // 2])]
        for what, c in bad:
            rec.ev(name, "changed", what, counter="kem_changed")
            ok, got = rec.must("kem-reject-error", lambda: key.decaps(c))
            if not ok:
                continue
            rec.check(got != ss, "kem-changed-same", f"{name}: a changed ciphertext ({what}) gives the same secret", seed=seed, ct=c)
            rec.check(got == refpq.kem_decaps(name, dk, c), "kem-reject", f"{name}: implicit rejection ({what})", seed=seed, ct=c)
        ok, got = rec.must("kem-reject-error", lambda: other.decaps(ct))
        if ok:
            rec.ev(name, "other-key", counter="kem_changed")
            rec.check(got != ss and len(got) == 32, "kem-other-key", f"{name}: another key recovers the secret", ct=ct)
        for what, c in (("short", ct[:-1]), ("long", ct + b"\x00"), ("long32", ct + rb(rng, 32)), ("empty", b""), ("half", ct[:ctl // 2])):
            rec.ev(name, "length", what, counter="kem_length")
            try:
                got = key.decaps(c)
            except (ValueError, IndexError, AssertionError):
                continue
            rec.check(got != ss, "kem-length", f"{name}: a ciphertext of wrong length ({what}) gives the secret", ct=c)


MSG = [0, 1, 31, 64, 135, 136, 137, 1000]
CTX = [0, 0, 1, 16, 127, 128, 254, 255]


def refused(rec, key, what, fn, counter, **art):
    """fn must raise; returning is a verification that passed."""
    from cryptography.exceptions import InvalidSignature
    from resources.exceptions import InvalidKeyData
    rec.ev(*what, counter=counter)
    try:
        r = fn()
    except (InvalidSignature, InvalidKeyData, ValueError):
        return
    if r is False:
        return
    rec.violation(key, f"{what}: verification passed", **art)


def hint_swaps(rng, name, sig):
    """Signatures whose hint encodes the same or nearly the same set in another way."""
    k, omega = {"ml-dsa-44": (4, 80), "ml-dsa-65": (6, 55), "ml-dsa-87": (8, 75)}[name]
    h = bytearray(sig[-(omega + k):])
    out, start = [], 0
    for i in range(k):
        end = h[omega + i]
        if end - start >= 2:
            b = bytearray(h)
            b[start], b[start + 1] = b[start + 1], b[start]
            out.append(("hint-order", bytes(sig[:-(omega + k)] + b)))
            b = bytearray(h)
            b[start + 1] = b[start]
            out.append(("hint-dup", bytes(sig[:-(omega + k)] + b)))
        start = end
    if start < omega:
        b = bytearray(h)
        b[rng.randrange(start, omega)] = rng.randrange(1, 256)
        out.append(("hint-padding", bytes(sig[:-(omega + k)] + b)))
    b = bytearray(h)
    b[omega + k - 1] = omega + 1
    out.append(("hint-count", bytes(sig[:-(omega + k)] + b)))
    return rng.sample(out, min(4, len(out)))


def dsa(rec, name, rounds, part):
    from pq_logic.keys.sig_keys import MLDSAPrivateKey, MLDSAPublicKey
    from pq_logic.fips.fips204 import ML_DSA
    rng = rec.rng
    pkl, skl, sgl = SIZES[name]
    vecs = [v for v in vectors() if v["alg"] == name]
    for v in vecs[part::2]:
        ok, key = rec.must("dsa-vector", lambda: MLDSAPrivateKey.from_private_bytes(v["seed"], name))
        if not ok:
            continue
        rec.ev(name, "vector", len(v["msg"]), len(v["ctx"]), counter="dsa_vector")
        pk = key.public_key()
        rec.check(pk.public_bytes_raw() == v["pk"], "dsa-keygen", f"{name}: public key of the Go vector", seed=v["seed"])
        sig = ML_DSA(name).sign(key.private_bytes_raw(), v["msg"], v["ctx"], rnd_in=bytes(32))
        rec.check(sig == v["det"], "dsa-sign-vector", f"{name}: deterministic signature of the Go vector", seed=v["seed"], msg=v["msg"])
        for s in ("det", "rnd"):
            rec.must("dsa-verify-vector", lambda: pk.verify(signature=v[s], data=v["msg"], ctx=v["ctx"]))
        refused(rec, "dsa-accepts", (name, "vector-msg"), lambda: pk.verify(signature=v["det"], data=v["msg"] + b"x", ctx=v["ctx"]),
                "dsa_refused", seed=v["seed"])
    for i in range(rounds):
        seed = rb(rng, 32)
        key = MLDSAPrivateKey.from_seed(name, seed)
        exp = MLDSAPrivateKey.from_private_bytes(key.private_bytes_raw(), name)
        pub = MLDSAPublicKey.from_public_bytes(key.public_key().public_bytes_raw(), name)
        rec.check(exp.public_key().public_bytes_raw() == pub.public_bytes_raw(), "dsa-expanded",
                  f"{name}: public key derived from the expanded key", seed=seed)
        rec.check(MLDSAPrivateKey.from_seed(name, seed).private_bytes_raw() == key.private_bytes_raw(), "dsa-keygen-det",
                  f"{name}: same seed, other key", seed=seed)
        rec.check((len(pub.public_bytes_raw()), len(key.private_bytes_raw())) == (pkl, skl), "dsa-size", f"{name}: key sizes")
        msg, ctx = rb(rng, rng.choice(MSG)), rb(rng, rng.choice(CTX))
        hash_alg = rng.choice([None, None, "sha512"])
        art = dict(seed=seed, msg=msg, ctx=ctx, hash_alg=str(hash_alg))
        ok, sig = rec.must("dsa-sign", lambda: (exp if i % 2 else key).sign(msg, hash_alg=hash_alg, ctx=ctx))
        if not ok:
            continue
        rec.ev(name, "sign", str(hash_alg), len(msg), len(ctx), counter="dsa_sign")
        rec.check(len(sig) == sgl == key.sig_size == pub.sig_size, "dsa-size", f"{name}: signature size {len(sig)}", **art)
        rec.must("dsa-verify", lambda: pub.verify(signature=sig, data=msg, hash_alg=hash_alg, ctx=ctx))
        art["sig"] = sig

        def bad(what, s=sig, d=msg, c=ctx, h=hash_alg, p=pub, **kw):
            refused(rec, "dsa-accepts", (name, what, str(hash_alg)), lambda: p.verify(signature=s, data=d, hash_alg=h, ctx=c, **kw),
                    "dsa_refused", **dict(art, sig=s, msg=d, ctx=c))

        import hashlib
        if hash_alg:
            rec.count("prehash")
            dg = hashlib.sha512(msg).digest()
            rec.must("dsa-prehash", lambda: pub.verify(signature=sig, data=dg, hash_alg=hash_alg, ctx=ctx, is_prehashed=True))
            ok, s2 = rec.must("dsa-prehash", lambda: key.sign(dg, hash_alg=hash_alg, ctx=ctx, is_prehashed=True))
            if ok:
                rec.must("dsa-prehash", lambda: pub.verify(signature=s2, data=msg, hash_alg=hash_alg, ctx=ctx))
            mp = b"\x01" + bytes([len(ctx)]) + ctx + bytes.fromhex("0609608648016503040203") + dg
            rec.check(ML_DSA(name).verify_internal(pub.public_bytes_raw(), mp, sig), "dsa-prehash-format",
                      f"{name}: HashML-DSA message is not that of FIPS 204", **art)
            bad("pure-for-hash", h=None)
            bad("digest-pure", h=None, d=dg)
        else:
            mp = b"\x00" + bytes([len(ctx)]) + ctx + msg
            rec.check(ML_DSA(name).verify_internal(pub.public_bytes_raw(), mp, sig), "dsa-format", f"{name}: message is not that of FIPS 204", **art)
            bad("hash-for-pure", h="sha512")
        bad("msg+", d=msg + b"\x00")
        if msg:
            bad("msg-bit", d=flip(rng, msg))
            bad("msg-", d=msg[:-1])
            if len(ctx) < 255:
                bad("ctx-shift", c=ctx + msg[:1], d=msg[1:])
        if ctx:
            bad("ctx-bit", c=flip(rng, ctx))
            bad("ctx-", c=ctx[:-1])
            bad("ctx-none", c=b"")
            bad("ctx-to-msg", c=ctx[:-1], d=ctx[-1:] + msg)
        if len(ctx) < 255:
            bad("ctx+", c=ctx + b"\x00")
        else:
            bad("ctx-256", c=ctx + b"\x00")
        lam = {"ml-dsa-44": 32, "ml-dsa-65": 48, "ml-dsa-87": 64}[name]
        kk = {"ml-dsa-44": 84, "ml-dsa-65": 61, "ml-dsa-87": 83}[name]
        bad("sig-c", s=flip(rng, sig, rng.randrange(lam)))
        bad("sig-z", s=flip(rng, sig, rng.randrange(lam, sgl - kk)))
        bad("sig-h", s=flip(rng, sig, rng.randrange(sgl - kk, sgl)))
        for what, s in hint_swaps(rng, name, sig):
            bad(what, s=s)
        for what, s in (("sig-", sig[:-1]), ("sig+", sig + b"\x00"), ("empty", b""), ("zero", bytes(sgl)), ("random", rb(rng, sgl)),
                        ("sig+sig", sig + sig)):
            bad(what, s=s)
        bad("other-key", p=MLDSAPrivateKey(name).public_key())
        raw = pub.public_bytes_raw()
        bad("pk-rho", p=MLDSAPublicKey.from_public_bytes(flip(rng, raw, rng.randrange(32)), name))
        bad("pk-t1", p=MLDSAPublicKey.from_public_bytes(flip(rng, raw, rng.randrange(32, pkl)), name))
        for what, p in (("pk-", raw[:-1]), ("pk+", raw + b"\x00")):
            refused(rec, "dsa-key-length", (name, what),
                    lambda: MLDSAPublicKey.from_public_bytes(p, name).verify(signature=sig, data=msg, hash_alg=hash_alg, ctx=ctx), "dsa_refused", **art)
        s2 = key.sign(msg, hash_alg=hash_alg, ctx=ctx)
        bad("spliced", s=sig[:lam] + s2[lam:]) if s2[:lam] != sig[:lam] else None
        # the functions of the standard's pre-hash variants
        ph, alg = rng.choice(["SHA-256", "SHA-512", "SHAKE128"]), ML_DSA(name)
        ok, s3 = rec.must("dsa-hash-function", lambda: alg.hash_ml_dsa_sign(key.private_bytes_raw(), msg, ctx, ph, rnd_in=rb(rng, 32)))
        if ok:
            rec.count("prehash")
            rec.check(alg.hash_ml_dsa_verify(raw, msg, s3, ctx, ph) is True, "dsa-hash-function", f"{name} {ph}: own signature refused", **art)
            rec.check(not alg.hash_ml_dsa_verify(raw, msg + b"x", s3, ctx, ph), "dsa-accepts", f"{name} {ph}: other message", **art)
            rec.check(not alg.verify(raw, msg, s3, ctx), "dsa-accepts", f"{name} {ph}: verifies as pure", **art)


SLH_PH = {"sha2-128": "sha256", "sha2-192": "sha512", "sha2-256": "sha512", "shake-128": "shake128", "shake-192": "shake256", "shake-256": "shake256"}


def slh(rec, name, rounds):
    from pq_logic.keys.sig_keys import SLHDSAPrivateKey, SLHDSAPublicKey
    from pq_logic.fips.fips205 import SLH_DSA_PARAMS
    from vlib import refpq
    import hashlib
    rng = rec.rng
    n = refpq.SLH[name.rsplit("-", 1)[1]][0]
    size = refpq.slh_sig_size(name)
    for i in range(rounds):
        seed = rb(rng, 3 * n)
        key = SLHDSAPrivateKey.from_seed(alg_name=name, seed=seed)
        if i == 0:
            rec.check(SLHDSAPrivateKey.from_seed(alg_name=name, seed=seed).private_bytes_raw() == key.private_bytes_raw(),
                      "slh-keygen-det", f"{name}: same seed, other key", seed=seed)
        raw = key.public_key().public_bytes_raw()
        rec.check((len(raw), len(key.private_bytes_raw())) == (2 * n, 4 * n) and key.private_bytes_raw()[:3 * n] == seed and
                  raw[:n] == seed[2 * n:], "slh-keygen", f"{name}: key is not made of the seed", seed=seed)
        key = rng.choice([key, SLHDSAPrivateKey.from_private_bytes(key.private_bytes_raw(), name)])
        pub = SLHDSAPublicKey.from_public_bytes(raw, name)
        msg, ctx = rb(rng, rng.choice(MSG)), rb(rng, rng.choice(CTX))
        hash_alg = [None, SLH_PH[name[8:-1]]][i % 2] if rounds > 1 else rng.choice([None, SLH_PH[name[8:-1]]])
        art = dict(seed=seed, msg=msg, ctx=ctx, hash_alg=str(hash_alg))
        ok, sig = rec.must("slh-sign", lambda: key.sign(msg, hash_alg=hash_alg, ctx=ctx))
        if not ok:
            continue
        rec.ev(name, "sign", str(hash_alg), len(msg), len(ctx), counter="slh_sign")
        rec.check(len(sig) == size, "slh-size", f"{name}: signature size {len(sig)}", **art)
        rec.must("slh-verify", lambda: pub.verify(signature=sig, data=msg, hash_alg=hash_alg, ctx=ctx))
        rec.count("slh_reference")
        rec.check(refpq.slh_verify(name, raw, sig, msg, ctx, hash_alg), "slh-reference",
                  f"{name} {hash_alg}: the reference refuses the signature", **art)
        art["sig"] = sig

        def bad(what, s=sig, d=msg, c=ctx, h=hash_alg, p=pub, **kw):
            refused(rec, "slh-accepts", (name, what, str(hash_alg)), lambda: p.verify(signature=s, data=d, hash_alg=h, ctx=c, **kw),
                    "slh_refused", **dict(art, sig=s, msg=d, ctx=c))

        if hash_alg:
            rec.count("prehash")
            dg = {"sha256": lambda: hashlib.sha256(msg).digest(), "sha512": lambda: hashlib.sha512(msg).digest(),
                  "shake128": lambda: hashlib.shake_128(msg).digest(32), "shake256": lambda: hashlib.shake_256(msg).digest(64)}[hash_alg]()
            rec.must("slh-prehash", lambda: pub.verify(signature=sig, data=dg, hash_alg=hash_alg, ctx=ctx, is_prehashed=True))
            bad("pure-for-hash", h=None)
        else:
            bad("hash-for-pure", h=SLH_PH[name[8:-1]])
        bad("msg+", d=msg + b"\x00")
        if msg:
            bad("msg-bit", d=flip(rng, msg))
            if len(ctx) < 255:
                bad("ctx-shift", c=ctx + msg[:1], d=msg[1:])
        if ctx:
            bad("ctx-bit", c=flip(rng, ctx))
            bad("ctx-to-msg", c=ctx[:-1], d=ctx[-1:] + msg)
        _, h, d, hp, a, k, _ = refpq.SLH[name.rsplit("-", 1)[1]]
        fors = n * (1 + k * (1 + a))
        bad("sig-R", s=flip(rng, sig, rng.randrange(n)))
        bad("sig-fors", s=flip(rng, sig, rng.randrange(n, fors)))
        bad("sig-fors-auth", s=flip(rng, sig, n + n * (1 + a) * rng.randrange(k) + n + rng.randrange(a * n)))
        bad("sig-wots", s=flip(rng, sig, fors + rng.randrange((2 * n + 3) * n)))
        layer = rng.randrange(d)
        bad("sig-auth", s=flip(rng, sig, fors + layer * (2 * n + 3 + hp) * n + (2 * n + 3) * n + rng.randrange(hp * n)))
        bad("sig-last", s=flip(rng, sig, size - 1))
        for what, s in (("sig-", sig[:-1]), ("sig+", sig + b"\x00"), ("empty", b""), ("sig+sig", sig + sig), ("zero", bytes(size)),
                        ("sig-n", sig[:-n]), ("sig+n", sig + sig[-n:])):
            bad(what, s=s)
        bad("pk-seed", p=SLHDSAPublicKey.from_public_bytes(flip(rng, raw, rng.randrange(n)), name))
        bad("pk-root", p=SLHDSAPublicKey.from_public_bytes(flip(rng, raw, rng.randrange(n, 2 * n)), name))
        # the functions of the standard's pre-hash variants
        if name.endswith("f"):
            ph, alg = rng.choice(["sha-256", "sha-512", "shake128", "shake256"]), SLH_DSA_PARAMS[name]
            ok, s3 = rec.must("slh-hash-function", lambda: alg.hash_slh_sign(msg, ctx, ph, key.private_bytes_raw()))
            if ok:
                rec.count("prehash")
                rec.check(refpq.slh_verify(name, raw, s3, msg, ctx, ph.replace("-", "")), "slh-hash-function", f"{name} {ph}: hash_slh_sign", **art)
                rec.check(alg.hash_ml_dsa_verify(raw, msg, s3, ctx, ph.upper()), "slh-hash-function", f"{name} {ph}: own signature refused", **art)
                rec.check(not alg.hash_ml_dsa_verify(raw, msg + b"x", s3, ctx, ph.upper()), "slh-accepts", f"{name} {ph}: other message", **art)


def frodo(rec, name, rounds):
    from pq_logic.keys.kem_keys import FrodoKEMPrivateKey, FrodoKEMPublicKey
    from vlib import refpq
    rng = rec.rng
    ref = refpq.Frodo(name)
    for i in range(rounds):
        seed = rb(rng, ref.seed_len)
        ok, key = rec.must("frodo-keygen", lambda: FrodoKEMPrivateKey.from_seed(name, seed))
        if not ok:
            continue
        pk, sk = ref.keygen(seed)
        rec.count("frodo_reference")
        rec.check(key.private_bytes_raw() == sk and key.public_key().public_bytes_raw() == pk, "frodo-keygen",
                  f"{name}: key pair of a seed differs from the specification", seed=seed)
        pub = FrodoKEMPublicKey.from_public_bytes(pk, name)
        exp = FrodoKEMPrivateKey.from_private_bytes(sk, name)
        rec.check(exp.public_key().public_bytes_raw() == pk, "frodo-expanded", f"{name}: public key of the loaded key", seed=seed)
        rec.check((pub.key_size, pub.ct_length) == (len(pk), ref.ct_len), "frodo-size", f"{name}: sizes")
        ss, ct = pub.encaps()
        rec.ev(name, "encaps", counter="frodo_reference")
        rec.check(len(ct) == ref.ct_len and len(ss) == ref.sec, "frodo-size", f"{name}: ct / ss size")
        rec.check(ref.decaps(sk, ct) == ss, "frodo-encaps", f"{name}: the reference decapsulates something else", seed=seed, ct=ct)
        rec.check(exp.decaps(ct) == ss, "frodo-decaps", f"{name}: decapsulation", seed=seed, ct=ct)
        rnd = rb(rng, ref.sec + ref.se)
        ct2, ss2 = ref.encaps(pk, rnd)
        rec.check(key.decaps(ct2) == ss2, "frodo-decaps", f"{name}: ciphertext of the reference", seed=seed, ct=ct2)
        c1 = ref.D * ref.n
        cases = [("c1", flip(rng, ct, rng.randrange(c1))), ("c2", flip(rng, ct, rng.randrange(c1, c1 + 8 * ref.D))),
                 ("salt", flip(rng, ct, rng.randrange(c1 + 8 * ref.D, len(ct)))), ("random", rb(rng, len(ct)))]
        for what, c in cases:
            rec.ev(name, "changed", what, counter="frodo_changed")
            ok, got = rec.must("frodo-reject-error", lambda: key.decaps(c))
            if ok:
                rec.check(got != ss, "frodo-changed-same", f"{name}: changed {what} gives the same secret", seed=seed, ct=c)
                rec.check(got == ref.decaps(sk, c), "frodo-reject", f"{name}: implicit rejection ({what})", seed=seed, ct=c)
        for what, c in (("short", ct[:-1]), ("long", ct + b"\x00"), ("empty", b"")):
            rec.ev(name, "length", what, counter="kem_length")
            try:
                got = key.decaps(c)
            except (ValueError, AssertionError, IndexError):
                continue
            rec.check(got != ss, "frodo-length", f"{name}: ciphertext of wrong length ({what}) gives the secret", ct=c)


def jobs(tier, seed):
    t = tier == "thorough"
    out = []
    for n in KEM:
        out.append(Job(f"kem-{n}", _kem, timeout=850, alg=n, rounds=60 if t else 4))
    for n in DSA:
        for p in (0, 1):
            out.append(Job(f"dsa-{n}-{p}", _dsa, timeout=850, alg=n, rounds=30 if t else 3, part=p))
    for n in SLH_F:
        out.append(Job(f"slh-{n}", _slh, timeout=850, alg=n, rounds=16 if t else 2))
    for i, n in enumerate(SLH_S):
        if t or i == seed % 6 or i == (seed + 3) % 6:
            out.append(Job(f"slh-{n}", _slh, timeout=850, alg=n, rounds=2 if t else 1))
    for n in FRODO:
        out.append(Job(f"frodo-{n}", _frodo, timeout=850, alg=n, rounds=6 if t else 1))
    # the longest first
    out.sort(key=lambda j: (not j.name.endswith("s"), not j.name.startswith("frodo-frodokem-1344")))
    return out


def _kem(rec, alg, rounds):
    kem(rec, alg, rounds)


def _dsa(rec, alg, rounds, part):
    dsa(rec, alg, rounds, part)


def _slh(rec, alg, rounds):
    slh(rec, alg, rounds)


def _frodo(rec, alg, rounds):
    frodo(rec, alg, rounds)
