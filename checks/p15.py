"""P15: composite signatures stand only when both components sign the same message, context and combination."""

import hashlib
import os

from vlib.core import Job

RULE = ("case = (combination, way the signature was made or damaged, message and context shape, verification entry point); a "
        "signature must verify exactly when both components were made by the key's own components over the message representative "
        "of this very combination, message and context, as an independent composer (cryptography + the combination table of the "
        "draft) makes them")
REQUIRED = {"accepted": 60, "reference_accepts": 18, "reference_made": 18, "refused": 400, "one_component": 80, "alg_id": 100,
            "vector": 18, "object": 20, "object_refused": 60}
ASSUMPTIONS = ["ECDSA malleability (another valid signature of the same message) is not a change the property speaks of"]
NOTE = "reference composer in checks/p15.py; vectors of the draft in /repo/data/rfc_test_vectors"

# name: (label, prehash, hash of the traditional component)
TABLE = {
    "ml-dsa-44-rsa2048-pss": ("COMPSIG-MLDSA44-RSA2048-PSS-SHA256", "sha256", "SHA256"),
    "ml-dsa-44-rsa2048": ("COMPSIG-MLDSA44-RSA2048-PKCS15-SHA256", "sha256", "SHA256"),
    "ml-dsa-44-ed25519": ("COMPSIG-MLDSA44-Ed25519-SHA512", "sha512", None),
    "ml-dsa-44-ecdsa-secp256r1": ("COMPSIG-MLDSA44-ECDSA-P256-SHA256", "sha256", "SHA256"),
    "ml-dsa-65-rsa3072-pss": ("COMPSIG-MLDSA65-RSA3072-PSS-SHA512", "sha512", "SHA256"),
    "ml-dsa-65-rsa3072": ("COMPSIG-MLDSA65-RSA3072-PKCS15-SHA512", "sha512", "SHA256"),
    "ml-dsa-65-rsa4096-pss": ("COMPSIG-MLDSA65-RSA4096-PSS-SHA512", "sha512", "SHA384"),
    "ml-dsa-65-rsa4096": ("COMPSIG-MLDSA65-RSA4096-PKCS15-SHA512", "sha512", "SHA384"),
    "ml-dsa-65-ecdsa-secp256r1": ("COMPSIG-MLDSA65-ECDSA-P256-SHA512", "sha512", "SHA256"),
    "ml-dsa-65-ecdsa-secp384r1": ("COMPSIG-MLDSA65-ECDSA-P384-SHA512", "sha512", "SHA384"),
    "ml-dsa-65-ecdsa-brainpoolP256r1": ("COMPSIG-MLDSA65-ECDSA-BP256-SHA512", "sha512", "SHA256"),
    "ml-dsa-65-ed25519": ("COMPSIG-MLDSA65-Ed25519-SHA512", "sha512", None),
    "ml-dsa-87-ecdsa-secp384r1": ("COMPSIG-MLDSA87-ECDSA-P384-SHA512", "sha512", "SHA384"),
    "ml-dsa-87-ecdsa-brainpoolP384r1": ("COMPSIG-MLDSA87-ECDSA-BP384-SHA512", "sha512", "SHA384"),
    "ml-dsa-87-ed448": ("COMPSIG-MLDSA87-Ed448-SHAKE256", "shake256", None),
    "ml-dsa-87-rsa3072-pss": ("COMPSIG-MLDSA87-RSA3072-PSS-SHA512", "sha512", "SHA256"),
    "ml-dsa-87-rsa4096-pss": ("COMPSIG-MLDSA87-RSA4096-PSS-SHA512", "sha512", "SHA384"),
    "ml-dsa-87-ecdsa-secp521r1": ("COMPSIG-MLDSA87-ECDSA-P521-SHA512", "sha512", "SHA512"),
}
PREFIX = b"CompositeAlgorithmSignatures2025"
PQ_SIG = {"ml-dsa-44": 2420, "ml-dsa-65": 3309, "ml-dsa-87": 4627}
BASE_OID = "1.3.6.1.5.5.7.6."


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def flip(rng, data, lo=0, hi=None):
    b = bytearray(data)
    b[rng.randrange(lo, len(b) if hi is None else hi)] ^= 1 << rng.randrange(8)
    return bytes(b)


def digest(name, data):
    return hashlib.shake_256(data).digest(64) if name == "shake256" else hashlib.new(name, data).digest()


def m_prime(name, msg, ctx, prefix=PREFIX):
    label, ph, _ = TABLE[name]
    return prefix + label.encode() + bytes([len(ctx)]) + ctx + digest(ph, msg)


def new_trad(rng, name):
    from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa
    t = name[10:]
    if t.startswith("rsa"):
        return rsa.generate_private_key(65537, int(t[3:7]))
    if t.startswith("ecdsa"):
        curve = {"secp256r1": ec.SECP256R1, "secp384r1": ec.SECP384R1, "secp521r1": ec.SECP521R1,
                 "brainpoolP256r1": ec.BrainpoolP256R1, "brainpoolP384r1": ec.BrainpoolP384R1}[t[6:]]
        return ec.generate_private_key(curve())
    return (ed25519.Ed25519PrivateKey if t == "ed25519" else ed448.Ed448PrivateKey).generate()


def trad_args(name, pss=None):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec, padding
    h = TABLE[name][2]
    t = name[10:]
    if t.startswith("rsa"):
        h = getattr(hashes, h)()
        use = t.endswith("-pss") if pss is None else pss
        return (padding.PSS(mgf=padding.MGF1(h), salt_length=h.digest_size), h) if use else (padding.PKCS1v15(), h)
    if t.startswith("ecdsa"):
        return (ec.ECDSA(getattr(hashes, h)()),)
    return ()


class Ref:
    """A composite key from its parts, signing and verifying by the draft."""

    def __init__(self, name, pq, trad):
        self.name, self.pq, self.trad = name, pq, trad
        self.label = TABLE[name][0].encode()

    def pq_sign(self, data, ctx=None):
        from pq_logic.fips.fips204 import ML_DSA
        return ML_DSA(self.name[:9]).sign(self.pq.private_bytes_raw(), data, self.label if ctx is None else ctx, rnd_in=os.urandom(32))

    def trad_sign(self, data, pss=None):
        return self.trad.sign(data, *trad_args(self.name, pss))

    def sign(self, msg, ctx):
        m = m_prime(self.name, msg, ctx)
        return self.pq_sign(m) + self.trad_sign(m)

    def verify(self, sig, msg, ctx):
        from cryptography.exceptions import InvalidSignature
        from pq_logic.fips.fips204 import ML_DSA
        m, n = m_prime(self.name, msg, ctx), PQ_SIG[self.name[:9]]
        if len(sig) <= n or not ML_DSA(self.name[:9]).verify(self.pq.public_key().public_bytes_raw(), m, sig[:n], self.label):
            return False
        try:
            self.trad.public_key().verify(sig[n:], m, *trad_args(self.name))
        except InvalidSignature:
            return False
        return True


def refused(rec, key, what, fn, counter="refused", **art):
    from cryptography.exceptions import InvalidSignature
    from resources.exceptions import CMPTestSuiteError
    rec.ev(*what, counter=counter)
    try:
        fn()
    except (InvalidSignature, ValueError, TypeError, CMPTestSuiteError):
        return True
    rec.violation(key, f"{what}: verification passed", **art)
    return False


def combination(rec, name, rounds):
    from pq_logic.keys.composite_sig import CompositeSigPrivateKey, CompositeSigPublicKey
    from pq_logic.keys.sig_keys import MLDSAPrivateKey
    from pq_logic.tmp_oids import COMPOSITE_SIG_NAME_TO_OID
    rng = rec.rng
    pqn, pss = name[:9], name.endswith("-pss")
    n = PQ_SIG[pqn]
    pq, pq2 = MLDSAPrivateKey.from_seed(pqn, rb(rng, 32)), MLDSAPrivateKey.from_seed(pqn, rb(rng, 32))
    trad, trad2 = new_trad(rng, name), new_trad(rng, name)
    ref, ref2 = Ref(name, pq, trad), Ref(name, pq2, trad2)
    key = CompositeSigPrivateKey(pq_key=pq, trad_key=trad)
    pub = key.public_key()
    oid = COMPOSITE_SIG_NAME_TO_OID["composite-sig-" + name]
    vector(rec, name)
    for i in range(rounds):
        msg = rb(rng, rng.choice([0, 1, 32, 64, 500]))
        ctx = rb(rng, [0, rng.choice([1, 20]), rng.choice([254, 255])][i % 3])
        art = dict(name=name, message=msg, ctx=ctx, pq_seed=pq.private_bytes_raw()[:0])
        ok, sig = rec.must("sign", lambda: key.sign(data=msg, ctx=ctx, use_pss=pss))
        if not ok:
            continue
        art["sig"] = sig

        def good(what, s, m=msg, c=ctx, p=pub):
            rec.ev(name, "good", what, len(m), len(c), counter="accepted")
            rec.must("verify-" + what, lambda: p.verify(data=m, signature=s, ctx=c, use_pss=pss))

        def bad(what, s=sig, m=msg, c=ctx, p=pub, u=pss, counter="refused"):
            rec.count("refused", 0 if counter == "refused" else 1)
            refused(rec, "accepts", (name, what, len(m), len(c)), lambda: p.verify(data=m, signature=s, ctx=c, use_pss=u), counter,
                    **dict(art, sig=s, message=m, ctx=c, damage=what))

        def some(cases):
            return cases if rec.tier == "thorough" else rng.sample(cases, 4)

        good("own", sig)
        rec.ev(name, "reference", counter="reference_accepts")
        rec.check(ref.verify(sig, msg, ctx), "not-the-draft", f"{name}: the reference refuses the signature", **art)
        sig2 = ref.sign(msg, ctx)
        rec.ev(name, "reference-made", counter="reference_made")
        good("reference", sig2)
        good("mixed", sig2[:n] + sig[n:])
        # message, context, combination
        bad("msg+", m=msg + b"\0")
        if msg:
            bad("msg-bit", m=flip(rng, msg))
        bad("msg-digest", m=digest(TABLE[name][1], msg))
        if ctx:
            bad("ctx-bit", c=flip(rng, ctx))
            bad("ctx-cut", c=ctx[:-1])
            bad("ctx-none", c=b"")
        if len(ctx) < 255:
            bad("ctx+", c=ctx + b"\0")
        bad("ctx-256", c=ctx + bytes(256 - len(ctx)))
        if name[10:].startswith("rsa"):
            bad("pss", u=not pss)
        # damage to the value
        bad("pq-bit", s=flip(rng, sig, 0, n))
        bad("trad-bit", s=flip(rng, sig, n))
        bad("pq-c", s=flip(rng, sig, 0, 32))
        for what, s in (("empty", b""), ("pq-only", sig[:n]), ("trad-only", sig[n:]), ("swapped", sig[n:] + sig[:n]), ("cut", sig[:-1]),
                        ("trailing", sig + b"\0"), ("zero-pq", bytes(n) + sig[n:]), ("zero-trad", sig[:n] + bytes(len(sig) - n)),
                        ("pq-twice", sig[:n] * 2), ("trad-twice", sig + sig[n:]), ("half-pq", sig[:n // 2] + sig[n:]),
                        ("front", b"\0" + sig), ("trad-one", sig[:n] + b"\0"), ("double", sig + sig)):
            bad(what, s=s, counter="one_component" if "only" in what or "zero" in what else "refused")
        # components that are valid signatures, of something else
        mp = m_prime(name, msg, ctx)
        om, oc = msg + b"other", (ctx + b"x")[-200:]
        mp_m, mp_c = m_prime(name, om, ctx), m_prime(name, msg, oc)
        label = ref.label
        other = rng.choice([k for k in TABLE if k != name])
        mp_o = m_prime(other, msg, ctx)
        one = [("pq-other-key", lambda: ref2.pq_sign(mp) + sig[n:]), ("trad-other-key", lambda: sig[:n] + ref2.trad_sign(mp)),
               ("pq-other-msg", lambda: ref.pq_sign(mp_m) + sig[n:]), ("trad-other-msg", lambda: sig[:n] + ref.trad_sign(mp_m)),
               ("pq-other-ctx", lambda: ref.pq_sign(mp_c) + sig[n:]), ("trad-other-ctx", lambda: sig[:n] + ref.trad_sign(mp_c)),
               ("pq-no-label", lambda: ref.pq_sign(mp, b"") + sig[n:]),
               ("pq-other-label", lambda: ref.pq_sign(mp, TABLE[other][0].encode()) + sig[n:]),
               ("pq-raw", lambda: ref.pq_sign(msg) + sig[n:]), ("trad-raw", lambda: sig[:n] + ref.trad_sign(msg)),
               ("pq-raw-nolabel", lambda: ref.pq_sign(msg, b"") + sig[n:]), ("trad-combination", lambda: sig[:n] + ref.trad_sign(mp_o))]
        for what, s in one[:2] + some(one[2:]):
            bad(what, s=s(), counter="one_component")
        no_prefix = m_prime(name, msg, ctx, b"")
        shift = PREFIX + label + ctx + digest(TABLE[name][1], msg)
        both = [("both-other-key", lambda: ref2.sign(msg, ctx)), ("both-other-msg", lambda: ref.sign(om, ctx)),
                ("both-other-ctx", lambda: ref.sign(msg, oc)), ("both-raw", lambda: ref.pq_sign(msg) + ref.trad_sign(msg)),
                ("both-raw-nolabel", lambda: ref.pq_sign(msg, b"") + ref.trad_sign(msg)),
                ("other-combination", lambda: ref.pq_sign(mp_o, TABLE[other][0].encode()) + ref.trad_sign(mp_o)),
                ("other-combination-label", lambda: ref.pq_sign(mp_o, label) + ref.trad_sign(mp_o)),
                ("no-prefix", lambda: ref.pq_sign(no_prefix) + ref.trad_sign(no_prefix)),
                ("no-ctx-length", lambda: ref.pq_sign(shift) + ref.trad_sign(shift))]
        if name[10:].startswith("rsa"):
            bad("other-padding", s=sig[:n] + ref.trad_sign(mp, pss=not pss))
        for what, s in some(both):
            bad(what, s=s())
        # other keys
        t2 = CompositeSigPublicKey(pq_key=pq.public_key(), trad_key=trad2.public_key())
        p2 = CompositeSigPublicKey(pq_key=pq2.public_key(), trad_key=trad.public_key())
        bad("key-trad", p=t2, counter="one_component")
        bad("key-pq", p=p2, counter="one_component")
        bad("key-both", p=ref2_pub(ref2))
    for i in range(max(1, rounds // 3)):
        objects(rec, name, key, ref, ref2, oid)


def ref2_pub(ref):
    from pq_logic.keys.composite_sig import CompositeSigPublicKey
    return CompositeSigPublicKey(pq_key=ref.pq.public_key(), trad_key=ref.trad.public_key())


def alg(oid):
    from pyasn1_alt_modules import rfc9480
    a = rfc9480.AlgorithmIdentifier()
    a["algorithm"] = oid
    return a


def objects(rec, name, key, ref, ref2, oid):
    """The places where the suite verifies composite signatures by algorithm identifier."""
    from pyasn1.codec.der import decoder, encoder
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc9480
    from pq_logic import pq_verify_logic
    from pq_logic.tmp_oids import COMPOSITE_SIG_NAME_TO_OID
    from resources import certbuildutils, certutils, protectionutils
    rng, pub, pss, n = rec.rng, key.public_key(), name.endswith("-pss"), PQ_SIG[name[:9]]
    msg = rb(rng, 50)
    sig = ref.sign(msg, b"")
    rec.ev(name, "alg-id", counter="accepted")
    rec.must("alg-id", lambda: protectionutils.verify_signature_with_alg_id(pub, alg(oid), msg, sig))
    ok, own = rec.must("alg-id", lambda: protectionutils.sign_data_with_alg_id(key, alg(oid), msg))
    if ok:
        rec.ev(name, "sign-alg-id", counter="reference_accepts")
        rec.check(ref.verify(own, msg, b""), "not-the-draft", f"{name}: sign_data_with_alg_id", sig=own)
    rec.must("two-keys", lambda: protectionutils.verify_composite_signature_with_keys(
        data=msg, signature=sig, alg_id=alg(oid), first_key=ref.pq.public_key(), second_key=ref.trad.public_key()))
    rec.must("two-keys", lambda: protectionutils.verify_composite_signature_with_keys(
        data=msg, signature=sig, alg_id=alg(oid), first_key=ref.trad.public_key(), second_key=ref.pq.public_key()))
    for pk, tk, what in ((ref2.pq, ref.trad, "pq"), (ref.pq, ref2.trad, "trad")):
        refused(rec, "accepts", (name, "two-keys", what), lambda: protectionutils.verify_composite_signature_with_keys(
            data=msg, signature=sig, alg_id=alg(oid), first_key=pk.public_key(), second_key=tk.public_key()), "object_refused")
    for o in TABLE:
        if o != name:
            a = alg(COMPOSITE_SIG_NAME_TO_OID["composite-sig-" + o])
            refused(rec, "accepts-alg-id", (name, "alg-id", o), lambda: protectionutils.verify_signature_with_alg_id(pub, a, msg, sig), "alg_id",
                    name=name, oid=o, sig=sig, message=msg)
    for what, p in (("pq-key", ref.pq.public_key()), ("trad-key", ref.trad.public_key())):
        refused(rec, "accepts", (name, "single", what), lambda: protectionutils.verify_signature_with_alg_id(p, alg(oid), msg, sig), "object_refused")

    # certificate, request, message
    ok, res = rec.must("cert", lambda: certbuildutils.build_certificate(private_key=key, common_name="CN=composite", use_rsa_pss=pss,
                                                                              spki=pub.to_spki(use_pss=pss)))
    if ok:
        cert = res[0]
        tbs = encoder.encode(cert["tbsCertificate"])
        rec.ev(name, "cert", counter="object")
        rec.check(str(cert["signatureAlgorithm"]["algorithm"]) == str(oid) == str(cert["tbsCertificate"]["signature"]["algorithm"]),
                  "cert-alg", f"{name}: certificate names {cert['signatureAlgorithm']['algorithm']}")
        rec.check(ref.verify(cert["signature"].asOctets(), tbs, b""), "not-the-draft", f"{name}: certificate signature", cert=encoder.encode(cert))
        rec.must("cert", lambda: certutils.verify_cert_signature(cert))
        rec.must("cert", lambda: certutils.verify_cert_signature(cert, issuer_pub_key=pub))
        rec.must("hybrid-cert", lambda: pq_verify_logic.verify_composite_signature_with_hybrid_cert(msg, sig, alg(oid), cert))
        s = cert["signature"].asOctets()
        damaged = [("pq-only", s[:n]), ("trad-only", s[n:]), ("pq-other", ref2.pq_sign(m_prime(name, tbs, b"")) + s[n:]),
                   ("trad-other", s[:n] + ref2.trad_sign(m_prime(name, tbs, b""))), ("pq-bit", flip(rng, s, 0, n)),
                   ("trad-bit", flip(rng, s, n)), ("plain-pq", ref.pq_sign(tbs, b"")), ("plain-trad", ref.trad_sign(tbs))]
        for what, v in damaged:
            c, _ = decoder.decode(encoder.encode(cert), rfc9480.CMPCertificate())
            c["signature"] = univ.BitString.fromOctetString(v)
            refused(rec, "accepts-cert", (name, "cert", what), lambda: certutils.verify_cert_signature(c), "object_refused", cert=encoder.encode(c))
        refused(rec, "accepts-cert", (name, "cert", "issuer"), lambda: certutils.verify_cert_signature(cert, issuer_pub_key=ref2_pub(ref2)),
                "object_refused")
        for what, v in damaged[:6]:
            refused(rec, "accepts", (name, "hybrid-cert", what), lambda: pq_verify_logic.verify_composite_signature_with_hybrid_cert(
                tbs, v, alg(oid), cert), "object_refused")
    ok, csr = rec.must("csr", lambda: certbuildutils.build_csr(signing_key=key, common_name="CN=composite", use_rsa_pss=pss))
    if ok:
        rec.ev(name, "csr", counter="object")
        data = encoder.encode(csr["certificationRequestInfo"])
        rec.must("csr", lambda: certutils.verify_csr_signature(csr))
        rec.check(ref.verify(csr["signature"].asOctets(), data, b""), "not-the-draft", f"{name}: CSR signature", csr=encoder.encode(csr))
        s = csr["signature"].asOctets()
        for what, v in (("pq-only", s[:n]), ("trad-only", s[n:]), ("pq-other", ref2.pq_sign(m_prime(name, data, b"")) + s[n:]),
                        ("trad-other", s[:n] + ref2.trad_sign(m_prime(name, data, b""))), ("pq-bit", flip(rng, s, 0, n)), ("trad-bit", flip(rng, s, n))):
            csr["signature"] = univ.BitString.fromOctetString(v)
            refused(rec, "accepts-csr", (name, "csr", what), lambda: certutils.verify_csr_signature(csr), "object_refused", csr=encoder.encode(csr))


def vector(rec, name):
    """The test vectors of the draft."""
    import base64
    import json
    from pq_logic.keys.pq_key_factory import PQKeyFactory  # noqa: F401
    from resources import certutils
    with open("data/rfc_test_vectors/composite_sig_testvectors.json") as f:
        data = json.load(f)
    want = TABLE[name][0].replace("COMPSIG-", "id-").replace("-BP256", "-brainpoolP256r1").replace("-BP384", "-brainpoolP384r1")
    for t in data["tests"]:
        if t["tcId"] != want:
            continue
        msg, sig = base64.b64decode(data["m"]), base64.b64decode(t["s"])
        cert = certutils.parse_certificate(base64.b64decode(t["x5c"]))
        pub = certutils.load_public_key_from_cert(cert)
        rec.ev(name, "vector", counter="vector")
        rec.check(pub.public_bytes_raw() == base64.b64decode(t["pk"]), "vector-key", f"{name}: public key of the vector")
        pss, n = name.endswith("-pss"), PQ_SIG[name[:9]]
        rec.must("vector", lambda: pub.verify(data=msg, signature=sig, use_pss=pss))
        rec.must("vector-cert", lambda: certutils.verify_cert_signature(cert))
        for what, s in (("pq-only", sig[:n]), ("trad-only", sig[n:]), ("bit", flip(rec.rng, sig))):
            refused(rec, "accepts", (name, "vector", what), lambda: pub.verify(data=msg, signature=s, use_pss=pss))


def jobs(tier, seed):
    t = tier == "thorough"
    names = sorted(TABLE, key=lambda x: "rsa4096" not in x)
    return [Job(n, _combination, timeout=2400, alg=n, rounds=12 if t else 2)
            for n in names]


def _combination(rec, alg, rounds):
    combination(rec, alg, rounds)
