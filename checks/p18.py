"""P18: enveloped data opens only for its recipient, unchanged; signed data only from a trusted key generation authority."""

import os
import shutil

from vlib import cms, tlv
from vlib.core import Job
from vlib.x5 import Cert

RULE = ("case = (kind of recipient, algorithm, direction) for contents that must come out identical (suite to suite, suite to an own "
        "reader, own writer to suite); (kind, what was changed) for changed envelopes, wrong keys, passwords, certificates and recipient "
        "indexes, which must never give the original content; (algorithm, what was changed) for signed key packages, which must be refused")
REQUIRED = {"opened": 200, "reference": 90, "own": 70, "changed": 900, "other_key": 90, "identifier": 60, "several": 20, "signed": 12,
            "signed_changed": 150, "untrusted": 20}
ASSUMPTIONS = ["AES-CBC does not protect the content's integrity: a changed ciphertext may decrypt to something else, never to the original",
               "signed attributes are not covered by the signature (RFC 9483, 4.1.6.1: it is over encapContentInfo); only their digest is checked",
               "chains with post-quantum keys are checked by the suite for signatures and trust anchors only, not for validity and CA flags",
               "the parameters field of an AlgorithmIdentifier that is NULL may hold anything"]
NOTE = "independent CMS reader and writer (RFC 3394, 5652, 5753, 8018, 9629, 9690; MQV as in SEC 1)"

CEK = (16, 24, 32)
CURVES = {"secp256r1": "SECP256R1", "secp384r1": "SECP384R1", "secp521r1": "SECP521R1", "secp224r1": "SECP224R1", "secp256k1": "SECP256K1"}
KEMS = ["ml-kem-512", "ml-kem-768", "ml-kem-1024"]


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def enc(obj):
    from pyasn1.codec.der import encoder
    return encoder.encode(obj)


def dec(raw):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc9480
    out, rest = decoder.decode(raw, rfc9480.EnvelopedData())
    if rest:
        raise ValueError("rest")
    return out


def content(rng):
    return rb(rng, rng.choice([0, 1, 15, 16, 17, 31, 32, 33, rng.randrange(200), rng.randrange(5000)]))


def as_cert(raw):
    from resources.certutils import parse_certificate
    return parse_certificate(raw)


class Ca:
    """Signs the certificates of the keys; self-signed root."""

    def __init__(self, rng, alg="ecdsa"):
        from vlib import zoo
        self.rng = rng
        self.key = zoo.stored(alg) if alg in zoo.STORED else zoo.named(alg)
        self.cert = self.issue(self.key, ski=True, is_ca=True, key_usage="keyCertSign", root=True)

    def issue(self, key, ski=True, root=False, cn=None, **kw):
        from resources.certbuildutils import build_certificate
        from vlib import zoo
        c, _ = build_certificate(private_key=key, common_name=cn or zoo.rnd_cn(self.rng), include_ski=ski,
                                 ca_key=self.key, ca_cert=None if root else self.cert, **kw)
        return as_cert(enc(c))


def ec_key(curve):
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.generate_private_key(getattr(ec, CURVES[curve])())


class Kind:
    """One way to a recipient: the key and certificates, how the suite seals and opens, how the reference does."""

    label = ""
    popless = True

    def __init__(self, rng, ca):
        self.rng, self.ca = rng, ca

    def suite_info(self, cek):
        raise NotImplementedError

    def suite_open(self, env, raw_data, **over):
        raise NotImplementedError

    def ref_open(self, raw, index=0):
        raise NotImplementedError

    def own_info(self, cek):
        return None


class Ktri(Kind):
    def __init__(self, rng, ca, keys, pkcs1):
        super().__init__(rng, ca)
        self.pkcs1 = pkcs1
        self.key, self.other = rng.sample(keys, 2)
        self.cert = ca.issue(self.key, ski=rng.random() < 0.6)
        self.other_cert = ca.issue(self.other)
        self.label = "ktri-pkcs1" if pkcs1 else "ktri-oaep"

    def suite_info(self, cek):
        from resources import envdatautils
        return envdatautils.prepare_ktri(self.key.public_key(), self.cert, cek, use_rsa_oaep=not self.pkcs1)

    def suite_open(self, env, raw_data, key=None, cert=None, pop=False, index=0, size=1):
        from resources import ca_kga_logic
        return ca_kga_logic.validate_enveloped_data(
            env, ee_key=key or self.key, cmp_protection_cert=None if pop else cert or self.cert, expected_raw_data=raw_data, for_pop=pop,
            expected_type=self.rng.choice([None, "ktri"]) if size == 1 else "ktri", recip_info_index=index, expected_size=size)

    def ref_open(self, raw, index=0):
        return cms.open_envelope(raw, self.key, index=index)

    def own_info(self, cek):
        h, m = (self.rng.choice(["sha1", "sha224", "sha256", "sha384", "sha512"]) for _ in "ab")
        return cms.ktri(self.key.public_key(), cek, cms.rid_of(Cert(enc(self.cert))), self.pkcs1, h, m)


class Kari(Kind):
    def __init__(self, rng, ca, kind, h, curve, wl):
        super().__init__(rng, ca)
        self.kind, self.h, self.wl = kind, h, wl
        if kind in ("x25519", "x448"):
            from cryptography.hazmat.primitives.asymmetric import x448, x25519
            gen = (x25519.X25519PrivateKey if kind == "x25519" else x448.X448PrivateKey).generate
        else:
            def gen():
                return ec_key(curve)
        self.key, self.other, self.sender, self.other_sender = gen(), gen(), gen(), gen()
        self.cert = ca.issue(self.sender, ski=rng.random() < 0.6)
        self.other_cert = ca.issue(self.other_sender)
        self.label = f"kari-{kind}"
        # a certificate with another key that identifies the sender (X25519, X448 keys cannot sign)
        self.id_cert = ca.issue(ec_key("secp256r1"), ski=rng.random() < 0.6) if kind[0] == "x" else self.cert

    def suite_info(self, cek):
        from resources import envdatautils
        rid = envdatautils.prepare_recipient_identifier(self.id_cert)
        self.eph = ec_key(self.key.curve.name) if self.kind == "mqv" else None
        kw = {}
        if self.eph is not None and self.rng.random() < 0.5:
            kw["ephemeral_key"] = self.eph
        k = envdatautils.prepare_kari(
            self.key.public_key(), self.sender, cek=cek, cmp_protection_cert=self.id_cert, hash_alg=self.h,
            ukm=self.rng.choice([None, rb(self.rng, self.rng.randrange(1, 40))]), use_mvq=self.kind == "mqv",
            use_cofactor=self.kind == "cof", wrap_alg=f"aes{8 * self.wl}_wrap",
            originator=envdatautils.prepare_originator_with_rid(rid) if self.rng.random() < 0.3 else None, **kw)
        return envdatautils.parse_recip_info(k)

    def suite_open(self, env, raw_data, key=None, cert=None, pop=False, index=0, size=1):
        from resources import ca_kga_logic
        kari_cert = cert or self.cert
        if self.id_cert is self.cert and size == 1 and self.rng.random() < 0.5:
            return ca_kga_logic.validate_kari_env_data(env, key or self.key, kari_cert, expected_raw_data=raw_data, for_pop=pop)
        return ca_kga_logic.validate_enveloped_data(
            env, ee_key=key or self.key, cmp_protection_cert=kari_cert if self.id_cert is self.cert else self.id_cert,
            kari_cert=kari_cert, expected_raw_data=raw_data, for_pop=pop, expected_type=self.rng.choice([None, "kari"]),
            recip_info_index=index, expected_size=size)

    def ref_open(self, raw, index=0):
        return cms.open_envelope(raw, self.key, self.sender.public_key(), index=index)

    def own_info(self, cek):
        ukm = rb(self.rng, self.rng.randrange(1, 40)) if self.rng.random() < 0.7 else None
        eph = ec_key(self.key.curve.name) if self.kind == "mqv" else None
        return cms.kari(self.kind, self.h, self.wl, self.sender, self.key.public_key(), cek, cms.rid_of(Cert(enc(self.id_cert))), ukm,
                        self.rng, eph)


class Pwri(Kind):
    label = "pwri"
    popless = False

    def __init__(self, rng, ca):
        super().__init__(rng, ca)
        self.key = bytes(rng.randrange(1, 256) for _ in range(rng.randrange(1, 60)))  # HMAC does not see a NUL at the end
        self.other = self.key + b"x"
        self.wl, self.h = rng.choice(CEK), rng.choice(["sha224", "sha256", "sha384", "sha512"])
        self.cmp_salt = rb(rng, 16)
        self.cert = None

    def suite_info(self, cek):
        from resources import envdatautils
        self.salt = rb(self.rng, self.rng.choice([8, 16, 32]))
        p = envdatautils.prepare_password_recipient_info(self.key, cek=cek, salt=self.salt, iterations=self.rng.randrange(1, 3000),
                                                         key_length=self.wl, hash_alg=self.h)
        return envdatautils.parse_recip_info(p)

    def suite_open(self, env, raw_data, key=None, cert=None, pop=False, index=0, size=1, salt=None):
        from resources import ca_kga_logic
        kw = dict(password=key or self.key, cmp_protection_salt=salt or self.cmp_salt, expected_raw_data=raw_data,
                  recip_info_index=index, expected_size=size)
        if self.rng.random() < 0.5:
            return ca_kga_logic.validate_enveloped_data(env, **kw)
        return ca_kga_logic.validate_pwri_enveloped_data(env, skip_verify=True, **kw)

    def ref_open(self, raw, index=0):
        return cms.open_envelope(raw, self.key, index=index)

    def own_info(self, cek):
        self.salt = rb(self.rng, self.rng.choice([8, 16, 32]))
        return cms.pwri(self.key, cek, self.salt, self.rng.randrange(1, 3000), self.h, self.wl)


class Kemri(Kind):
    def __init__(self, rng, ca, alg, keys):
        super().__init__(rng, ca)
        self.alg = alg
        self.key, self.other = keys
        self.cert = ca.issue(self.key, ski=rng.random() < 0.6)
        self.other_cert = ca.issue(self.other)
        self.wl = rng.choice(CEK)
        self.kdf, self.h = rng.choice([("hkdf", rng.choice(["sha256", "sha384", "sha512"])),
                                       (rng.choice(["kdf2", "kdf3"]), rng.choice(["sha224", "sha256", "sha384", "sha512"]))])
        self.label = "kemri-" + ("ml-kem" if alg.startswith("ml-kem") else alg.split("-ml-kem")[0].split("-frodo")[0])

    def suite_info(self, cek):
        from resources import envdatautils
        rng = self.rng
        kw = {"public_key_recip": self.key.public_key()} if rng.random() < 0.5 or self.alg == "rsa-kem" else {}
        k = envdatautils.prepare_kem_recip_info(
            recip_cert=self.cert, cek=cek, kdf_name=self.kdf, hash_alg=self.h, wrap_name=f"aes{8 * self.wl}_wrap",
            ukm=rng.choice([None, rb(rng, rng.randrange(1, 40))]), **kw)
        return envdatautils.parse_recip_info(k)

    def suite_open(self, env, raw_data, key=None, cert=None, pop=False, index=0, size=1):
        from resources import ca_kga_logic
        key, cert = key or self.key, cert or self.cert
        if pop and self.rng.random() < 0.5:
            cert = None
        kw = dict(expected_raw_data=raw_data, for_pop=pop, recip_info_index=index, expected_size=size)
        way = self.rng.randrange(3 if self.alg == "rsa-kem" or size > 1 else 4)
        if way == 0:
            return ca_kga_logic.validate_kemri_enveloped_data(env, key, cert, **kw)
        if way == 1:
            return ca_kga_logic.validate_kemri_env_data_for_ca(env, cert, kem_key=key, **kw)
        if way == 2:
            return ca_kga_logic.validate_enveloped_data(env, ee_key=key, cmp_protection_cert=cert, **kw)
        return ca_kga_logic.validate_enveloped_data(env, ee_key=key, cmp_protection_cert=cert, expected_type="kemri", **kw)

    def decaps(self, ct, length):
        from pq_logic.keys.composite_kem import CompositeKEMPrivateKey
        if self.alg == "rsa-kem":
            n = self.key.private_numbers
            p = n.public_numbers
            z = pow(int.from_bytes(ct, "big"), n.d, p.n).to_bytes((p.n.bit_length() + 7) // 8, "big")
            return cms.x963(z, length, b"", "sha256", first=True)
        if isinstance(self.key, CompositeKEMPrivateKey):
            return self.key.decaps(ct, use_in_cms=True)
        return self.key.decaps(ct)

    def ref_open(self, raw, index=0):
        return cms.open_envelope(raw, self.key, index=index, decaps=self.decaps)

    def own_info(self, cek):
        from pq_logic.keys.composite_kem import CompositeKEMPrivateKey
        from pq_logic.pq_utils import get_kem_oid_from_key
        pub = self.key.public_key()
        if self.alg == "rsa-kem":
            p = pub.public_numbers
            r = self.rng.randrange(2, p.n - 1)
            k = (p.n.bit_length() + 7) // 8
            ss, ct = cms.x963(r.to_bytes(k, "big"), self.wl, b"", "sha256", first=True), pow(r, p.e, p.n).to_bytes(k, "big")
        elif isinstance(self.key, CompositeKEMPrivateKey):
            ss, ct = pub.encaps(use_in_cms=True)
        else:
            ss, ct = pub.encaps()
        ukm = rb(self.rng, self.rng.randrange(1, 40)) if self.rng.random() < 0.5 else None
        return cms.kemri(tlv.parse(enc(get_kem_oid_from_key(self.key))), ss, ct, cek, cms.rid_of(Cert(enc(self.cert))), self.wl,
                         cms.kdf_alg(self.kdf, self.h), ukm)


# -- the workload ------------------------------------------------------------------------------------
def suite_envelope(rng, infos, cek, data, raw_data):
    from pyasn1_alt_modules import rfc5652, rfc9480
    from resources import envdatautils
    env = envdatautils.prepare_enveloped_data(infos, cek, data, version=2, target=rfc9480.EnvelopedData(),
                                              enc_oid=rfc5652.id_data if raw_data else rfc5652.id_signedData)
    return enc(env)


def attempt(fn):
    try:
        return fn()
    except Exception as e:  # a refusal
        return e


RID = {0x30: [(1,)], 0xA1: [(1,), None], 0xA3: [], 0xA4: [(1, 1)]}


def identifier_paths(info):
    """Paths (inside the RecipientInfo) of what identifies the recipient."""
    t = info.tag[0]
    if t == 0x30:
        return [(1,)]
    if t == 0xA1:
        return [(1,), (len(info.kids) - 1, 0, 0)]
    if t == 0xA4:
        return [(1, 1)]
    return []


def under(path, roots):
    return any(path[:len(r)] == r for r in roots)


def changes(rng, raw, n):
    """(label, changed DER, is an identifier) with one leaf or structure changed."""
    root = tlv.parse(raw)
    ids = [(1, 0) + p for p in identifier_paths(root.kids[1].kids[0])]
    lv = [(p, x) for p, x in tlv.leaves(root) if p[0] in (1, 2) and x.tag != b"\x05" and x.val]
    rng.shuffle(lv)
    for p, x in (lv * 8)[:n]:
        if x.tag == b"\x03":
            out = tlv.copy(root)
            tlv.at(out, p).val = x.val[:2] + tlv.flip(x.val[2:], rng)
            kind = "flip"
        else:
            kind, out = tlv.mutate_leaf(root, p, rng)
            if x.tag == b"\x02" and int.from_bytes(tlv.at(out, p).val, "big", signed=True) == int.from_bytes(x.val, "big", signed=True):
                continue
        name = "content" if p[0] == 2 else "recipient"
        yield f"{name}/{'.'.join(map(str, p[1:]))}/{kind}", tlv.dump(out), under(p, ids)
    inner = [p for p, x in tlv.walk(root) if x.cons and len(x.kids) > 1 and p and p[0] in (1, 2) and not any(k.tag == b"\x05" for k in x.kids)]
    for p in rng.sample(inner, min(len(inner), max(1, n // 4))):
        kind, out = tlv.mutate_struct(root, p, rng)
        if kind is None or tlv.dump(out) == raw:
            continue
        yield f"structure/{'.'.join(map(str, p))}/{kind}", tlv.dump(out), under(p, ids)


def envelope(rec, k, n_changes):
    rng = rec.rng
    cek, data, raw_data = rb(rng, rng.choice(CEK)), content(rng), rng.random() < 0.5
    pop = k.popless and rng.random() < 0.3
    ok, info = rec.must("seal", lambda: k.suite_info(cek))
    if not ok:
        return
    raw = suite_envelope(rng, [info], cek, data, raw_data)
    rec.ev(k.label, "suite-suite", pop, counter="opened")
    got = attempt(lambda: k.suite_open(dec(raw), raw_data, pop=pop))
    rec.check(got == data, "not-opened", f"{k.label}: the suite's envelope does not give the content: {got!r:.200}", env=raw)
    rec.ev(k.label, "suite-reference", counter="reference")
    got = attempt(lambda: k.ref_open(raw))
    rec.check(got == ("data" if raw_data else "signed", data), "reference", f"{k.label}: an independent reader does not open it: {got!r:.200}",
              env=raw)
    own = attempt(lambda: k.own_info(cek))
    if isinstance(own, Exception):
        raise own
    oraw = tlv.dump(cms.envelope([own], cek, data, rng, signed=not raw_data))
    rec.ev(k.label, "own-suite", counter="own")
    got = attempt(lambda: k.suite_open(dec(oraw), raw_data, pop=pop))
    rec.check(got == data, "own-not-opened", f"{k.label}: the suite does not open a valid envelope: {got!r:.200}", env=oraw)
    # the other content type, other keys, other certificates
    got = attempt(lambda: k.suite_open(dec(raw), not raw_data, pop=pop))
    rec.check(got != data, "content-type", f"{k.label}: content of another type", env=raw)
    wrong = [("key", dict(key=k.other))]
    if k.cert is not None and k.label.startswith("kari"):
        wrong.append(("sender", dict(cert=k.other_cert)))
    if not pop and k.cert is not None:
        wrong.append(("certificate", dict(cert=k.other_cert)))
    if k.label == "pwri":
        wrong += [("salt", dict(salt=k.salt)), ("password", dict(key=k.key[:-1] or k.key + b"-")),
                  ("password", dict(key=bytes([k.key[0] ^ 1]) + k.key[1:]))]
        if own is not None:
            raw, oraw = oraw, raw  # k.salt is that of the own envelope
    for what, kw in wrong:
        rec.ev(k.label, what, counter="other_key")
        if what == "certificate" and k.label.startswith("kari-x"):
            continue
        got = attempt(lambda: k.suite_open(dec(raw), raw_data, pop=pop, **kw))
        rec.check(got != data, "other-" + what, f"{k.label}: opened with another {what}", env=raw)
    # changes
    for what, changed, ident in changes(rng, rng.choice([raw, oraw]), n_changes):
        p = pop and not ident
        rec.ev(k.label, what, p, counter="changed")
        if ident:
            rec.count("identifier", 1)
        got = attempt(lambda: k.suite_open(dec(changed), raw_data, pop=p))
        rec.check(got != data or len(data) == 0 and what.startswith("content"), "changed", f"{k.label}: {what} changed, content returned", env=changed)
    rec.sample(kind=k.label, size=len(data), pop=pop)


def several(rec, ks):
    """One envelope for several recipients: the index decides, and only the right one opens."""
    rng = rec.rng
    cek, data, raw_data = rb(rng, rng.choice(CEK)), content(rng) + b"x", rng.random() < 0.5
    infos = [k.suite_info(cek) for k in ks]
    raw = suite_envelope(rng, infos, cek, data, raw_data)
    root = tlv.parse(raw)
    order = [tlv.dump(x) for x in root.kids[1].kids]
    for k, info in zip(ks, infos):
        i = order.index(enc(info))
        rec.ev(k.label, "several", i, counter="several")
        got = attempt(lambda: k.suite_open(dec(raw), raw_data, index=i, size=len(ks)))
        rec.check(got == data, "several", f"{k.label}: recipient {i} of {len(ks)} does not get the content: {got!r:.200}", env=raw)
        got = attempt(lambda: k.ref_open(raw, i))
        rec.check(got == ("data" if raw_data else "signed", data), "several-reference", f"{k.label}: recipient {i} of {len(ks)}", env=raw)
        for j in range(len(ks) + 1):
            if j != i:
                got = attempt(lambda: k.suite_open(dec(raw), raw_data, index=j, size=len(ks)))
                rec.check(got != data, "several-index", f"{k.label}: recipient {i} opened entry {j}", env=raw)
        got = attempt(lambda: k.suite_open(dec(raw), raw_data, index=i, size=len(ks) + rng.choice([-1, 1])))
        rec.check(got != data, "several-size", f"{k.label}: unexpected number of recipients", env=raw)
        if got == data:
            break


def rsa_keys(rng, n=3):
    from cryptography.hazmat.primitives.asymmetric import rsa
    return [rsa.generate_private_key(65537, s) for s in (2048, 2048, rng.choice([1536, 3072]))[:n]]


def job_ktri(rec, rounds, n_changes):
    ca, keys = Ca(rec.rng), rsa_keys(rec.rng)
    for i in range(rounds):
        envelope(rec, Ktri(rec.rng, ca, keys, i % 2), n_changes)
    for _ in range(max(2, rounds // 4)):
        several(rec, mixed(rec.rng, ca, keys))


def mixed(rng, ca, keys):
    out = []
    for _ in range(rng.choice([2, 3])):
        out.append(rng.choice([
            lambda: Ktri(rng, ca, keys, rng.randrange(2)),
            lambda: Kari(rng, ca, rng.choice(["std", "cof"]), "sha256", "secp256r1", rng.choice(CEK)),
            lambda: Kari(rng, ca, rng.choice(["x25519", "x448"]), "sha256", None, rng.choice(CEK)),
            lambda: Pwri(rng, ca),
            lambda: Kemri(rng, ca, "ml-kem-512", kem_keys(rng, "ml-kem-512"))])())
    return out


def job_kari(rec, kind, rounds, n_changes):
    rng, ca = rec.rng, Ca(rec.rng)
    for i in range(rounds):
        curves = [c for c in CURVES if kind != "mqv" or c != "secp256k1"]  # the MQV code does not know secp256k1
        curve = curves[i % len(curves)] if kind in ("std", "cof", "mqv") else None
        h = rng.choice(["sha224", "sha256", "sha384", "sha512"]) if curve else "sha256"
        envelope(rec, Kari(rng, ca, kind, h, curve, rng.choice(CEK)), n_changes)
    if kind[0] == "x":
        swapped_x(rec, ca, kind)


def swapped_x(rec, ca, kind):
    """The other curve's algorithm identifier over the same key."""
    k = Kari(rec.rng, ca, kind, "sha256", None, 32)
    cek, data = rb(rec.rng, 32), content(rec.rng) + b"x"
    raw = suite_envelope(rec.rng, [k.suite_info(cek)], cek, data, True)
    root = tlv.parse(raw)
    a = next(x for _, x in tlv.walk(root) if not x.cons and x.tag == b"\x06" and x.val in (b"\x2b\x65\x6e", b"\x2b\x65\x6f"))
    a.val = b"\x2b\x65\x6f" if a.val == b"\x2b\x65\x6e" else b"\x2b\x65\x6e"
    rec.ev(k.label, "other algorithm", counter="changed")
    got = attempt(lambda: k.suite_open(dec(tlv.dump(root)), True))
    rec.check(got != data, "other-algorithm", f"{k.label}: opened under the algorithm of the other curve", env=tlv.dump(root))


def job_pwri(rec, rounds, n_changes):
    for _ in range(rounds):
        envelope(rec, Pwri(rec.rng, None), n_changes)


def kem_keys(rng, alg):
    from checks import p16
    if alg == "rsa-kem":
        from pq_logic.keys.trad_kem_keys import RSADecapKey
        return [RSADecapKey(x) for x in rsa_keys(rng, 2)]
    if alg.startswith("ml-kem") or alg.startswith("frodo"):
        return [p16.pq_key(rng, alg) for _ in "ab"]
    fam, pqn, tn = p16.split(alg)
    return [p16.make(fam, p16.pq_key(rng, pqn), p16.trad_key(tn)) for _ in "ab"]


def job_kemri(rec, alg, rounds, n_changes):
    rng, ca = rec.rng, Ca(rec.rng)
    keys = kem_keys(rng, alg)
    for _ in range(rounds):
        envelope(rec, Kemri(rng, ca, alg, keys), n_changes)


# -- signed key packages -------------------------------------------------------------------------------
def parse_signed(raw):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc5652
    out, rest = decoder.decode(raw, rfc5652.SignedData())
    if rest:
        raise ValueError("rest")
    return out


def anchors(name, certs):
    from cryptography.hazmat.primitives.serialization import Encoding  # noqa: F401
    import base64
    d = os.path.abspath("anchors-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for i, c in enumerate(certs):
        with open(os.path.join(d, f"{i}.pem"), "w") as f:
            f.write("-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(enc(c)).decode() + "-----END CERTIFICATE-----\n")
    return d


def kga_opts():
    return {"eku": "cmKGA", "key_usage": "digitalSignature"}


def material(k):
    from checks import p17
    return p17.material(k)


def job_signed(rec, alg, ca_alg, rounds, n_changes):
    from resources import ca_kga_logic, envdatautils
    from vlib import zoo
    rng = rec.rng
    ca, stranger = Ca(rng, ca_alg), Ca(rng, "rsa" if ca_alg == "ecdsa" else "ecdsa")
    trusted = anchors("ok", [ca.cert])
    kga = zoo.named(alg)
    good = ca.issue(kga, ski=True, **kga_opts())
    other_key = zoo.named(alg) if alg not in zoo.STORED else ec_key("secp256r1")
    other = ca.issue(other_key, ski=True, **kga_opts())
    classic = alg in ("rsa", "ecdsa", "ed25519", "ed448")

    def build(keys, cert=good, chain=None, signer=kga, **kw):
        return enc(envdatautils.prepare_signed_data(signer, cert, sig_hash_name=None, private_keys=keys,
                                                    cert_chain=chain if chain is not None else [cert, ca.cert], **kw))

    def read(raw, where=trusted):
        return ca_kga_logic.validate_signed_data_structure(parse_signed(raw), trustanchors=where)

    def refused(what, raw, key="signed-changed", where=trusted, counter="signed_changed"):
        rec.ev(alg, what, counter=counter)
        got = attempt(lambda: read(raw, where))
        rec.check(isinstance(got, Exception), key, f"{alg}: {what} accepted", signed=raw)

    for i in range(rounds):
        new = rng.choice([lambda: ec_key("secp256r1"), lambda: zoo.named("ed25519"), lambda: zoo.stored("rsa"),
                          lambda: zoo.named("x25519"), lambda: zoo.stored("ml-dsa-44")])()
        raw = build(new)
        rec.ev(alg, "round trip", counter="signed")
        got = attempt(lambda: read(raw))
        if not rec.check(not isinstance(got, Exception) and material(got) == material(new), "signed", f"{alg}: the package does not open: {got!r:.200}",
                         signed=raw):
            return
        root = tlv.parse(raw)
        signer = root.kids[-1].kids[0]
        sig = len(signer.kids) - 1
        last = len(root.kids) - 1
        # every leaf of what is signed, the signature, its algorithm (the signer is certificates[0] whatever
        # the signer identifier says: the repository's own tests rely on that)
        paths = [(p, x) for p, x in tlv.leaves(root) if x.tag != b"\x05" and x.val and (
            p[0] == 2 or p[0] in (0, 1) or p[0] == last and p[2] in (0, 2, sig - 1, sig) or p[0] == last and x.tag == b"\x04")]
        for p, x in rng.sample(paths, min(len(paths), n_changes)) if len(paths) > n_changes else paths:
            kind, out = tlv.mutate_leaf(root, p, rng)
            refused(f"{'.'.join(map(str, p))}/{kind}", tlv.dump(out))
        for _ in range(3):
            out = tlv.copy(root)
            n = tlv.at(out, (2, 1, 0))
            n.val = tlv.flip(n.val, rng)
            refused("content/flip", tlv.dump(out))
            out = tlv.copy(root)
            n = tlv.at(out, (last, 0, sig))
            n.val = tlv.flip(n.val, rng)
            refused("signature/flip", tlv.dump(out))
        # another package under the same signature; another package with its own digest under the same signature
        second = tlv.parse(build(ec_key("secp256r1")))
        out = tlv.copy(root)
        out.kids[2] = second.kids[2]
        refused("another package", tlv.dump(out))
        out = tlv.copy(second)
        tlv.at(out, (last, 0, sig)).val = tlv.at(root, (last, 0, sig)).val
        refused("the signature of another package", tlv.dump(out))
        out = tlv.copy(root)
        out.kids[last].kids.append(tlv.copy(signer))
        refused("two signers", tlv.dump(out))
        out = tlv.copy(root)
        out.kids[last].kids = []
        refused("no signer", tlv.dump(out))
        refused("bad signature", build(new, bad_sig=True))
        refused("signed by another key", build(new, signer=other_key if alg not in zoo.STORED else kga, cert=other if alg in zoo.STORED else good))
        # certificates
        no_eku = ca.issue(kga, ski=True, key_usage="digitalSignature")
        refused("not a key generation authority", build(new, cert=no_eku), "not-kga", counter="untrusted")
        wrong_eku = ca.issue(kga, ski=True, key_usage="digitalSignature", eku=rng.choice(["cmcRA", "cmcCA"]))
        refused("another extended key usage", build(new, cert=wrong_eku), "not-kga", counter="untrusted")
        bad = stranger.issue(kga, ski=True, **kga_opts())
        refused("unknown root", build(new, cert=bad, chain=[bad, stranger.cert]), "untrusted", counter="untrusted")
        refused("another root in the chain", build(new, cert=bad, chain=[bad, ca.cert]), "untrusted", counter="untrusted")
        forged = forged_cert(good, rng)
        refused("changed certificate", build(new, cert=forged), "untrusted", counter="untrusted")
        refused("root not trusted", raw, "untrusted", where=anchors("no", [stranger.cert]), counter="untrusted")
        refused("only the certificate", build(new, chain=[good]), "untrusted", counter="untrusted")
        refused("a certificate too many", build(new, chain=[good, ca.cert, other]), "untrusted", counter="untrusted")
        same = self_signed(rng, kga, ca)
        refused("self-signed in the root's name", build(new, cert=same, chain=[same, ca.cert]), "untrusted", counter="untrusted")
        if classic and ca_alg == "ecdsa":
            import datetime
            from resources.certbuildutils import prepare_validity
            now = datetime.datetime.now(datetime.timezone.utc)
            for what, a, b in (("expired", -40, -1), ("not yet valid", 2, 40)):
                v = prepare_validity(now + datetime.timedelta(days=a), now + datetime.timedelta(days=b))
                c = ca.issue(kga, ski=True, validity=v, **kga_opts())
                refused(what, build(new, cert=c), "untrusted", counter="untrusted")
            mid = Ca.__new__(Ca)
            mid.rng, mid.key = rng, ec_key("secp256r1")
            mid.cert = ca.issue(mid.key, ski=True, key_usage="digitalSignature")
            leaf = mid.issue(kga, ski=True, **kga_opts())
            refused("issued by an end entity", build(new, cert=leaf, chain=[leaf, mid.cert, ca.cert]), "untrusted", counter="untrusted")
        # a chain with an intermediate authority is fine
        mid = Ca.__new__(Ca)
        mid.rng, mid.key = rng, ec_key("secp256r1")
        mid.cert = ca.issue(mid.key, ski=True, is_ca=True, key_usage="keyCertSign")
        leaf = mid.issue(kga, ski=True, **kga_opts())
        raw = build(new, cert=leaf, chain=[leaf, mid.cert, ca.cert])
        rec.ev(alg, "intermediate", counter="signed")
        got = attempt(lambda: read(raw))
        rec.check(not isinstance(got, Exception) and material(got) == material(new), "signed", f"{alg}: chain of three: {got!r:.200}", signed=raw)


def forged_cert(cert, rng):
    """The same certificate with a changed serial number: its signature no longer fits."""
    t = tlv.parse(enc(cert))
    t.kids[0].kids[1].val = t.kids[0].kids[1].val[:-1] + bytes([t.kids[0].kids[1].val[-1] ^ 1])
    return as_cert(tlv.dump(t))


def self_signed(rng, key, ca):
    from resources.certbuildutils import build_certificate
    c, _ = build_certificate(private_key=key, common_name=ca.cert["tbsCertificate"]["subject"], include_ski=True, **kga_opts())
    return as_cert(enc(c))


def jobs(tier, seed):
    from checks import p16
    t = tier == "thorough"
    r, c = (40, 40) if t else (6, 14)
    out = [Job("ktri", job_ktri, rounds=2 * r, n_changes=c), Job("pwri", job_pwri, rounds=3 * r, n_changes=c)]
    out += [Job("kari-" + k, job_kari, kind=k, rounds=2 * r, n_changes=c) for k in ("std", "cof", "mqv", "x25519", "x448")]
    names = p16.combinations()
    frodo = sorted(n for n in names if "frodo" in n)
    rest = sorted(n for n in names if "frodo" not in n and n != "xwing")
    if not t:
        rest = [n for i, n in enumerate(rest) if (i + seed) % 4 == 0]
        frodo = []
    else:
        frodo = frodo[seed % 5::5] + ["frodokem-640-aes", "frodokem-640-shake"]
    out += [Job("kemri-" + n, job_kemri, timeout=2400, alg=n, rounds=r // 2, n_changes=c) for n in ["rsa-kem", "xwing"] + KEMS + rest + frodo]
    sig = [("rsa", "rsa"), ("ecdsa", "ecdsa"), ("ed25519", "ecdsa"), ("ed448", "ecdsa"), ("ml-dsa-44", "ecdsa"), ("ml-dsa-65", "ml-dsa-65"),
           ("slh-dsa-sha2-128f", "ecdsa"), ("composite-sig-ml-dsa-44-ed25519", "ecdsa")]
    out += [Job("signed-" + a, job_signed, timeout=2400 if t else 800, alg=a, ca_alg=b, rounds=(4 if t else 1), n_changes=40 if t else 14) for a, b in sig]
    return out
