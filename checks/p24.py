"""P24: whatever is asked to be wrong really is wrong, and nothing else is."""

import os

from vlib.core import Job

RULE = ("case = (generator of a wrong value, algorithm or kind of input); each is called with and without the requested defect on the same "
        "input, many times: the wrong value must differ from the right one, the corresponding verification must accept the right one and refuse "
        "the wrong one, and everything else (other fields, lengths, decodability) must be the same as without the defect")
REQUIRED = {"bytes": 4000, "protection": 250, "pop": 100, "certificate": 90, "cms": 40, "identifier": 250, "key": 60, "challenge": 40, "generators": 60, "first byte": 3000, "many": 4000}
ASSUMPTIONS = ["a general message with negative=True is only required to carry values where none are allowed"]
NOTE = "the suite's verifications and pyca/OpenSSL as judges; differential comparison with the flawless twin"


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def enc(obj):
    from pyasn1.codec.der import encoder
    return encoder.encode(obj)


def refused(fn):
    try:
        fn()
    except Exception as e:  # noqa - any refusal
        return e
    return None


class G:
    """One generator of wrong values."""
    seen = set()

    def __init__(self, rec):
        self.rec = rec
        self.names = set()

    def name(self, g):
        if g not in self.names:
            self.names.add(g)
            self.rec.count("generators")

    def bad(self, g, what, counter, verify, key=None, **art):
        """verify has to refuse."""
        self.name(g)
        self.rec.ev(g, what, counter=counter)
        e = refused(verify)
        self.rec.check(e is not None, (key or "valid:") + g, f"{g} {what}: the value that was to be wrong is accepted", **art)

    def good(self, g, what, verify, **art):
        self.rec.ev(g, what, "good")
        e = refused(verify)
        self.rec.check(e is None, "good:" + g, f"{g} {what}: refused without a defect: {e!r:.200}", **art)

    def differ(self, g, what, counter, a, b, **art):
        self.name(g)
        self.rec.ev(g, what, counter=counter)
        self.rec.check(a != b, "same:" + g, f"{g} {what}: the value that was to be wrong is the right one", value=a, **art)

    def same(self, g, what, a, b, **art):
        art.setdefault("expected", a)
        art.setdefault("got", b)
        self.rec.check(a == b, "more-changed:" + g, f"{g} {what}: something else is different, too", **art)


def only(g, gen, what, right, wrong, where):
    """Both DER structures are the same but for the node at the path `where` (None: any node below)."""
    from vlib import tlv
    r, w = tlv.parse(right), tlv.parse(wrong)

    def cut(t):
        n = t
        for i in where[:-1]:
            n = n.kids[i]
        n.kids[where[-1]] = tlv.Node(b"\x05", False, b"", [])
        return tlv.dump(t)
    a, b = tlv.at(r, where), tlv.at(w, where)
    g.rec.check(tlv.dump(a) != tlv.dump(b), "same:" + gen, f"{gen} {what}: the value that was to be wrong is the right one", right=right, wrong=wrong)
    g.same(gen, what, cut(r), cut(w))


# -- raw helpers ---------------------------------------------------------------------------------------
def job_bytes(rec, n):
    from resources import utils, cmputils, certbuildutils, cryptoutils
    from resources.keyutils import generate_key
    from vlib import zoo
    rng = rec.rng
    g = G(rec)
    keys = [None, zoo.stored("ecdsa"), zoo.stored("ml-dsa-44"), zoo.named("composite-sig-ml-dsa-44-ecdsa-secp256r1"), zoo.stored("rsa")]
    for first in range(256):
        for ln in (1, 2, 20, 64, rng.randrange(3, 300)):
            d = bytes([first]) + rb(rng, ln - 1)
            x = utils.manipulate_first_byte(d)
            g.differ("manipulate_first_byte", (first, ln == 1), "bytes", x, d)
            g.same("manipulate_first_byte", "rest", (x[1:], len(x)), (d[1:], len(d)))
            k = rng.choice(keys)
            x = utils.manipulate_bytes_based_on_key(d, k)
            g.differ("manipulate_bytes_based_on_key", (first, type(k).__name__), "bytes", x, d)
            g.same("manipulate_bytes_based_on_key", "length", len(x), len(d))
    import string
    alpha = string.ascii_letters + string.digits + " =,.-äß"
    for i in range(n):
        s = "".join(rng.choice(alpha) for _ in range(rng.choice([1, 1, 2, 3, 9, rng.randrange(1, 40)])))
        at = rng.choice([None, 0, -1, len(s) - 1, rng.randrange(len(s))])
        x = cmputils.modify_random_str(s, index=at) if at is not None else cmputils.modify_random_str(s)
        g.differ("modify_random_str", (len(s) == 1, at), "bytes", x, s)
        g.same("modify_random_str", "other characters", (len(x), sum(a != b for a, b in zip(x, s))), (len(s), 1))
        if at:
            g.same("modify_random_str", "index", x[:at] if at > 0 else x[:-1], s[:at] if at > 0 else s[:-1])
    # stateful signatures: the payload or the index
    key = generate_key("hss")
    pub = key.public_key()
    for i in range(8):
        msg = rb(rng, 30)
        sig = cryptoutils.sign_data(data=msg, key=key, hash_alg=None)
        g.good("hss", i, lambda: pub.verify(signature=sig, data=msg))
        for gen, x in (("stateful-signature", utils.manipulate_pq_stateful_signature_bytes(sig, key)),
                       ("stateful-by-key", utils.manipulate_bytes_based_on_key(sig, key)),
                       ("stateful-index", utils.manipulate_pq_stateful_signature_bytes(sig, key, manipulate_sig=False)),
                       ("stateful-index-1", utils.manipulate_pq_stateful_signature_bytes(sig, key, manipulate_sig=False, index=i + 1))):
            g.differ(gen, i, "bytes", x, sig)
            g.same(gen, "length", len(x), len(sig))
            if not gen.startswith("stateful-index"):
                g.same(gen, "level and index", x[:8], sig[:8])
            else:
                g.same(gen, "rest", x[:4] + x[8:], sig[:4] + sig[8:])
                rec.check(gen == "stateful-index" or x[4:8] == (i + 1).to_bytes(4, "big"), "value:stateful-index", f"index {x[4:8].hex()} for {i + 1}")
            g.bad(gen, i, "bytes", lambda: pub.verify(signature=x, data=msg))
    # names
    from resources.certbuildutils import build_certificate
    from resources import prepareutils
    k = zoo.stored("ecdsa")
    for i in range(12):
        subject = ",".join(rng.sample(["CN=" + zoo.rnd_cn(rng, ""), "O=Org 1", "C=DE", "OU=x", "L=M"], rng.randrange(1, 5)))
        if "CN=" not in subject:
            subject += ",CN=q" + str(i)
        cert, _ = build_certificate(k, subject)
        for issuer in (True, False):
            out = certbuildutils.modify_common_name_cert(cert, issuer=issuer)
            nm = prepareutils.prepare_name(out)
            g.differ("modify_common_name_cert", issuer, "identifier", enc(nm), enc(cert["tbsCertificate"]["issuer" if issuer else "subject"]))
            g.same("modify_common_name_cert", "attributes", len(nm["rdnSequence"]), len(cert["tbsCertificate"]["subject"]["rdnSequence"]))


# -- message protection --------------------------------------------------------------------------------
def job_prot(rec, kind, n):
    from pq_logic.pq_verify_logic import verify_hybrid_pkimessage_protection
    from checks import p01
    from resources import cmputils
    from resources import protectionutils as pu
    from resources.cryptoutils import perform_ecdh
    from vlib import tlv, zoo
    from vlib.ca import der, parse
    rng = rec.rng
    g = G(rec)

    def body(cert, key):
        return zoo.body_message(rng.choice([b for b in zoo.BODIES if b != "nested"]), rng, cert, key)

    def both(gen, what, protect, verify, det=False):
        """protect(message, bad) on equal messages."""
        raw = der(make())
        good, bad = der(protect(parse(raw), False)), der(protect(parse(raw), True))
        art = dict(right=good, wrong=bad)
        g.good(gen, what, lambda: verify(parse(good)), **art)
        g.bad(gen, what, "protection", lambda: verify(parse(bad)), **art)
        a, b = tlv.parse(good), tlv.parse(bad)
        g.same(gen, what + " body", tlv.dump(a.kids[1]), tlv.dump(b.kids[1]), **art)
        rec.check(len(b.kids) == len(a.kids), "more-changed:" + gen, f"{gen} {what}: fields {len(a.kids)} {len(b.kids)}", **art)

        def header(t):
            return [tlv.dump(x) for x in t.kids[0].kids if x.tag not in (b"\xa1", b"\xa0", b"\xa8")]
        g.same(gen, what + " header", header(a), header(b), **art)
        # in place
        m = pu.modify_pkimessage_protection(parse(good))
        raw2 = der(m)
        only(g, "modify_pkimessage_protection", what, good, raw2, [2])
        g.bad("modify_pkimessage_protection", what, "protection", lambda: verify(parse(raw2)), wrong=raw2)

    key = zoo.generate_key("ec")
    cert, _ = zoo.build_certificate(key, "CN=x", include_ski=True)

    def make():
        return body(cert, key)
    if kind == "mac":
        for name, alg, params in p01.MACS:
            size = {"aes128_gmac": 16, "aes192_gmac": 24, "aes256_gmac": 32}.get(alg)
            for _ in range(n):
                pw = rb(rng, (size or rng.randrange(8, 40)) - 1) + b"k"
                pw = pw * 4 if alg == "kmac" else pw
                both("mac", name, lambda m, bad: pu.protect_pkimessage(m, alg, password=pw, bad_message_check=bad, **params),
                     lambda m: pu.verify_pkimessage_protection(m, password=pw))
    elif kind == "sig":
        for name, spec, alg, params in p01.SIGS:
            k = p01._key(spec)
            c, _ = zoo.build_certificate(k, "CN=signer", include_ski=True)
            for _ in range(max(2, n // 4) if "ml-dsa" in name else n):
                both("signature", name, lambda m, bad: pu.protect_pkimessage(m, alg, private_key=k, cert=c, bad_message_check=bad, **params),
                     pu.verify_pkimessage_protection)
    elif kind == "hybrid":
        for name, spec in p01.HYBRID:
            k = zoo.named(spec)
            c, _ = zoo.build_certificate(k, "CN=signer", include_ski=True)
            for _ in range(max(2, n // 3)):
                both("composite", name, lambda m, bad: cmputils.patch_extra_certs(pu.protect_hybrid_pkimessage(
                    m, k, protection="composite", cert=c, exclude_certs=True, use_rsa_pss="pss" in spec, bad_message_check=bad), [c]),
                    verify_hybrid_pkimessage_protection)
        for k, alt in ((zoo.stored("ecdsa"), zoo.stored("ml-dsa-44")), (zoo.stored("rsa"), zoo.stored("ml-dsa-65"))):
            c, _ = zoo.build_certificate(k, "CN=signer", include_ski=True)
            for _ in range(max(2, n // 3)):
                both("catalyst", type(k).__name__, lambda m, bad: cmputils.patch_extra_certs(pu.protect_hybrid_pkimessage(
                    m, k, protection="catalyst", cert=c, exclude_certs=True, alt_signing_key=alt, include_alt_pub_key=True, bad_message_check=bad), [c]),
                    lambda m: verify_hybrid_pkimessage_protection(m, must_be_catalyst_signed=True))
    else:
        for name, spec in p01.DH:
            a, b = p01._key(spec), p01._key(spec)
            for _ in range(n):
                both("dh", name, lambda m, bad: pu.protect_pkimessage(m, "dh", private_key=a, peer=b.public_key(), exclude_certs=True, do_patch=False,
                                                                     mac_alg="hmac", hash_alg="sha256", bad_message_check=bad),
                     lambda m: pu.verify_pkimessage_protection(m, shared_secret=perform_ecdh(b, a.public_key())))
        for kdf in ("kdf3", "kdf2", "hkdf", "pbkdf2"):
            for _ in range(n):
                ss = rb(rng, 32)
                both("kem", kdf, lambda m, bad: pu.protect_pkimessage_kem_based_mac(m, shared_secret=ss, kdf=kdf, bad_message_check=bad),
                     lambda m: pu.verify_pkimessage_protection(m, shared_secret=ss))


SIGN = ["rsa", "ecdsa", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "slh-dsa-sha2-128f", "hss", "composite-sig-ml-dsa-44-ecdsa-secp256r1",
        "composite-sig-ml-dsa-65-ed25519", "composite-sig-ml-dsa-44-rsa2048"]


def sign_keys(algs):
    from vlib import zoo
    return [(a, zoo.named(a)) for a in algs]


def rounds(a, n):
    return 2 if a.startswith(("slh", "composite", "ml-dsa")) else n


# -- proof of possession -------------------------------------------------------------------------------
def job_pop(rec, algs, n):
    from pyasn1_alt_modules import rfc6402
    from resources import ca_ra_utils, certbuildutils, certutils, cmputils, cryptoutils, extra_issuing_logic, protectionutils
    from resources.keyutils import generate_key
    from vlib import zoo
    from vlib.ca import der, parse
    from pyasn1.codec.der import decoder
    rng = rec.rng
    g = G(rec)
    for a, k in sign_keys(algs):
        for _ in range(rounds(a, n)):
            cn = zoo.rnd_cn(rng)
            tx = rb(rng, 16)
            for build in (cmputils.build_ir_from_key, cmputils.build_cr_from_key):
                rs = [der(build(k, common_name=cn, sender="CN=a", recipient="CN=b", transaction_id=tx, sender_nonce=tx, bad_pop=bad,
                                exclude_fields="messageTime")) for bad in (False, True)]
                gen = build.__name__
                g.good(gen, a, lambda: ca_ra_utils.verify_sig_pop_for_pki_request(parse(rs[0])), right=rs[0])
                g.bad(gen, a, "pop", lambda: ca_ra_utils.verify_sig_pop_for_pki_request(parse(rs[1])), wrong=rs[1])
                only(g, gen, a, rs[0], rs[1], [1, 0, 0, 1, 1])
            rs = [der(cmputils.build_p10cr_from_key(k, common_name=cn, sender="CN=a", recipient="CN=b", transaction_id=tx, bad_pop=bad,
                                                    **({} if a in ("rsa", "ecdsa") else {"hash_alg": None}))) for bad in (False, True)]

            def p10(raw):
                certutils.verify_csr_signature(parse(raw)["body"]["p10cr"])
            g.good("build_p10cr_from_key", a, lambda: p10(rs[0]), right=rs[0])
            g.bad("build_p10cr_from_key", a, "pop", lambda: p10(rs[1]), wrong=rs[1])
            # certificate signing requests
            kw = dict(hash_alg="sha256") if a in ("rsa", "ecdsa") else dict(hash_alg=None)
            rs = [enc(certbuildutils.build_csr(k, cn, bad_pop=bad, **kw)) for bad in (False, True)]

            def csr(raw):
                c, rest = decoder.decode(raw, rfc6402.CertificationRequest())
                assert not rest
                certutils.verify_csr_signature(c)
            g.good("build_csr", a, lambda: csr(rs[0]), right=rs[0])
            g.bad("build_csr", a, "pop", lambda: csr(rs[1]), wrong=rs[1])
            only(g, "build_csr", a, rs[0], rs[1], [2])
            if a in ("rsa", "ecdsa", "ed25519"):
                rs = [enc(certbuildutils.sign_csr(decoder.decode(enc(certbuildutils.build_csr(k, cn, **kw)), rfc6402.CertificationRequest())[0],
                                                  k, bad_pop=bad, **kw)) for bad in (False, True)]
                g.good("sign_csr", a, lambda: csr(rs[0]), right=rs[0])
                g.bad("sign_csr", a, "pop", lambda: csr(rs[1]), wrong=rs[1])
    # MACs over a Diffie-Hellman secret
    if "ecdsa" in algs:
        for curve in (("ec", "secp256r1"), ("x25519", None), ("x448", None)):
            kk = lambda: generate_key(curve[0], **({"curve": curve[1]} if curve[1] else {}))  # noqa
            for mac in ("password_based_mac", "hmac", "pbmac1"):
                for _ in range(n // 2):
                    ck, ek = kk(), kk()
                    msg = cmputils.prepare_cert_req_msg(ek, zoo.rnd_cn(rng))
                    ss = cryptoutils.perform_ecdh(ek, ck.public_key())
                    raw = enc(msg["certReq"])
                    for gen, make in (
                        ("prepare_key_agreement_popo", lambda bad: extra_issuing_logic.prepare_key_agreement_popo(
                            shared_secret=ss, cert_request=msg["certReq"], mac_alg=mac, bad_pop=bad)),
                        ("prepare_pkmac_popo", lambda bad: extra_issuing_logic.prepare_pkmac_popo(
                            cert_request=msg["certReq"], shared_secret=ss, mac_alg=mac, bad_pop=bad, iterations=1000))):
                        for bad in (False, True):
                            p = make(bad)
                            v = p["keyAgreement"]["agreeMAC"]
                            want = protectionutils.compute_mac_from_alg_id(key=ss, alg_id=v["algId"], data=raw)
                            rec.ev(gen, curve[0], mac, bad, counter="pop")
                            g.name(gen)
                            got = v["value"].asOctets()
                            rec.check((got != want) == bad and len(got) == len(want), ("valid:" if bad else "good:") + gen, f"{gen} {mac} bad={bad}: MAC "
                                      + ("right" if got == want else "wrong"), popo=enc(p))


# -- certificates --------------------------------------------------------------------------------------
def job_certs(rec, algs, n):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc5280, rfc9480
    from pq_logic.hybrid_sig import catalyst_logic, cert_binding_for_multi_auth as multi
    from pq_logic.pq_verify_logic import verify_crl_signature
    from resources import ca_ra_utils, certbuildutils, certutils
    from vlib import zoo
    from vlib.ca import parse  # noqa
    rng = rec.rng
    g = G(rec)

    def copy(c):
        return decoder.decode(enc(c), rfc9480.CMPCertificate())[0]
    ee = zoo.stored("ecdsa")
    for a, k in sign_keys(algs):
        h = "sha256" if a in ("rsa", "ecdsa") else None
        ca_cert, _ = certbuildutils.build_certificate(k, "CN=ca " + a[:20], is_ca=True, include_ski=True, **({} if h else {"hash_alg": None}))
        for _ in range(rounds(a, n)):
            for pss in ((False, True) if a == "rsa" else (False,)):
                cert, _ = certbuildutils.build_certificate(ee, zoo.rnd_cn(rng), ca_key=k, ca_cert=ca_cert, use_rsa_pss=pss, **({} if h else {"hash_alg": None}))
                rs = [enc(certbuildutils.sign_cert(k, copy(cert), hash_alg=h, use_rsa_pss=pss, bad_sig=bad)) for bad in (False, True)]

                def check(raw):
                    c, _ = decoder.decode(raw, rfc9480.CMPCertificate())
                    certutils.verify_cert_signature(c, issuer_pub_key=k.public_key())
                g.good("sign_cert", a, lambda: check(rs[0]), right=rs[0])
                g.bad("sign_cert", a, "certificate", lambda: check(rs[1]), wrong=rs[1])
                only(g, "sign_cert", a, rs[0], rs[1], [2])
                bad, _ = certbuildutils.build_certificate(ee, zoo.rnd_cn(rng), ca_key=k, ca_cert=ca_cert, use_rsa_pss=pss, bad_sig=True,
                                                          **({} if h else {"hash_alg": None}))
                g.bad("build_certificate", a, "certificate", lambda: check(enc(bad)), wrong=enc(bad))
        if a in ("rsa", "ecdsa", "ed25519", "ed448"):
            # certificate of an issuer that is updated
            old, _ = certbuildutils.build_certificate(k, "CN=old ca", is_ca=True, include_ski=True, **({} if h else {"hash_alg": None}))
            new_key = zoo.stored(rng.choice(["ecdsa", "rsa", "ed25519"]))
            for flags in ({}, {"bad_sig": True}, {"bad_sig_old": True}, {"bad_sig_new": True}, {"bad_sig_old": True, "bad_sig_new": True}):
                v = ca_ra_utils.prepare_new_root_ca_certificate(copy(old), k, new_key, use_rsa_pss=rng.random() < 0.5, **flags)
                v = decoder.decode(enc(v), rfc9480.RootCaKeyUpdateValue())[0]
                for field, flag, issuer in (("newWithNew", "bad_sig", new_key), ("newWithOld", "bad_sig_new", k), ("oldWithNew", "bad_sig_old", new_key)):
                    raw = untagged(v[field])

                    def check(raw=raw, issuer=issuer):
                        c, _ = decoder.decode(raw, rfc9480.CMPCertificate())
                        certutils.verify_cert_signature(c, issuer_pub_key=issuer.public_key())
                    gen = "prepare_new_root_ca_certificate"
                    if flags.get(flag):
                        g.bad(gen, field + a, "certificate", check, wrong=raw)
                    else:
                        g.good(gen, field + a, check, right=raw)
            # catalyst
            pq = zoo.stored("ml-dsa-44")
            cert, _ = certbuildutils.build_certificate(ee, zoo.rnd_cn(rng), ca_key=k, ca_cert=ca_cert, **({} if h else {"hash_alg": None}))
            if a in ("rsa", "ecdsa"):
                for _ in range(2):
                    for bad in (False, True):
                        c = catalyst_logic.sign_cert_catalyst(copy(cert), pq_key=pq, trad_key=k, bad_alt_sig=bad, use_rsa_pss=False)
                        c = copy(c)
                        verify = lambda: catalyst_logic.verify_catalyst_signature(c, issuer_pub_key=k.public_key())  # noqa
                        g.good("sign_cert_catalyst", "primary" + a, lambda: certutils.verify_cert_signature(c, issuer_pub_key=k.public_key()), cert=enc(c))
                        if bad:
                            g.bad("sign_cert_catalyst", a, "certificate", verify, wrong=enc(c))
                        else:
                            g.good("sign_cert_catalyst", a, verify, right=enc(c))
            # lists
            if a in ("rsa", "ecdsa"):
                for f in ({}, {"bad_sig": True}, {"bad_alt_sig": True}, {"bad_sig": True, "bad_alt_sig": True}):
                    c = decoder.decode(make_crl(k), rfc5280.CertificateList())[0]
                    c = catalyst_logic.sign_crl_catalyst(c, k, alt_private_key=pq, include_alt_public_key=True, **f)
                    raw = enc(c)
                    verify = lambda: verify_crl_signature(decoder.decode(raw, rfc5280.CertificateList())[0], ca_cert, alt_public_key=pq.public_key(),  # noqa
                                                          must_be_catalyst_signed=True)
                    if f:
                        g.bad("sign_crl_catalyst", str(sorted(f)), "certificate", verify, wrong=raw)
                    else:
                        g.good("sign_crl_catalyst", a, verify, right=raw)
            # related certificates
            for f in ({}, {"bad_pop": True}, {"invalid_serial_number": True}, {"invalid_issuer": True}):
                own, _ = certbuildutils.build_certificate(k, zoo.rnd_cn(rng), include_ski=True, **({} if h else {"hash_alg": None}))
                r = multi.prepare_requester_certificate(copy(own), k, "data:x", hash_alg="sha256" if a != "ed448" else "sha512", **f)
                gen = "prepare_requester_certificate"
                data = multi._prepare_related_data_to_sign(r)
                from resources import cryptoutils
                verify = lambda: cryptoutils.verify_signature(public_key=k.public_key(), signature=r["signature"].asOctets(), data=data,  # noqa
                                                              hash_alg="sha256" if a != "ed448" else "sha512")
                right = (int(own["tbsCertificate"]["serialNumber"]), enc(own["tbsCertificate"]["issuer"]))
                got = (int(r["certID"]["serialNumber"]), enc(r["certID"]["issuer"]))
                (g.bad(gen, "pop" + a, "certificate", verify) if f.get("bad_pop") else g.good(gen, "pop" + a, verify))
                rec.check((got[0] != right[0]) == bool(f.get("invalid_serial_number")), "serial:" + gen, f"{gen} {f}: serial number {got[0]} for {right[0]}")
                rec.check((got[1] != right[1]) == bool(f.get("invalid_issuer")), "issuer:" + gen, f"{gen} {f}: issuer", got=got[1], right=right[1])


def make_crl(key, at=None, form="DER"):
    from datetime import datetime, timedelta, timezone
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.serialization import Encoding
    at = at or datetime.now(timezone.utc)
    b = x509.CertificateRevocationListBuilder(x509.Name.from_rfc4514_string("CN=ca"), at, at + timedelta(days=30))
    b = b.add_revoked_certificate(x509.RevokedCertificateBuilder(5, at).build())
    b = b.add_extension(x509.CRLNumber(3), False)
    return b.sign(key, hashes.SHA256()).public_bytes(Encoding[form])


def untagged(v):
    from vlib import tlv
    t = tlv.parse(enc(v))
    return tlv.dump(t if t.tag == b"\x30" else t.kids[0])


# -- CMS -----------------------------------------------------------------------------------------------
def job_cms(rec, n):
    from checks import p18
    from resources import ca_kga_logic, certextractutils, envdatautils
    from vlib import zoo
    rng = rec.rng
    g = G(rec)
    ca = p18.Ca(rng)
    trusted = p18.anchors("p24", [ca.cert])
    for a in ("rsa", "ecdsa", "ed25519", "ml-dsa-44"):
        k = zoo.named(a)
        cert = ca.issue(k, ski=True, **p18.kga_opts())
        for _ in range(max(2, n // 4)):
            new = p18.ec_key("secp256r1")
            rs = [enc(envdatautils.prepare_signed_data(k, cert, sig_hash_name=None, private_keys=new, cert_chain=[cert, ca.cert], bad_sig=bad)) for bad in (False, True)]
            read = lambda raw: ca_kga_logic.validate_signed_data_structure(p18.parse_signed(raw), trustanchors=trusted)  # noqa
            g.good("prepare_signed_data", a, lambda: read(rs[0]), right=rs[0])
            g.bad("prepare_signed_data", a, "cms", lambda: read(rs[1]), wrong=rs[1])
    # key encryption under a password
    for _ in range(n):
        cek, pw = rb(rng, rng.choice([16, 24, 32])), zoo.rnd_cn(rng, "")
        data, size = rb(rng, 50), rng.choice([16, 24, 32])
        salt = rb(rng, 16)
        rs = []
        for bad in (False, True):
            info = envdatautils.prepare_password_recipient_info(pw, cek=cek, salt=salt, key_length=size, bad_encrypted_key=bad, iterations=1000)
            rs.append(p18.suite_envelope(rng, [envdatautils.parse_recip_info(info)], cek, data, True))

        def opened(raw):
            out = ca_kga_logic.validate_enveloped_data(p18.dec(raw), password=pw, cmp_protection_salt=rb(rng, 16), expected_raw_data=True)
            assert out == data, "other content"
        gen = "prepare_password_recipient_info"
        g.good(gen, len(cek), lambda: opened(rs[0]), right=rs[0])
        g.bad(gen, len(cek), "cms", lambda: opened(rs[1]), wrong=rs[1])
    # identifiers of recipients
    for _ in range(n):
        k = p18.ec_key("secp256r1")
        cert = ca.issue(k, ski=True)
        ski = certextractutils.get_field_from_certificate(cert, extension="ski")
        rid = [envdatautils.prepare_recipient_identifier(cert=cert, bad_ski=b) for b in (False, True)]
        rec.check(rid[0]["subjectKeyIdentifier"].asOctets() == ski, "good:prepare_recipient_identifier", "not the SKI of the certificate")
        g.differ("prepare_recipient_identifier", 0, "cms", enc(rid[0]), enc(rid[1]))
        g.same("prepare_recipient_identifier", "length", len(enc(rid[0])), len(enc(rid[1])))
        rid = [envdatautils.prepare_recipient_identifier(key=k, bad_ski=b) for b in (False, True)]
        g.differ("prepare_recipient_identifier key", 0, "cms", enc(rid[0]), enc(rid[1]))
        s = rb(rng, 20)
        rid = [envdatautils.prepare_recipient_identifier(ski=s, bad_ski=b) for b in (False, True)]
        g.differ("prepare_recipient_identifier ski", 0, "cms", enc(rid[0]), enc(rid[1]))
        o = [enc(envdatautils.prepare_originator_identifier_or_key(cert, invalid_ski=b)) for b in (False, True)]
        g.differ("prepare_originator_identifier_or_key", 0, "cms", *o)
        rec.check(ski in o[0] and ski not in o[1], "good:prepare_originator_identifier_or_key", "SKI")
        o = [enc(envdatautils._prepare_key_agree_rid(cert, bad_ski=b)) for b in (False, True)]
        g.differ("_prepare_key_agree_rid", 0, "cms", *o)
        rec.check(ski in o[0] and ski not in o[1], "good:_prepare_key_agree_rid", "SKI")
        o = [list(envdatautils.prepare_recipient_encrypted_keys(cert, b"x" * 24, negative_size=b)) for b in (False, True)]
        rec.check(len(o[0]) == 1 and len(o[1]) == 2, "good:prepare_recipient_encrypted_keys", f"{len(o[0])} and {len(o[1])} keys")


# -- identifiers, extensions, names ---------------------------------------------------------------------
def job_ids(rec, n):
    import hashlib
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc5280
    from resources import certbuildutils, certutils, checkutils, cmputils, general_msg_utils, prepareutils, utils  # noqa
    from vlib import tlv, zoo
    from vlib.ca import der, parse
    rng = rec.rng
    g = G(rec)
    keys = [zoo.stored(x) for x in ("rsa", "ecdsa", "ed25519", "ml-dsa-44")] + [zoo.named("x25519"), zoo.named("ml-kem-512")]

    def ext(e):
        return str(e["extnID"]), bool(e["critical"]), e["extnValue"].asOctets()

    def dec_ok(raw, spec):
        _, rest = decoder.decode(raw, asn1Spec=spec)
        if rest:
            raise ValueError("rest")
    for i in range(n):
        k = rng.choice(keys + [zoo.generate_key("ec"), zoo.generate_key("ed25519")])
        crit = rng.random() < 0.5
        a, b = [ext(certbuildutils.prepare_ski_extension(k, critical=crit, invalid_ski=x)) for x in (False, True)]
        g.differ("prepare_ski_extension", type(k).__name__, "identifier", a[2], b[2])
        g.same("prepare_ski_extension", "rest", a[:2] + (a[2][:2],), b[:2] + (b[2][:2],))
        pub = k.public_key()
        if type(k).__name__ not in ("X25519PrivateKey",) and i % 2:
            a, b = [ext(certbuildutils.prepare_authority_key_identifier_extension(pub, critical=crit, invalid_key_id=x)) for x in (False, True)]
            g.differ("prepare_authority_key_identifier_extension", type(k).__name__, "identifier", a[2], b[2])
            g.same("prepare_authority_key_identifier_extension", "rest", a[:2] + (len(a[2]),), b[:2] + (len(b[2]),))
        ku = rng.choice(["digitalSignature", "keyAgreement,keyEncipherment", "keyCertSign, cRLSign"])
        a, b = [ext(certbuildutils.prepare_key_usage_extension(ku, critical=crit, invalid_data=x)) for x in (False, True)]
        g.good("prepare_key_usage_extension", ku, lambda: dec_ok(a[2], rfc5280.KeyUsage()))
        g.bad("prepare_key_usage_extension", ku, "identifier", lambda: dec_ok(b[2], rfc5280.KeyUsage()), value=b[2])
        g.same("prepare_key_usage_extension", "rest", a[:2], b[:2])
        a, b = [ext(certbuildutils.prepare_ocsp_nocheck_extension(critical=crit, invalid_data=x)) for x in (False, True)]
        rec.check(a[2] == b"\x05\x00", "good:prepare_ocsp_nocheck_extension", "not NULL")
        g.differ("prepare_ocsp_nocheck_extension", crit, "identifier", a[2], b[2])
        g.same("prepare_ocsp_nocheck_extension", "rest", a[:2], b[:2])
        for gen, make in (("ski", lambda t: certbuildutils.prepare_ski_extension(k, add_trailing_data=t)),
                          ("ku", lambda t: certbuildutils.prepare_key_usage_extension(ku, add_trailing_data=t)),
                          ("bc", lambda t: certbuildutils.prepare_basic_constraints_extension(True, 1, add_trailing_data=t)),
                          ("nocheck", lambda t: certbuildutils.prepare_ocsp_nocheck_extension(add_trailing_data=t))):
            a, b = [ext(make(t)) for t in (False, True)]
            rec.check(len(tlv.dump(tlv.parse(a[2]))) == len(a[2]), "good:trailing", gen)
            e = refused(lambda: tlv.parse(b[2]))
            g.name("trailing " + gen)
            rec.ev("trailing", gen, counter="identifier")
            rec.check(e is not None or b[2] != a[2] and not b[2] == tlv.dump(tlv.parse(b[2])), "valid:trailing", f"{gen}: no trailing data", value=b[2])
            rec.check(b[2].startswith(a[2]) and len(b[2]) > len(a[2]), "more-changed:trailing", f"{gen}: {a[2].hex()} {b[2].hex()}")
        # serial numbers and issuers
        issuer = zoo.generate_key("ec")
        ica, _ = certbuildutils.build_certificate(issuer, zoo.rnd_cn(rng) + rng.choice(["", ",O=x", ",C=DE,OU=y"]), is_ca=True, include_ski=True)
        cert, _ = certbuildutils.build_certificate(zoo.stored("ecdsa"), zoo.rnd_cn(rng), ca_key=issuer, ca_cert=ica,
                                                   serial_number=rng.choice([1, 127, 128, 255, 2**31, rng.getrandbits(140), 2**158 - 1]), include_ski=True)
        right = int(cert["tbsCertificate"]["serialNumber"]), enc(cert["tbsCertificate"]["issuer"])
        for s in (False, True):
            for u in (False, True):
                v = certbuildutils.prepare_issuer_and_serial_number(cert, modify_serial_number=s, modify_issuer=u)
                gen = "prepare_issuer_and_serial_number"
                rec.ev(gen, s, u, counter="identifier")
                g.name(gen)
                rec.check((int(v["serialNumber"]) != right[0]) == s, "serial:" + gen, f"serial number with modify_serial_number={s}")
                rec.check((enc(v["issuer"]) != right[1]) == u, "issuer:" + gen, f"issuer with modify_issuer={u}", got=enc(v["issuer"]), right=right[1])
                tlv.parse(enc(v))
                v = cmputils.prepare_old_cert_id_control(cert, inc_serial_number=s, bad_issuer=u)
                gen = "prepare_old_cert_id_control"
                rec.ev(gen, s, u, counter="identifier")
                g.name(gen)
                val = v["value"]
                rec.check((int(val["serialNumber"]) != right[0]) == s, "serial:" + gen, f"serial number with inc_serial_number={s}")
                same = enc(val["issuer"]["directoryName"]["rdnSequence"]) == enc(cert["tbsCertificate"]["issuer"]["rdnSequence"])
                rec.check(same != u, "issuer:" + gen, f"issuer with bad_issuer={u}", got=enc(val["issuer"]), right=right[1])
        # confirmations
        h = rng.choice(["sha256", "sha384", "sha512", None])
        a, b = [cmputils.prepare_certstatus(cert=cert, hash_alg=h, bad_cert_id=x) for x in (False, True)]
        want = hashlib.new(h or "sha256", enc(cert)).digest()
        gen = "prepare_certstatus"
        rec.check(a["certHash"].asOctets() == want, "good:" + gen, "not the hash of the certificate")
        g.differ(gen, h, "identifier", b["certHash"].asOctets(), want)
        g.same(gen, "length", len(b["certHash"].asOctets()), len(want))
        d = cmputils.prepare_certstatus(cert=cert, different_hash=True)
        g.differ(gen + " different hash", 0, "identifier", d["certHash"].asOctets(), hashlib.sha256(enc(cert)).digest())
        rec.check(d["hashAlg"].isValue and d["certHash"].asOctets() == hashlib.sha512(enc(cert)).digest(), "good:different_hash", "not the hash of the named algorithm")
        # sender key identifiers
        m = zoo.body_message("ir", rng, cert, zoo.stored("ecdsa"), sender="CN=" + zoo.rnd_cn(rng, ""), for_mac=True)
        raw = der(m)
        a, b = [der(cmputils.patch_senderkid(parse(raw), for_mac=True, negative=x)) for x in (False, True)]
        ka, kb = [parse(x)["header"]["senderKID"].asOctets() for x in (a, b)]
        g.differ("patch_senderkid mac", 0, "identifier", ka, kb)
        g.same("patch_senderkid mac", "length", len(ka), len(kb))
        kid = rb(rng, rng.choice([1, 20, 32]))
        a, b = [der(cmputils.patch_senderkid(parse(raw), kid, negative=x)) for x in (False, True)]
        ka, kb = [parse(x)["header"]["senderKID"].asOctets() for x in (a, b)]
        rec.check(ka == kid, "good:patch_senderkid", "not the given identifier")
        g.differ("patch_senderkid", kid[0] == 0, "identifier", ka, kb)
        for x in (a, b):
            rec.check(strip_kid(x) == strip_kid(raw), "more-changed:patch_senderkid", "another field is different", right=raw, wrong=x)
        # revocation reasons
        x = cmputils.prepare_crl_reason_extensions(invalid_reason=True)
        v = x[0]["extnValue"].asOctets()
        g.name("prepare_crl_reason_extensions")
        rec.ev("crl reason", counter="identifier")
        t = tlv.parse(v)
        rec.check(t.tag == b"\x0a" and int.from_bytes(t.val, "big") not in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10), "valid:crl_reason", f"{v.hex()} is a reason")
        x = cmputils.prepare_crl_reason_extensions(invalid_der=True)
        g.bad("prepare_crl_reason_extensions der", 0, "identifier", lambda: dec_ok(x[0]["extnValue"].asOctets(), rfc5280.CRLReason()))
        x = cmputils.prepare_crl_reason_extensions(reasons="keyCompromise", add_bytes=True)
        g.bad("prepare_crl_reason_extensions bytes", 0, "identifier", lambda: dec_ok(x[0]["extnValue"].asOctets(), rfc5280.CRLReason()))
        # names with wrong sizes
        attr = rng.choice(["CN", "O", "OU", "L", "ST", "serialNumber", "C", "emailAddress", "T", "GN", "SN"])
        value = {"C": "DE", "emailAddress": "a@b.example"}.get(attr, "value")
        for f in ({}, {"bad_min_size": True}, {"bad_max_size": True}, {"add_trailing_data": True}, {"invalid_type": True}):
            gen = "prepare_relative_distinguished_name " + "".join(f)
            try:
                r = prepareutils.prepare_relative_distinguished_name(f"{attr}={value}", **f)
                raw = enc(r)
            except Exception as e:  # noqa - names the suite does not know
                rec.count(f"name {attr} {''.join(f)} {type(e).__name__}")
                continue
            if f.get("add_trailing_data"):
                e = refused(lambda: tlv.parse(raw).kids[0].kids[2])
                rec.check(e is not None and type(e).__name__ != "IndexError", "valid:" + gen, f"{attr}: no trailing data", name=raw)
                rec.ev(gen, attr, counter="identifier")
                continue
            t = tlv.parse(raw).kids[0]
            rec.ev(gen, attr, counter="identifier")
            g.name(gen)
            val = t.kids[1]
            top = {"CN": 64, "O": 64, "OU": 64, "L": 128, "ST": 128, "serialNumber": 64, "C": 2, "emailAddress": 255, "T": 64, "SN": 64}.get(attr, 32768)
            low = 2 if attr == "C" else 1
            ln = len(val.val)
            if f.get("bad_min_size"):
                rec.check(ln < low, "valid:" + gen, f"{attr}: {ln} characters", name=raw)
            elif f.get("bad_max_size"):
                rec.check(ln > top, "valid:" + gen, f"{attr}: {ln} characters", name=raw)
            elif not f:
                rec.check(val.val == value.encode(), "good:name", f"{attr}: {val.val!r}", name=raw)
        # CRL retrieval with a future date, values where none may be
        for names in ("get_ca_certs", "get_cert_template"):
            a, b = [der(general_msg_utils.build_cmp_general_message(add_messages=names, negative=x, sender="CN=a", recipient="CN=b")) for x in (False, True)]
            ia, ib = [tlv.parse(x).kids[1].kids[0].kids[0] for x in (a, b)]
            rec.ev("genm", names, counter="identifier")
            g.name("genm " + names)
            rec.check(len(ia.kids) == 1 and len(ib.kids) == 2 and tlv.dump(ia.kids[0]) == tlv.dump(ib.kids[0]), "valid:genm", f"{names}: {len(ia.kids)} {len(ib.kids)}", wrong=b)


def strip_kid(raw):
    from vlib import tlv
    t = tlv.parse(raw)
    t.kids[0].kids = [x for x in t.kids[0].kids if x.tag != b"\xa2"]
    return tlv.dump(t)


# -- keys ----------------------------------------------------------------------------------------------
KEYS = ["rsa", "ecdsa", "ed25519", "ed448", "x25519", "x448", "ml-dsa-44", "ml-dsa-65", "ml-kem-512", "ml-kem-768", "slh-dsa-sha2-128f", "hss",
        "composite-sig-ml-dsa-44-ecdsa-secp256r1", "composite-kem-ml-kem-768-x25519", "xwing"]


def job_keys(rec, algs, n):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc5280, rfc5958
    from resources import ca_kga_logic, ca_ra_utils, keyutils
    from vlib import tlv, zoo
    rng = rec.rng
    g = G(rec)

    def open_(raw):
        k, rest = decoder.decode(raw, rfc5958.OneAsymmetricKey())
        assert not rest
        p = rfc5958.AsymmetricKeyPackage()
        p.append(k)
        return ca_kga_logic.validate_asymmetric_key_package(p)

    for a in algs:
        k = zoo.named(a)
        for _ in range(2 if a.startswith(("slh", "comp", "frodo")) else n):
            if a not in ("rsa",) and not a.startswith(("slh", "hss")):
                k = zoo.named(a) if a not in zoo.STORED or a != "ecdsa" else zoo.generate_key("ec")
            save = rng.choice(["raw", "seed", "seed_and_raw"]) if not a.startswith("composite") else "seed"
            good = None
            for op in (None, "invalid_version_v1", "invalid_public_key_size", "invalid_key_pair", "invalid_private_key_size", "invalid_version"):
                gen = f"kga {op}"
                try:
                    raw = enc(ca_ra_utils.prepare_invalid_kga_private_key(op, k, key_save_type=save))
                except (NotImplementedError, ValueError) as e:
                    rec.count(f"not made: {a} {op} {type(e).__name__}")
                    rec.check(op is not None, "good:kga", f"{a}: {e!r:.200}")
                    continue
                if op is None:
                    good = raw
                    g.good("kga", a, lambda: open_(raw), key=raw)
                    continue
                g.bad(gen, f"{a} {save}", "key", lambda: open_(raw), wrong=raw)
                ta, tb = tlv.parse(good), tlv.parse(raw)
                part = {"invalid_version_v1": [0], "invalid_version": [0], "invalid_public_key_size": None, "invalid_key_pair": None, "invalid_private_key_size": [2]}[op]
                for i in (0, 1, 2):
                    if part != [i] and not (op == "invalid_public_key_size" and i == 0):
                        x, y = tlv.dump(ta.kids[i]), tlv.dump(tb.kids[i])
                        if a == "ecdsa" and i == 2 or a in ("rsa",) and i == 1:
                            continue
                        g.same(gen, f"{a} field {i}", x, y)
            for f in ({"invalid_private_key": True}, {"mis_matching_key": True}, {"invalid_priv_key_size": True}, {"invalid_pub_key_size": True}):
                try:
                    raw = enc(keyutils.prepare_one_asymmetric_key(k, key_save_type=save, **f))
                except (NotImplementedError, ValueError) as e:
                    rec.count(f"not made: {a} {sorted(f)} {type(e).__name__}")
                    rec.check("invalid_private_key" in f and not a.startswith(("rsa", "ecdsa", "ml-")), "not-made:prepare_one_asymmetric_key", f"{a} {f}: {e!r:.200}")
                    continue
                g.bad("prepare_one_asymmetric_key " + "".join(f), f"{a} {save}", "key", lambda: open_(raw), wrong=raw)
            # public keys
            ra, rb_ = [enc(keyutils.prepare_subject_public_key_info(k, invalid_key_size=x)) for x in (False, True)]

            def load(raw):
                s, rest = decoder.decode(raw, rfc5280.SubjectPublicKeyInfo())
                assert not rest
                return keyutils.load_public_key_from_spki(s)
            g.good("prepare_subject_public_key_info", a, lambda: load(ra), key=ra)
            g.bad("prepare_subject_public_key_info", a, "key", lambda: load(rb_), wrong=rb_)
            only(g, "prepare_subject_public_key_info", a, ra, rb_, [1])
            for f in ("add_null", "add_params_rand_bytes"):
                if a == "rsa" and f == "add_null":
                    continue
                raw = enc(keyutils.prepare_subject_public_key_info(k, **{f: True}))
                only(g, "prepare_subject_public_key_info " + f, a, ra, raw, [0])
                rec.ev(f, a, counter="key")
            # another key
            other = keyutils.generate_different_public_key(k)
            x = enc(keyutils.prepare_subject_public_key_info(other))
            g.differ("generate_different_public_key", a, "key", x, ra)
            rec.check(a in ("rsa", "ecdsa") or tlv.dump(tlv.parse(x).kids[0]) == tlv.dump(tlv.parse(ra).kids[0]), "more-changed:generate_different_public_key",
                      f"{a}: another algorithm", right=ra, wrong=x)


# -- challenges and ciphertexts --------------------------------------------------------------------------
def job_challenge(rec, n):
    import hashlib
    from resources import ca_ra_utils, general_msg_utils
    from vlib import zoo
    from vlib import tlv
    rng = rec.rng
    g = G(rec)
    kem_keys = [zoo.named(x) for x in ("ml-kem-512", "ml-kem-768", "xwing", "composite-kem-ml-kem-768-x25519")]
    rsa = zoo.stored("rsa")
    ec = [zoo.generate_key("ec"), zoo.named("x25519")]
    eca = [zoo.generate_key("ec"), zoo.named("x25519")]
    for _ in range(n):
        num = rng.choice([0, 1, 255, 2**31, rng.getrandbits(32)])
        h = rng.choice(["sha256", "sha512", None])
        i = rng.randrange(3)
        for bad in (False, True):
            if i == 0:
                out = ca_ra_utils.prepare_challenge(rsa.public_key(), bad_witness=bad, hash_alg=h, rand_int=num)
            elif i == 1:
                j = rng.randrange(2)
                out = ca_ra_utils.prepare_challenge(ec[j].public_key(), ca_key=eca[j], bad_witness=bad, hash_alg=h, rand_int=num)
            else:
                out = ca_ra_utils.prepare_challenge(rng.choice(kem_keys[:3]).public_key(), bad_witness=bad, hash_alg=h, rand_int=num)
            w = out[0]["witness"].asOctets()
            want = hashlib.new(h, num.to_bytes(4, "big")).digest() if h else b""
            g.name("prepare_challenge")
            rec.ev("prepare_challenge", i, h, bad, counter="challenge")
            rec.check((w != want) == bad, ("valid:" if bad else "good:") + "prepare_challenge", f"witness {w.hex()} bad={bad} hash={h}")
    for k in kem_keys:
        for _ in range(max(2, n // 4)):
            ss, info = general_msg_utils._prepare_kem_ct_info(k.public_key())
            ss2, bad = general_msg_utils._prepare_kem_ct_info(k.public_key(), bad_ct=True)
            for s, v, b in ((ss, info, False), (ss2, bad, True)):
                if isinstance(v, bytes) or v is None:
                    s, v = v, s
                raw = enc(v)
                rec.ev("kem ct", type(k).__name__, b, counter="challenge")
                g.name("_prepare_kem_ct_info")
                t = tlv.parse(raw).kids[1]
                ct = t.kids[-1].val
                try:
                    got = k.decaps(ct)
                except Exception as e:  # noqa - refused
                    got = e
                rec.check((got != s) == b, ("valid:" if b else "good:") + "_prepare_kem_ct_info", f"{type(k).__name__} bad_ct={b}: {got!r:.80}", value=raw)
                rec.check(len(ct) == k.ct_length if hasattr(k, "ct_length") else True, "more-changed:_prepare_kem_ct_info", "length")


# -- every first byte a signature or another value can have ---------------------------------------------
def stub(first):
    """An Ed25519 key that signs with a value of which the first byte is given."""
    from cryptography.hazmat.primitives.asymmetric import ed25519
    real = ed25519.Ed25519PrivateKey.generate()

    class Key(ed25519.Ed25519PrivateKey):
        value = bytes([first]) + real.sign(b"x")[1:]

        def sign(self, data):
            return self.value

        def public_key(self):
            return real.public_key()

        def private_bytes(self, *a, **kw):
            return real.private_bytes(*a, **kw)

        def private_bytes_raw(self):
            return real.private_bytes_raw()

        def __copy__(self):
            return self

        def __deepcopy__(self, memo):
            return self
    Key.__name__ = Key.__qualname__ = "Ed25519PrivateKey"  # some tables of the suite go by the name of the class
    return Key()


def job_stub(rec, which, ways):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc9480
    from pq_logic import hybrid_issuing
    from pq_logic.hybrid_sig import catalyst_logic, chameleon_logic, cert_binding_for_multi_auth as multi
    from resources import ca_ra_utils, certbuildutils, cmputils, envdatautils
    from resources import protectionutils as pu
    from vlib import tlv, zoo
    from vlib.ca import der, parse
    rng = rec.rng
    g = G(rec)

    def copy(c):
        return decoder.decode(enc(c), rfc9480.CMPCertificate())[0]
    other = zoo.generate_key("ec")
    own, _ = certbuildutils.build_certificate(other, "CN=x", include_ski=True)
    raw = der(zoo.body_message("ir", rng, own, other))
    pq = zoo.stored("ml-dsa-44")
    hdr = dict(sender="CN=a", recipient="CN=b")
    for first in range(which, 256, ways):
        k = stub(first)
        cert = certbuildutils.build_certificate(zoo.generate_key("ed25519"), "CN=z", include_ski=True, hash_alg=None)[0]

        def bits(node):
            return node.asOctets()

        def alt(msg):
            for e in msg["certReq"]["certTemplate"]["extensions"]:
                if str(e["extnID"]) == "2.5.29.74":
                    return tlv.parse(e["extnValue"].asOctets()).val[1:]

        def chameleon(bad):
            key = zoo.generate_key("ed25519")
            delta = copy(cert)
            tbs = certbuildutils.build_certificate(key, "CN=base", include_ski=True, hash_alg=None)[0]["tbsCertificate"]
            return chameleon_logic.build_chameleon_base_certificate(delta, tbs, k, hash_alg=None, bad_sig=bad)
        gens = {
            "build_ir_from_key": lambda b: bits(cmputils.build_ir_from_key(k, common_name="CN=q", bad_pop=b, **hdr)["body"]["ir"][0]["popo"]["signature"]["signature"]),
            "build_p10cr_from_key": lambda b: bits(cmputils.build_p10cr_from_key(k, common_name="CN=q", hash_alg=None, bad_pop=b, **hdr)["body"]["p10cr"]["signature"]),
            "build_csr": lambda b: bits(certbuildutils.build_csr(k, "CN=q", hash_alg=None, bad_pop=b)["signature"]),
            "sign_csr": lambda b: bits(certbuildutils.sign_csr(certbuildutils.build_csr(other, "CN=y"), k, hash_alg=None, bad_pop=b)["signature"]),
            "prepare_cert_req_msg": lambda b: bits(cmputils.prepare_cert_req_msg(k, "CN=q", bad_pop=b)["popo"]["signature"]["signature"]),
            "sign_cert": lambda b: bits(certbuildutils.sign_cert(k, copy(own), hash_alg=None, bad_sig=b)["signature"]),
            "build_certificate": lambda b: bits(certbuildutils.build_certificate(other, "CN=x", ca_key=k, ca_cert=cert, hash_alg=None, bad_sig=b)[0]["signature"]),
            "prepare_new_ca_certificate": lambda b: bits(ca_ra_utils.prepare_new_ca_certificate(own, k, bad_sig=b)["signature"]),
            "prepare_old_with_new_cert": lambda b: bits(ca_ra_utils.prepare_old_with_new_cert(own, cert, k, bad_sig=b)["signature"]),
            "catalyst request": lambda b: bits(hybrid_issuing.prepare_catalyst_cert_req_msg_approach(k, other, bad_pop=b)["popo"]["signature"]["signature"]),
            "catalyst request alternative": lambda b: alt(hybrid_issuing.prepare_catalyst_cert_req_msg_approach(other, k, bad_alt_pop=b)),
            "prepare_requester_certificate": lambda b: bits(multi.prepare_requester_certificate(copy(cert), k, "data:x", hash_alg="sha256", bad_pop=b)["signature"]),
            "build_chameleon_base_certificate": lambda b: bits(chameleon(b)["signature"]),
            "protect_pkimessage": lambda b: bits(pu.protect_pkimessage(parse(raw), "signature", private_key=k, cert=cert, bad_message_check=b)["protection"]),
            "prepare_signed_data": lambda b: bits(envdatautils.prepare_signed_data(k, cert, sig_hash_name=None, private_keys=other, cert_chain=[cert],
                                                                                  bad_sig=b)["signerInfos"][0]["signature"]),
            "sign_cert_catalyst": lambda b: bits(catalyst_logic.sign_cert_catalyst(copy(own), pq_key=pq, trad_key=k, use_rsa_pss=False)["signature"]) if first < 8 else None,
        }
        for name, make in gens.items():
            if make is None:
                continue
            right, wrong = make(False), make(True)
            if right is None:
                continue
            g.name("first byte " + name)
            rec.ev(name, first, counter="first byte")
            rec.check(right == k.value, "good:" + name, f"{name}: not the signature of the key", got=right, expected=k.value)
            if name != "sign_cert_catalyst":
                rec.check(wrong != k.value, "valid:" + name, f"{name}: the signature that was to be wrong is the right one when it begins with {first:#04x}", value=wrong)


def job_many(rec, n):
    """Values that cannot be chosen: many draws."""
    import hashlib
    import time
    from resources import ca_ra_utils, certbuildutils, cmputils, envdatautils, general_msg_utils
    from resources import protectionutils as pu
    from vlib import tlv, zoo
    from vlib.ca import der, parse
    rng = rec.rng
    g = G(rec)
    other = zoo.generate_key("ec")
    own, _ = certbuildutils.build_certificate(other, "CN=x", include_ski=True)
    rsa = zoo.stored("rsa")
    firsts = {}

    def see(gen, right, wrong):
        firsts.setdefault(gen, set()).add(right[0])
        g.differ(gen, right[0], "many", wrong, right)
        g.same(gen, "length", len(wrong), len(right))
    for i in range(n):
        if i % 4 == 0:
            raw = der(zoo.body_message("genm", rng, own, other))
            a, b = [pu.protect_pkimessage(parse(raw), "hmac", password=b"pw", bad_message_check=x)["protection"].asOctets() for x in (False, True)]
            see("hmac", a, b)
            ss = rb(rng, 32)
            a, b = [pu.protect_pkimessage(parse(raw), "hmac", password=ss, bad_message_check=x)["protection"].asOctets() for x in (False, True)]
            see("hmac", a, b)
            cek, salt = rb(rng, 16), rb(rng, 16)
            a, b = [envdatautils.prepare_password_recipient_info("pw", cek=cek, salt=salt, iterations=1, key_length=16, bad_encrypted_key=x)["encryptedKey"].asOctets()
                    for x in (False, True)]
            see("bad_encrypted_key", a, b)
        num = rng.getrandbits(31)
        w = ca_ra_utils.prepare_challenge(rsa.public_key(), bad_witness=True, hash_alg="sha256", rand_int=num)[0]["witness"].asOctets()
        see("bad_witness", hashlib.sha256(num.to_bytes(4, "big")).digest(), w)
        k = zoo.generate_key("ed25519")
        a, b = [certbuildutils.prepare_ski_extension(k, invalid_ski=x)["extnValue"].asOctets()[2:] for x in (False, True)]
        see("invalid_ski", a, b)
        a, b = [tlv.parse(certbuildutils.prepare_authority_key_identifier_extension(k.public_key(), invalid_key_id=x)["extnValue"].asOctets()).kids[0].val
                for x in (False, True)]
        see("invalid_key_id", a, b)
        a, b = [envdatautils.prepare_recipient_identifier(key=k, bad_ski=x)["subjectKeyIdentifier"].asOctets() for x in (False, True)]
        see("bad_ski", a, b)
        own["tbsCertificate"]["serialNumber"] = i + 1
        a, b = [cmputils.prepare_certstatus(cert=own, hash_alg="sha256", bad_cert_id=x)["certHash"].asOctets() for x in (False, True)]
        see("bad_cert_id", a, b)
        kid = bytes([i % 256]) + rb(rng, rng.randrange(20))
        a, b = [cmputils.patch_senderkid(parse(raw), kid, negative=x)["header"]["senderKID"].asOctets() for x in (False, True)]
        see("senderKID", a, b)
    for gen, f in firsts.items():
        rec.count("first bytes seen of " + gen, len(f))
    # dates of a request for a newer CRL
    from datetime import datetime, timedelta, timezone
    for zone in ("UTC", "XYZ-14", "XYZ+12"):
        old = os.environ.get("TZ")
        os.environ["TZ"] = zone
        time.tzset()
        try:
            for i in range(20):
                at = datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=rng.randrange(60 * 365 * 86400 // 10))
                with open("p24.crl", "wb") as f:
                    f.write(make_crl(other, at, "PEM"))
                for bad in (False, True):
                    for path in ("p24.crl", None):
                        if not bad and path is None:
                            continue
                        now = datetime.now(timezone.utc)
                        v = general_msg_utils.prepare_crl_update_retrieval(ca_name="CN=ca", bad_this_update=bad, crl_filepath=path)
                        t = [x.val.decode() for _, x in tlv.leaves(tlv.parse(enc(v))) if x.tag == b"\x18"][0]
                        rec.ev("crl update", zone, bad, path is None, counter="many")
                        g.name("prepare_crl_update_retrieval")
                        when = datetime.strptime(t[:14], "%Y%m%d%H%M%S").replace(tzinfo=timezone.utc)
                        if path:
                            rec.check((when == at) != bad, ("valid:" if bad else "good:") + "crl-time", f"TZ={zone} bad={bad}: {t} for a CRL of {at}")
                        else:
                            off = (when - now).total_seconds()
                            rec.check(abs(off - 86400) < 60, "valid:crl-time", f"TZ={zone}: {t} is {off:.0f} s from now")
        finally:
            os.environ.pop("TZ") if old is None else os.environ.update(TZ=old)
            time.tzset()
    # values inside the general information of a header
    for i in range(max(10, n // 40)):
        prof = zoo.rnd_cn(rng, "")
        wait = rng.randrange(1, 100000)
        out = []
        for bad in (False, True):
            v = cmputils._prepare_generalinfo(implicit_confirm=True, negative_value=bad, confirm_wait_time=wait, cert_profile=prof)
            t = tlv.parse(enc(v))
            t = t.kids[0] if t.tag == b"\xa8" else t
            out.append([x.kids for x in t.kids])
        a, b = out
        rec.ev("generalInfo", i, counter="many")
        g.name("_prepare_generalinfo")
        rec.check([x[0].val for x in a] == [x[0].val for x in b] and len(a) == 3, "more-changed:generalInfo", "other entries")
        rec.check(a[0][1].tag == b"\x05" and b[0][1].tag != b"\x05", "valid:implicitConfirm", "implicitConfirm")
        rec.check(a[1][1].tag == b"\x18" and b[1][1].tag == b"\x17", "valid:confirmWaitTime", "confirmWaitTime")
        right = [x.val for x in a[2][1].kids]
        wrong = [x.val for x in b[2][1].kids]
        rec.check(right == [prof.encode()], "good:certProfile", f"{right} for {prof!r}")
        rec.check(wrong != [prof.encode()] and any(x != prof.encode() for x in wrong), "valid:certProfile", f"{wrong}")


def jobs(tier, seed):
    t = tier == "thorough"
    m = 12 if t else 1
    out = [Job("bytes", job_bytes, n=4000 * m, timeout=2400), Job("many", job_many, n=1200 * m, timeout=2400)]
    out += [Job(f"first-byte-{i}", job_stub, which=i, ways=4, timeout=2400) for i in range(4)]
    for kind, n in (("mac", 3), ("sig", 8), ("hybrid", 6), ("dh", 5)):
        out.append(Job("protection-" + kind, job_prot, kind=kind, n=n * m, timeout=2400))
    fast, slow = SIGN[:4], SIGN[4:]
    out.append(Job("pop-fast", job_pop, algs=fast, n=8 * m, timeout=2400))
    out.append(Job("pop-slow", job_pop, algs=slow, n=3 * m, timeout=2400))
    out.append(Job("certs-fast", job_certs, algs=fast, n=8 * m, timeout=2400))
    out.append(Job("certs-slow", job_certs, algs=slow, n=3 * m, timeout=2400))
    out.append(Job("cms", job_cms, n=8 * m, timeout=2400))
    out.append(Job("ids", job_ids, n=12 * m, timeout=2400))
    for i in range(3):
        out.append(Job(f"keys-{i}", job_keys, algs=KEYS[i::3], n=3 * m, timeout=2400))
    out.append(Job("challenge", job_challenge, n=12 * m, timeout=2400))
    return out
