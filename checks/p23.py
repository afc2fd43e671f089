"""P23: builders set exactly what was given, patchers change exactly the named field."""

import datetime
import hashlib

from vlib import tlv, x5
from vlib.core import Job
from vlib.msg import HDR

RULE = ("case = (message builder, header values given, fields excluded, body values given) or (message, patching helper, value): the header of "
        "a built message, read field by field, has to hold exactly the values given, defaults and fresh random identifiers otherwise, and none "
        "of the excluded fields; its body has to be byte for byte the one an independent encoder makes of the values. A patched message has to "
        "equal the original in every byte but the named field, which has to hold the given value, and the other arguments stay as they were")
REQUIRED = {"header": 500, "body": 400, "patched": 150, "kinds": 28, "patchers": 24, "excluded": 300, "fresh": 500, "arguments": 300}
ASSUMPTIONS = ["empty values (b'', '') count as not given", "the error code, request ids and times are given as in-range integers",
               "a sender key identifier is not combined with for_mac, which stands for the one of the common name",
               "patch_generalinfo documents that it builds nothing unless a confirmation option is given"]
NOTE = "header and body against an independent encoder; patched messages compared byte for byte with the original"

MANDATORY = ("pvno", "sender", "recipient")
OPTIONAL = tuple(HDR)
FIELDS = MANDATORY + OPTIONAL
DEFAULT_KID = b"CN=CloudCA-Integration-Test-User"
DEFAULT_RKID = b"CN=CloudPKI-Integration-Test"


def enc(obj):
    from pyasn1.codec.der import encoder
    return encoder.encode(obj)


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def raw(node):
    return tlv.dump(node)


def tl(tag, val):
    return tlv.tlv(bytes([tag]), val)


def i_(n):
    return tl(2, n.to_bytes(n.bit_length() // 8 + 1, "big", signed=True))


def s_(*parts):
    return tl(0x30, b"".join(parts))


def utf8(s):
    return tl(0x0C, s.encode())


def oid(o):
    return raw(x5.oid(o))


def word(rng, a=3, b=10):
    w = "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789") for _ in range(rng.randrange(a, b)))
    return "y" + w[1:] if w.startswith("0x") else w  # 0x stands for hexadecimal in the arguments of the suite


def cn_der(cn):
    return s_(tl(0x31, s_(oid("2.5.4.3"), utf8(cn))))


def fields(msg):
    """name -> DER of every header field that holds a value"""
    h = msg["header"]
    return {f: enc(h[f]) for f in FIELDS if h[f].isValue}


def when(der):
    t = tlv.parse(der)
    while t.cons:
        t = t.kids[0]
    txt = t.val.decode().rstrip("Z").split(".")
    d = datetime.datetime.strptime(txt[0], "%Y%m%d%H%M%S")
    return d + datetime.timedelta(seconds=float("0." + txt[1]) if len(txt) > 1 else 0)


def utcnow():
    return datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)


FAIL = ("badAlg badMessageCheck badRequest badTime badCertId badDataFormat wrongAuthority incorrectData missingTimeStamp badPOP certRevoked "
        "certConfirmed wrongIntegrity badRecipientNonce timeNotAvailable unacceptedPolicy unacceptedExtension addInfoNotAvailable "
        "badSenderNonce badCertTemplate signerNotTrusted transactionIdInUse unsupportedVersion notAuthorized systemUnavail systemFailure "
        "duplicateCertReq").split()
STATUS = "accepted grantedWithMods rejection waiting revocationWarning revocationNotification keyUpdateWarning".split()


def bits_named(names):
    pos = sorted(FAIL.index(n) for n in names)
    size = pos[-1] + 1
    val = bytearray((size + 7) // 8)
    for p in pos:
        val[p // 8] |= 0x80 >> (p % 8)
    return tl(3, bytes([len(val) * 8 - size]) + bytes(val))


def status_der(status, fail, texts):
    return s_(i_(STATUS.index(status)), s_(*[utf8(t) for t in texts]) if texts else b"", bits_named(fail) if fail else b"")


# -- headers -------------------------------------------------------------------------------------------------------------------------
class Hdr:
    """Random header arguments and what they have to come out as."""

    def __init__(self, rng, *, sender=None, exclude=(), free_text=True, nested=False, pvno=2, mac=True):
        from resources import prepareutils
        self.rng, self.args, self.want = rng, {}, {}
        a, w = self.args, self.want
        p = rng.random
        self.fresh = set()
        self.time = None

        def party(arg, default):
            how = rng.choice(("default", "mail", "cn", "name", "general", "uri"))
            if how == "default":
                val, der = default, tl(0x81, default.encode())
                given = None
            elif how in ("mail", "cn"):
                val = given = word(rng) + "@" + word(rng) if how == "mail" else "CN=" + word(rng)
                der = tl(0x81, val.encode())
            elif how == "name":
                cn = word(rng)
                val = given = prepareutils.prepare_name("CN=" + cn)
                der = tl(0xA4, cn_der(cn))
            elif how == "general":
                cn = word(rng)
                val = given = prepareutils.prepare_general_name("directoryName", "CN=" + cn)
                der = tl(0xA4, cn_der(cn))
            else:
                u = "https://" + word(rng)
                val = given = prepareutils.prepare_general_name("uri", u)
                der = tl(0x86, u.encode())
            if given is not None:
                a[arg] = given
            w[arg] = der
            return val

        s = party("sender", sender or "tests@example.com")
        party("recipient", sender and "test-cmp-srv@example.com" or "testr@example.com")
        if p() < 0.5:
            a["pvno"] = rng.choice((1, 2, 3, "2", "3"))
        w["pvno"] = i_(int(a.get("pvno", pvno)))
        if p() < 0.6:
            v = rb(rng, rng.choice((16, 16, 1, 20)))
            a["transaction_id"] = v if p() < 0.7 or nested else "0x" + v.hex()
            if p() < 0.1 and not nested:
                v = word(rng)
                a["transaction_id"], v = v, v.encode()
            w["transactionID"] = v
        else:
            self.fresh.add("transactionID")
        for arg, f in (("sender_nonce", "senderNonce"), ("recip_nonce", "recipNonce")):
            if p() < 0.6:
                a[arg] = w[f] = rb(rng, rng.choice((16, 16, 3, 32)))
            elif f == "senderNonce":
                self.fresh.add(f)
        if p() < 0.5:
            a["recip_kid"] = w["recipKID"] = rb(rng, rng.randrange(1, 30))
        else:
            w["recipKID"] = DEFAULT_RKID
        if p() < 0.5:
            a["sender_kid"] = v = rb(rng, rng.randrange(1, 30))
            w["senderKID"] = v
        else:
            w["senderKID"] = s.encode() if isinstance(s, str) and s.startswith("CN=") else DEFAULT_KID
            if mac and isinstance(s, str) and s.startswith("CN=") and p() < 0.5:
                a["for_mac"] = rng.choice((True, "True", "true"))
                w["sender"] = tl(0xA4, cn_der(s[3:]))
            elif mac and p() < 0.3:
                a["for_mac"] = rng.choice((False, "False"))
        if p() < 0.4:
            t = datetime.datetime(2026, rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
            self.time = t
            from pyasn1.type import useful
            a["message_time"] = rng.choice((t.replace(tzinfo=datetime.timezone.utc), useful.GeneralizedTime(t.strftime("%Y%m%d%H%M%SZ"))))
        if p() < 0.4:
            a["implicit_confirm"] = rng.choice((True, True, "True", False, "false"))
            if a["implicit_confirm"] in (True, "True"):
                w["generalInfo"] = s_(s_(oid("1.3.6.1.5.5.7.4.13"), b"\x05\x00"))
        if free_text and p() < 0.4:
            texts = [word(rng) for _ in range(rng.randrange(1, 4))]
            a["pki_free_text"] = texts[0] if len(texts) == 1 and p() < 0.6 else texts
            w["freeText"] = s_(*[utf8(t) for t in texts])
        self.excluded = set(exclude)
        how = p()
        if how < 0.55:
            chosen = rng.sample(FIELDS, rng.randrange(1, 5))
            if "for_mac" in a and a["for_mac"] not in (False, "False") and "sender" in chosen:
                chosen.append("senderKID")
            sep = ", " if p() < 0.3 else ","
            a["exclude_fields"] = sep.join(chosen)
            self.excluded = set(chosen)
        elif how < 0.8 or (exclude and p() < 0.5):
            a["exclude_fields"] = None
            self.excluded = set()
        if self.excluded == set(exclude) and exclude and a.get("for_mac") not in (None, False, "False") and "sender" in self.excluded:
            self.excluded = set(exclude)
        self.before = {k: self.dump(v) for k, v in a.items()}

    @staticmethod
    def dump(v):
        if hasattr(v, "isValue"):
            return enc(v)
        return list(v) if isinstance(v, list) else v

    def untouched(self, rec, what):
        for k, v in self.args.items():
            rec.check(self.dump(v) == self.before[k], "argument changed", f"{what}: the argument {k} was changed by the call")
        rec.count("arguments")

    def judge(self, rec, what, msg, start, seen, want=None):
        w = dict(self.want)
        w.update(want or {})
        got = fields(msg)
        art = {"args": {k: (v.hex() if isinstance(v, bytes) else str(v)) for k, v in self.args.items()}}
        rec.ev("header", what, tuple(sorted(self.args)), tuple(sorted(self.excluded)), counter="header")
        for f in FIELDS:
            if f in self.excluded:
                rec.count("excluded")
                rec.check(f not in got, f"excluded:{f}", f"{what}: the excluded field {f} is there", **art)
                continue
            if f in self.fresh and f not in (want or {}):
                if not rec.check(f in got, f"missing:{f}", f"{what}: {f} is missing", **art):
                    continue
                v = tlv.parse(got[f]).kids[0].val
                rec.count("fresh")
                rec.check(len(v) == 16 and v not in seen, f"fresh:{f}", f"{what}: {f} is not a fresh 16-byte value: {v.hex()}", **art)
                seen.add(v)
                continue
            if f == "messageTime":
                if not rec.check(f in got, "missing:" + f, f"{what}: the message time is missing", **art):
                    continue
                t = when(got[f])
                if self.time is not None:
                    rec.check(t == self.time, "value:messageTime", f"{what}: message time {t} instead of {self.time}", **art)
                else:
                    rec.check(start - datetime.timedelta(seconds=10) <= t <= utcnow() + datetime.timedelta(seconds=1), "now:messageTime",
                              f"{what}: message time {t} is not the current time", **art)
                continue
            exp = w.get(f)
            if exp is None:
                rec.check(f not in got, f"extra:{f}", f"{what}: {f} is there, though nobody asked for it", value=got.get(f), **art)
                continue
            if f in MANDATORY:
                full = exp
            else:
                full = tl(0xA0 | HDR[f], exp if f in ("generalInfo", "freeText") else tl(4, exp))
            rec.check(got.get(f) == full, f"value:{f}", f"{what}: {f} is {got.get(f, b'').hex()} instead of {full.hex()}", **art)


# -- bodies --------------------------------------------------------------------------------------------------------------------------
class Zoo:
    def __init__(self, rng):
        from resources.keyutils import generate_key
        from vlib import zoo
        from vlib.ca import der, load_cert
        self.rng = rng
        self.key = generate_key("ec", curve="secp256r1")
        self.rsa = zoo.stored("rsa")
        self.ed = generate_key("ed25519")
        self.certs = [load_cert("data/unittest/" + n) for n in ("root_cert_ed25519.pem", "ca1_cert_ecdsa.pem", "ca2_cert_rsa.pem")]
        self.der = der

    def signer(self):
        return self.rng.choice((self.key, self.key, self.key, self.ed, self.rsa))

    def cert(self):
        return self.rng.choice(self.certs)


def spki(key):
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    return key.public_key().public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


def verifies(key, sig, data, alg_oid):
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec, padding
    h = {"1.2.840.10045.4.3.2": hashes.SHA256(), "1.2.840.10045.4.3.3": hashes.SHA384(), "1.2.840.10045.4.3.4": hashes.SHA512(),
         "1.2.840.113549.1.1.11": hashes.SHA256(), "1.2.840.113549.1.1.12": hashes.SHA384(), "1.2.840.113549.1.1.13": hashes.SHA512()}.get(alg_oid)
    pub = key.public_key()
    try:
        if alg_oid == "1.3.101.112":
            pub.verify(sig, data)
        elif isinstance(pub, ec.EllipticCurvePublicKey):
            pub.verify(sig, data, ec.ECDSA(h))
        else:
            pub.verify(sig, data, padding.PKCS1v15(), h)
    except InvalidSignature:
        return False
    return True


def sig_oid(key, h):
    from cryptography.hazmat.primitives.asymmetric import ec, ed25519
    if isinstance(key, ed25519.Ed25519PrivateKey):
        return "1.3.101.112"
    n = {"sha256": 0, "sha384": 1, "sha512": 2}[h]
    if isinstance(key, ec.EllipticCurvePrivateKey):
        return ("1.2.840.10045.4.3.2", "1.2.840.10045.4.3.3", "1.2.840.10045.4.3.4")[n]
    return ("1.2.840.113549.1.1.11", "1.2.840.113549.1.1.12", "1.2.840.113549.1.1.13")[n]


def rnd_exts(rng):
    from resources import certbuildutils
    kinds = rng.sample(("digitalSignature", "keyAgreement", "keyCertSign"), rng.randrange(1, 3))
    out = certbuildutils.prepare_extensions(key_usage=",".join(kinds), critical=rng.random() < 0.5)
    return out, enc(out)


def rnd_controls(rng):
    from resources import cmputils
    out = []
    if rng.random() < 0.7:
        out.append(cmputils.prepare_reg_token_controls(word(rng)))
    if rng.random() < 0.7 or not out:
        out.append(cmputils.prepare_authenticator_control(word(rng)))
    return out, s_(*[enc(c) for c in out])


def retag(der, t):
    n = tlv.parse(der)
    n.tag = bytes([t])
    return tlv.dump(n)


def body_of(msg):
    """DER inside the body's explicit tag, and the tag number"""
    n = tlv.parse(enc(msg["body"]))
    return tlv.dump(n.kids[0]), n.tag[0] & 0x1F, n


def cert_req(rng, z, kind):
    """Random arguments of the key-based builders, and a judge of the single CertReqMsg."""
    key = z.signer()
    a, w = {}, {}
    cn = word(rng)
    a["common_name"] = "CN=" + cn
    if rng.random() < 0.2:
        from resources import prepareutils
        a["common_name"] = prepareutils.prepare_name("CN=" + cn)
    rid = 0
    if rng.random() < 0.6:
        rid = rng.choice((0, 1, 5, -1, 300))
        a["cert_req_id"] = rid if rng.random() < 0.6 else str(rid)
    h = "sha256"
    if rng.random() < 0.5:
        h = a["hash_alg"] = rng.choice(("sha256", "sha384", "sha512"))
    exts = ctl = b""
    if rng.random() < 0.4:
        a["extensions"], e = rnd_exts(rng)
        exts = retag(e, 0xA9)
    if rng.random() < 0.4:
        a["controls"], ctl = rnd_controls(rng)
    mode = rng.choice(("normal", "normal", "normal", "bad_pop", "ra_verified", "for_kga", "popo", "template", "spki"))
    if kind == "krr" and mode == "for_kga":
        mode = "normal"
    pub = spki(key)
    if mode == "bad_pop":
        a["bad_pop"] = True
    elif mode == "ra_verified":
        a["ra_verified"] = True
    elif mode == "for_kga":
        a["for_kga"] = True
        n = tlv.parse(pub)
        n.kids[1] = tlv.Node(b"\x03", False, b"\x00")
        pub = tlv.dump(n)
    elif mode == "popo":
        from resources import cmputils
        a["popo"] = cmputils.prepare_popo_challenge_for_non_signing_key(use_encr_cert=rng.random() < 0.5, use_key_enc=rng.random() < 0.5)
        w["popo"] = enc(a["popo"])
    template = s_(tl(0xA5, cn_der(cn)), retag(pub, 0xA6), exts)
    if mode == "template":
        from pyasn1.codec.der import decoder
        from pyasn1_alt_modules import rfc4211
        t = s_(tl(0x81, b"\x05"), tl(0xA5, cn_der(word(rng))), retag(pub, 0xA6))
        a["cert_template"] = decoder.decode(t, asn1Spec=rfc4211.CertTemplate())[0]
        template = t
    elif mode == "spki" and kind in ("ir", "kur"):
        from pyasn1.codec.der import decoder
        from pyasn1_alt_modules import rfc5280
        other = z.signer()
        a["spki"] = decoder.decode(spki(other), asn1Spec=rfc5280.SubjectPublicKeyInfo())[0]
        template = s_(tl(0xA5, cn_der(cn)), retag(spki(other), 0xA6), exts)
    want = s_(i_(rid), template, ctl)

    def judge(rec, what, node, art):
        rec.check(tlv.dump(node.kids[0]) == want, f"body:{kind}:certReq", f"{what} ({mode}): certificate request {tlv.dump(node.kids[0]).hex()} instead of {want.hex()}", **art)
        popo = node.kids[1] if len(node.kids) > 1 else None
        rec.check(len(node.kids) <= 2, f"body:{kind}:extra", f"{what}: something after the proof of possession", **art)
        if mode == "for_kga":
            rec.check(popo is None, f"body:{kind}:popo", f"{what}: proof of possession of a key that does not exist yet", **art)
            return
        if not rec.check(popo is not None, f"body:{kind}:popo", f"{what} ({mode}): no proof of possession", **art):
            return
        if mode == "ra_verified":
            rec.check(tlv.dump(popo) == b"\x80\x00", f"body:{kind}:popo", f"{what}: not raVerified", **art)
        elif mode == "popo":
            rec.check(tlv.dump(popo) == w["popo"], f"body:{kind}:popo", f"{what}: not the given proof of possession", **art)
        else:
            alg = x5.find_oid(popo.kids[0].kids[0]) if popo.kids and popo.kids[0].kids else None
            if not rec.check(popo.tag == b"\xa1" and alg == sig_oid(key, h), f"body:{kind}:popo alg", f"{what}: proof of possession is {tlv.dump(popo)[:40].hex()} for {h}", **art):
                return
            ok = verifies(key, popo.kids[1].val[1:], tlv.dump(node.kids[0]), alg)
            rec.check(ok == (mode != "bad_pop"), f"body:{kind}:popo valid", f"{what} ({mode}): proof of possession verifies: {ok}", **art)
    return key, a, judge, mode


TAGS = {"ir": 0, "cr": 2, "p10cr": 4, "kur": 7, "krr": 9, "rr": 11, "ccr": 13, "cann": 16, "rann": 17, "crlann": 18, "nested": 20, "genm": 21,
        "error": 23, "certConf": 24, "pollReq": 25, "pollRep": 26}
TAGS.update({"ckuann": 15})


def job_requests(rec, rounds, budget):
    from resources import certbuildutils, cmputils
    rng = rec.rng
    z = Zoo(rng)
    seen = set()
    kinds = set()
    builders = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "krr": cmputils.build_krr_from_key,
                "ccr": cmputils.build_ccr_from_key, "kur": cmputils.build_key_update_request}
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        kind = rng.choice(list(builders))
        skip = ("sender", "senderKID") if kind in ("kur", "ccr") else ()
        key, a, judge, mode = cert_req(rng, z, kind)
        start = utcnow()
        h = Hdr(rng, exclude=skip, pvno=3 if mode == "for_kga" else 2)
        what = f"build {kind} from key"
        before = {k: Hdr.dump(v) for k, v in a.items()}
        if rng.random() < 0.25:
            given = [cmputils.prepare_cert_req_msg(z.key, common_name="CN=" + word(rng), cert_req_id=i) for i in range(rng.randrange(1, 4))]
            ders = [enc(g) for g in given]
            arg = given[0] if len(given) == 1 and rng.random() < 0.5 else given
            a = {k: v for k, v in a.items() if k not in ("for_kga",)}
            if mode == "for_kga" and "pvno" not in h.args:
                h.want["pvno"] = i_(2)
            ok, m = rec.must(f"raised:{kind}", lambda: builders[kind](key, cert_req_msg=arg, **a, **h.args))
            if not ok:
                continue
            kinds.add(kind + " given")
            h.judge(rec, what, m, start, seen)
            b, t, n = body_of(m)
            rec.ev("body", kind, "given", len(given), counter="body")
            rec.check(t == TAGS[kind] and b == s_(*ders), f"body:{kind}:given", f"{what}: the body is not the list of the requests given", got=b)
            rec.check([enc(g) for g in given] == ders and len(given) == len(ders), "argument changed", f"{what}: the given requests were changed")
            continue
        ok, m = rec.must(f"raised:{kind}", lambda: builders[kind](key, **a, **h.args))
        if not ok:
            continue
        kinds.add(kind)
        h.judge(rec, what, m, start, seen)
        h.untouched(rec, what)
        rec.check({k: Hdr.dump(v) for k, v in a.items()} == before, "argument changed", f"{what}: a given body value was changed by the call")
        b, t, n = body_of(m)
        art = {"body": b, "args": {k: str(v) for k, v in a.items()}}
        rec.ev("body", kind, mode, tuple(sorted(a)), counter="body")
        if rec.check(t == TAGS[kind] and len(n.kids[0].kids) == 1, f"body:{kind}:count", f"{what}: body tag {t} with {len(n.kids[0].kids)} requests", **art):
            judge(rec, what, n.kids[0].kids[0], art)
    # from a CSR
    for _ in range(rounds // 3):
        if rec.elapsed() > budget * 1.6:
            break
        key = z.signer()
        cn = word(rng)
        exts, e = rnd_exts(rng) if rng.random() < 0.6 else (None, b"")
        csr = certbuildutils.build_csr(key, common_name="CN=" + cn, extensions=exts)
        csr_der = enc(csr)
        kind = rng.choice(("ir", "cr", "ccr", "p10cr"))
        h = Hdr(rng)
        start = utcnow()
        what = f"build {kind} from CSR"
        if kind == "p10cr":
            ok, m = rec.must("raised:p10cr", lambda: cmputils.build_p10cr_from_csr(csr, **h.args))
            if not ok:
                continue
            kinds.add("p10cr csr")
            h.judge(rec, what, m, start, seen)
            h.untouched(rec, what)
            b, t, n = body_of(m)
            rec.ev("body", kind, "csr", counter="body")
            rec.check(t == 4 and b == csr_der, "body:p10cr", f"{what}: the body is not the CSR", got=b, csr=csr_der)
            continue
        extra = [cmputils.prepare_cert_req_msg(z.key, common_name="CN=" + word(rng), cert_req_id=i) for i in range(rng.randrange(0, 3))]
        ders = [enc(g) for g in extra]
        n_before = len(extra)
        fn = {"ir": cmputils.build_ir_from_csr, "cr": cmputils.build_cr_from_csr, "ccr": cmputils.build_ccr_from_csr}[kind]
        args = {"cert_req_msg": extra} if extra else {}
        rid = rng.randrange(5)
        if rng.random() < 0.5:
            args["cert_req_id"] = rid
        else:
            rid = 0
        bad = kind == "ir" and rng.random() < 0.2  # only the ir builder documents it
        if bad:
            args["bad_pop"] = True
        ok, m = rec.must(f"raised:{kind} csr", lambda: fn(csr, key, **args, **h.args))
        if not ok:
            continue
        kinds.add(kind + " csr")
        h.judge(rec, what, m, start, seen)
        h.untouched(rec, what)
        rec.check(len(extra) == n_before, "argument changed", f"{what}: the caller's list of requests has grown from {n_before} to {len(extra)}")
        b, t, n = body_of(m)
        got = [tlv.dump(x) for x in n.kids[0].kids]
        rec.ev("body", kind, "csr", n_before, counter="body")
        if not rec.check(t == TAGS[kind] and got[:-1] == ders, f"body:{kind}:given", f"{what}: {len(got)} requests, {n_before} given", got=b):
            continue
        crm = n.kids[0].kids[-1]
        want = s_(i_(rid), s_(tl(0xA5, cn_der(cn)), retag(spki(key), 0xA6), retag(e, 0xA9) if e else b""))
        rec.check(tlv.dump(crm.kids[0]) == want, f"body:{kind}:csr", f"{what}: request {tlv.dump(crm.kids[0]).hex()} instead of {want.hex()}", csr=csr_der)
        alg = x5.find_oid(crm.kids[1].kids[0].kids[0])
        okv = verifies(key, crm.kids[1].kids[1].val[1:], tlv.dump(crm.kids[0]), alg)
        rec.check(okv == (not bad), f"body:{kind}:csr popo", f"{what}: proof of possession verifies: {okv}, bad asked: {bad}")
    # CSR made on the way
    for _ in range(rounds // 8):
        if rec.elapsed() > budget * 1.8:
            break
        key = z.signer()
        cn = word(rng)
        h = Hdr(rng)
        a = {"common_name": "CN=" + cn}
        exts, e = rnd_exts(rng) if rng.random() < 0.6 else (None, b"")
        if exts is not None:
            a["extensions"] = exts
        bad = rng.random() < 0.2
        if bad:
            a["bad_pop"] = True
        hash_alg = "sha256"
        if rng.random() < 0.5:
            a["hash_alg"] = hash_alg = rng.choice(("sha256", "sha384", "sha512"))
        start = utcnow()
        ok, m = rec.must("raised:p10cr key", lambda: cmputils.build_p10cr_from_key(key, **a, **h.args))
        if not ok:
            continue
        kinds.add("p10cr")
        h.judge(rec, "build p10cr from key", m, start, seen)
        h.untouched(rec, "build p10cr from key")
        b, t, n = body_of(m)
        csr = n.kids[0]
        attrs = tl(0xA0, s_(oid("1.2.840.113549.1.9.14"), tl(0x31, e)) if e else b"")
        want = s_(i_(0), cn_der(cn), spki(key), attrs)
        rec.ev("body", "p10cr", tuple(sorted(a)), counter="body")
        rec.check(tlv.dump(csr.kids[0]) in (want, s_(i_(0), cn_der(cn), spki(key))) and (not e or tlv.dump(csr.kids[0]) == want), "body:p10cr:info", f"p10cr: {tlv.dump(csr.kids[0]).hex()} instead of {want.hex()}")
        alg = x5.find_oid(csr.kids[1].kids[0])
        rec.check(alg == sig_oid(key, hash_alg), "body:p10cr:alg", f"p10cr: signed with {alg} instead of {hash_alg}")
        okv = verifies(key, csr.kids[2].val[1:], tlv.dump(csr.kids[0]), alg)
        rec.check(okv == (not bad), "body:p10cr:signature", f"p10cr: the CSR's signature verifies: {okv}, bad asked: {bad}")
    rec.count("kinds", len(kinds))


def serial_issuer(cert_der):
    c = tlv.parse(cert_der).kids[0]
    off = 1 if c.kids[0].tag == b"\xa0" else 0
    return c.kids[off].val, tlv.dump(c.kids[off + 2])


def response(rng, z, entries, kind, pvno):
    """A response with several certificates of one issuer, each under its own certReqId."""
    from checks import p20
    from vlib.ca import parse
    k = p20.key(rng.choice(("ec", "ec", "rsa")), rng)
    name = "Issuer " + word(rng)
    ca = p20.make(rng, name, k, name, k)
    ees = []
    for _ in entries:
        ees.append(p20.make(rng, "EE " + word(rng), p20.key("ec", rng), name, k, ca=False))
    items = []
    for rid, ee in zip(entries, ees):
        items.append(s_(i_(rid), s_(i_(0)), s_(tl(0xA0, ee.raw))))
    hdr = fields_der(rng, pvno)
    ders = [e.raw for e in ees]
    body = tl(0xA0 | {"ip": 1, "cp": 3, "kup": 8, "ccp": 14}[kind], s_(s_(*items)))
    msg = s_(hdr, body, tl(0xA1, s_(*([ders[0]] * 0 + [ca.raw]))))
    return parse(msg), ders


def fields_der(rng, pvno=2, **kw):
    f = lambda n, v: tl(0xA0 | n, v)
    return s_(i_(pvno), tl(0xA4, cn_der(word(rng))), tl(0xA4, cn_der(word(rng))), f(0, tl(0x18, b"20260225120000Z")), f(2, tl(4, rb(rng, 8))),
              f(3, tl(4, rb(rng, 9))), f(4, tl(4, rb(rng, 16))), f(5, tl(4, rb(rng, 16))), f(6, tl(4, rb(rng, 16))))


def job_bodies(rec, rounds, budget):
    from resources import announcement, cmputils, general_msg_utils
    from vlib import zoo
    rng = rec.rng
    z = Zoo(rng)
    seen, kinds = set(), set()
    HASHES = {"sha256": hashlib.sha256, "sha384": hashlib.sha384, "sha512": hashlib.sha512}

    def run(kind, fn, h, want=None, body=None, key=None, args=(), hdr_want=None, **art):
        start = utcnow()
        before = [(x, [enc(y) for y in x]) for x in args]
        ok, m = rec.must(f"raised:{kind}", fn)
        if not ok:
            return None
        kinds.add(kind)
        h.judge(rec, f"build {kind}", m, start, seen, want=hdr_want)
        h.untouched(rec, f"build {kind}")
        for x, d in before:
            rec.check([enc(y) for y in x] == d, "argument changed", f"build {kind}: a given list was changed by the call")
        b, t, n = body_of(m)
        rec.ev("body", kind, tuple(sorted(h.args)), counter="body")
        if body is not None:
            rec.check(b == body and t == TAGS[kind.split()[0]], f"body:{kind}", f"build {kind}: body {b.hex()} instead of {body.hex()}", **art)
        return m

    def from_message(h, other, fresh=False):
        """Fields taken over from the other message unless given."""
        f = fields(other)
        want = {}
        for arg, mine, theirs in (("transaction_id", "transactionID", "transactionID"), ("recip_nonce", "recipNonce", "senderNonce"),
                                  ("sender_nonce", "senderNonce", None if fresh else "recipNonce"), ("recip_kid", "recipKID", "senderKID"),
                                  ("sender_kid", "senderKID", "recipKID")):
            if arg in h.args or theirs is None:
                continue
            if h.args.get("for_mac") not in (None, False, "False") and mine == "senderKID":
                continue
            if theirs in f:
                want[mine] = tlv.parse(f[theirs]).kids[0].val
        return want

    def poll_texts():
        texts = [word(rng) for _ in range(rng.randrange(0, 3))]
        return texts, (None if not texts else texts[0] if len(texts) == 1 and rng.random() < 0.5 else texts)

    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        which = rng.choice(("error", "certConf", "certConf resp", "rr", "rr", "revive", "nested", "pollReq", "pollRep", "genm", "cann", "rann", "crlann", "ckuann"))
        cert = z.cert()
        cder = enc(cert)
        serial, issuer = serial_issuer(cder)
        if which == "error":
            h = Hdr(rng)
            a = {"status": rng.choice(STATUS), "error_code": rng.randrange(0, 10 ** 6)}
            fail = rng.sample(FAIL, rng.randrange(0, 4))
            texts = [word(rng) for _ in range(rng.randrange(0, 3))]
            details = [word(rng) for _ in range(rng.randrange(0, 3))]
            if fail:
                a["failinfo"] = ",".join(fail)
            if texts:
                a["texts"] = texts[0] if len(texts) == 1 else texts
            if details:
                a["error_texts"] = details[0] if len(details) == 1 else details
            run("error", lambda: cmputils.build_cmp_error_message(**a, **h.args), h,
                body=s_(status_der(a["status"], fail, texts), i_(a["error_code"]), s_(*[utf8(t) for t in details]) if details else b""), args_=str(a))
        elif which == "certConf":
            h = Hdr(rng)
            a = {}
            rid = rng.choice((0, 1, -1, 7))
            if rng.random() < 0.6:
                a["cert_req_id"] = rng.choice((rid, str(rid)))
            else:
                rid = 0
            st = b""
            mode = rng.choice(("cert", "hash", "entry", "entries"))
            if mode == "cert":
                a["cert"] = cert
                a["hash_alg"] = rng.choice(list(HASHES))
                v = HASHES[a["hash_alg"]](cder).digest()
            elif mode == "hash":
                v = a["cert_hash"] = rb(rng, 32)
            if mode in ("cert", "hash"):
                if rng.random() < 0.5:
                    fail = rng.sample(FAIL, rng.randrange(0, 3))
                    texts = [word(rng)]
                    if rng.random() < 0.5:
                        a["status_info"] = cmputils.prepare_pkistatusinfo("rejection", ",".join(fail) or None, texts)
                        st = status_der("rejection", fail, texts)
                    else:
                        a["status"] = "rejection"
                        st = status_der("rejection", [], [])
                body = s_(s_(tl(4, v), i_(rid), st))
                run("certConf", lambda: cmputils.build_cert_conf(**a, **h.args), h, body=body, args_=str(a))
            else:
                es = [cmputils.prepare_certstatus(cert_hash=rb(rng, 32), cert_req_id=i, hash_alg=rng.choice((None, "sha256"))) for i in range(1 if mode == "entry" else 3)]
                a["cert_status"] = es[0] if mode == "entry" else es
                run("certConf entries", lambda: cmputils.build_cert_conf(**a, **h.args), h, body=s_(*[enc(e) for e in es]), args=[es])
        elif which == "certConf resp":
            entries = rng.choice(((0,), (0,), (0, 1), (1, 0), (0, 1, 2), (2, 0, 1), (-1,), (4,)))
            pv = rng.choice((2, 3))
            resp, ders = response(rng, z, entries, rng.choice(("ip", "cp", "kup", "ccp")), pv)
            before = enc(resp)
            a = {}
            alg = rng.choice((None, "sha256", "sha384", "sha512"))
            if alg:
                a["hash_alg"] = alg
            h = Hdr(rng, pvno=2)
            if not rng.randrange(3):
                h.args["pvno"] = pv
                h.want["pvno"] = i_(pv)
            a["use_fresh_nonce"] = rng.random() < 0.5
            hw = from_message(h, resp, fresh=a["use_fresh_nonce"])
            ok, m = rec.must("raised:certConf resp", lambda: cmputils.build_cert_conf_from_resp(resp, **a, **h.args))
            rec.check(enc(resp) == before, "argument changed", "build certConf from response: the response was changed")
            if not ok:
                continue
            kinds.add(which)
            h.judge(rec, "build certConf from response", m, utcnow(), seen, want=hw)
            b, t, n = body_of(m)
            rec.ev("body", which, entries, alg, counter="body")
            rows = n.kids[0].kids
            # the ASN.1 module of the dependency encodes hashAlg first, RFC 9480 has it last: not the suite's doing
            parts = [[k for k in r.kids if k.tag != b"\xa0"] for r in rows]
            ids = [int.from_bytes(f[1].val, "big", signed=True) for f in parts]
            want_ids = [max(e, 0) if len(entries) == 1 else e for e in entries]
            rec.check(ids == want_ids, "body:certConf resp:ids", f"build certConf from response: certReqIds {ids} for a response with {list(entries)}", got=b, response=before)
            used = int(h.args.get("pvno", pv))
            for r, d in zip(rows, ders):
                has = [k for k in r.kids if k.tag == b"\xa0"]
                algs = HASHES if alg is None else {alg: HASHES[alg]}
                rec.check(any([k for k in r.kids if k.tag != b"\xa0"][0].val == f(d).digest() for f in algs.values()), "body:certConf resp:hash", "build certConf from response: not the hash of the certificate with that id", got=b)
                rec.check(bool(has) == (used == 3), "body:certConf resp:alg", f"build certConf from response: hash algorithm field present: {bool(has)} with pvno {used}", got=b)
                if has and alg:
                    o = x5.find_oid(has[0].kids[0].kids[0])
                    rec.check(o == {"sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}[alg], "body:certConf resp:oid", f"hash algorithm {o} instead of {alg}", got=b)
        elif which in ("rr", "revive"):
            h = Hdr(rng, sender="test-cmp-cli@example.com" if which == "rr" else "test-cli@test.com", exclude=("sender", "senderKID"))
            if which == "revive" and "recipient" not in h.args:
                h.want["recipient"] = tl(0x81, b"test-srv@test.com")
            a = {"cert": cert}
            reasons = "unspecified keyCompromise cACompromise affiliationChanged superseded cessationOfOperation certificateHold x removeFromCRL privilegeWithdrawn aACompromise".split()
            reason = "unspecified"
            if which == "rr" and rng.random() < 0.8:
                reason = a["reason"] = rng.choice([r for r in reasons if r != "x"])
            if which == "revive":
                reason = "removeFromCRL"
            sn = serial
            if rng.random() < 0.4:
                v = rng.getrandbits(60)
                a["serial_number"] = rng.choice((v, str(v)))
                sn = tlv.parse(i_(v)).val
            entry = s_(s_(oid("2.5.29.21"), tl(4, tl(10, bytes([reasons.index(reason)])))))
            mode = rng.random()
            if mode < 0.15:
                a["exclude_crl_entry"] = True
                entry = b""
            elif mode < 0.35:
                n = rng.sample([r for r in reasons if r != "x"], rng.randrange(1, 4))
                crit = rng.random() < 0.3
                a["crl_entry_details"] = cmputils.prepare_crl_reason_extensions((", " if rng.random() < 0.3 else ",").join(n), critical=crit)
                entry = s_(*[s_(oid("2.5.29.21"), b"\x01\x01\xff" if crit else b"", tl(4, tl(10, bytes([reasons.index(r)])))) for r in n])
            tmpl = s_(tl(0x81, sn), tl(0xA3, issuer))
            if rng.random() < 0.2:
                from pyasn1.codec.der import decoder
                from pyasn1_alt_modules import rfc4211
                tmpl = s_(tl(0x81, bytes([rng.randrange(1, 128)]) + b"\x01"), tl(0xA3, cn_der(word(rng))), tl(0xA5, cn_der(word(rng))))
                a["cert_template"] = decoder.decode(tmpl, asn1Spec=rfc4211.CertTemplate())[0]
            fn = cmputils.build_cmp_revoke_request if which == "rr" else cmputils.build_cmp_revive_request
            run("rr" if which == "rr" else "rr revive", lambda: fn(**a, **h.args), h, body=s_(s_(tmpl, entry)), args_=str(a))
        elif which == "nested":
            inner = [zoo.body_message(rng.choice(("ir", "rr", "certConf", "error", "genm")), rng, cert, z.key) for _ in range(rng.randrange(1, 4))]
            added = rng.random() < 0.5
            h = Hdr(rng, exclude=("sender", "senderKID"), nested=True)
            hw = {}
            if added:
                f0 = fields(inner[0])
                for arg, f in (("transaction_id", "transactionID"), ("sender_nonce", "senderNonce")):
                    if arg not in h.args:
                        hw[f] = tlv.parse(f0[f]).kids[0].val
                if inner[0]["body"].getName() == "certConf" and "recip_nonce" not in h.args and "recipNonce" in f0:
                    hw["recipNonce"] = tlv.parse(f0["recipNonce"]).kids[0].val
            arg = inner[0] if len(inner) == 1 and rng.random() < 0.5 else inner
            run("nested", lambda: cmputils.build_nested_pkimessage(other_messages=arg, for_added_protection=added, **h.args), h,
                body=s_(*[enc(i) for i in inner]), args=[inner], hdr_want=hw)
        elif which in ("pollReq", "pollRep"):
            h = Hdr(rng)
            rid = rng.choice((0, 1, -1, 9))
            a = {"cert_req_id": rid}
            hw = {}
            if rng.random() < 0.5:
                other = zoo.body_message(rng.choice(("ir", "certConf", "error")), rng, cert, z.key, recip_nonce=rb(rng, 16))
                a["resp_pki_message" if which == "pollReq" else "req_pki_message"] = other
                hw = from_message(h, other)
            if which == "pollReq":
                for x, d in (("sender", "a@b"), ("recipient", "c@d")):
                    if x not in h.args:
                        h.args[x] = d
                        h.want[x] = tl(0x81, d.encode())
                        h.before[x] = d
                run("pollReq", lambda: cmputils.build_polling_request(**a, **h.args), h, body=s_(s_(i_(rid))), hdr_want=hw)
            else:
                a["check_after"] = t = rng.randrange(1, 10 ** 5)
                texts, arg = poll_texts()
                if texts:
                    a["status_text"] = arg
                run("pollRep", lambda: cmputils.build_polling_response(**a, **h.args), h, hdr_want=hw,
                    body=s_(s_(i_(rid), i_(t), s_(*[utf8(x) for x in texts]) if texts else b"")))
        elif which == "genm":
            h = Hdr(rng, sender="test-cmp-cli@example.com")
            vals = []
            for _ in range(rng.randrange(1, 4)):
                vals.append(cmputils.prepare_info_type_and_value("1.3.6.1.5.5.7.4.%d" % rng.choice((17, 19, 20, 2, 4)), rng.choice((None, None, word(rng)))))
            want = []
            for v in vals:
                want.append(enc(v))
            arg = vals[0] if len(vals) == 1 and rng.random() < 0.5 else vals
            run("genm", lambda: general_msg_utils.build_cmp_general_message(info_values=arg, **h.args), h, body=s_(*want), args=[vals])
        elif which == "cann":
            h = Hdr(rng)
            run("cann", lambda: announcement.build_cmp_cann_announcement(cert, **h.args), h, body=cder)
        elif which == "rann":
            h = Hdr(rng)
            a = {"status": rng.choice(STATUS)}
            ts = [datetime.datetime(2026, rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60)) for _ in range(2)]
            a["will_be_revoked_at"] = rng.choice((ts[0].strftime("%Y-%m-%d %H:%M:%S"), ts[0].replace(tzinfo=datetime.timezone.utc)))
            a["bad_since_date"] = ts[1].replace(tzinfo=datetime.timezone.utc)
            sn, iss = serial, issuer
            if rng.random() < 0.5:
                a["cert"] = cert
                if rng.random() < 0.4:
                    v = a["serial_number"] = rng.getrandbits(50)
                    sn = tlv.parse(i_(v)).val
            else:
                from resources import prepareutils
                v = a["serial_number"] = rng.getrandbits(50)
                sn = tlv.parse(i_(v)).val
                cn = word(rng)
                a["cert_id_issuer"] = prepareutils.prepare_general_name("directoryName", "CN=" + cn)
                iss = cn_der(cn)
            crl = b""
            if rng.random() < 0.5:
                a["crl_details"], crl = rnd_exts(rng)
            want = [s_(i_(STATUS.index(a["status"])), s_(tl(0xA4, iss), tl(2, sn)), *[tl(0x18, t.strftime(f"%Y%m%d%H%M%S{frac}Z").encode()) for t in ts], crl) for frac in ("", ".000")]
            m = run("rann", lambda: announcement.build_cmp_rann_announcement(**a, **h.args), h)
            if m is not None:
                b, t, _ = body_of(m)
                rec.check(t == 17 and b in want, "body:rann", f"build rann: {b.hex()} instead of {want[0].hex()}", args=str(a))
        elif which == "crlann":
            from checks import p20
            h = Hdr(rng)
            k = p20.key("ec", rng)
            name = "I " + word(rng)
            ca = p20.make(rng, name, k, name, k)
            crls = [p20.crl_of(rng, name, k, serials=[rng.getrandbits(40) for _ in range(rng.randrange(3))]) for _ in range(rng.randrange(1, 4))]
            from resources import certutils
            objs = [certutils.parse_crl(c if isinstance(c, bytes) else c.raw) for c in crls]
            arg = objs[0] if len(objs) == 1 and rng.random() < 0.5 else objs
            run("crlann", lambda: announcement.build_crlann_cmp_message(arg, **h.args), h, body=s_(*[c if isinstance(c, bytes) else c.raw for c in crls]), args=[objs])
        elif which == "ckuann":
            from resources import ca_ra_utils
            h = Hdr(rng, pvno=3)
            from checks import p20
            certs = rng.sample(z.certs, 3)
            use_new = rng.random() < 0.5
            val = ca_ra_utils.prepare_root_ca_key_update(new_with_new_cert=certs[0], new_with_old_cert=certs[1], old_with_new_cert=certs[2])
            d = [enc(c) for c in certs]
            m = run("ckuann", lambda: announcement.build_cmp_ckuann_message(root_ca_key_update=val, use_new=use_new, **h.args), h)
            if m is None:
                continue
            b, t, n = body_of(m)
            order = [d[2], d[1], d[0]] if not use_new else None
            if not use_new:
                rec.check(t == 15 and b == s_(*order), "body:ckuann", "build ckuann: not oldWithNew, newWithOld, newWithNew", got=b)
            else:
                rec.check(t == 15 and n.kids[0].tag == b"\xa0" and b == tl(0xA0, s_(d[0], tl(0xA0, d[1]), tl(0xA1, d[2]))), "body:ckuann", "build ckuann: not newWithNew, newWithOld, oldWithNew", got=b)
    rec.count("kinds", len(kinds))


# -- patchers ------------------------------------------------------------------------------------------------------------------------
def job_patch(rec, rounds, budget):
    from resources import certutils, cmputils, extra_issuing_logic, prepareutils, protectionutils, utils  # noqa: F401
    from vlib import zoo
    from vlib.ca import der, parse
    rng = rec.rng
    z = Zoo(rng)
    names_ = set()

    def base(kinds=zoo.BODIES):
        kind = rng.choice(kinds)
        m = zoo.body_message(kind, rng, z.cert(), z.key)
        if rng.random() < 0.3:
            m = cmputils.patch_sender(m, cert=z.certs[1])
        if rng.random() < 0.4:
            m["extraCerts"].extend(rng.sample(z.certs, rng.randrange(1, 3)))
        if rng.random() < 0.3:
            m = protectionutils.protect_pkimessage(m, "pbmac1", password="x")
        # as it arrives from the wire, and again as it was built
        return (parse(der(m)) if rng.random() < 0.6 else m), kind

    def replaced(d, field, content):
        """DER of the message with exactly this header field set to [n] content (None: removed)."""
        t = tlv.parse(d)
        kids = t.kids[0].kids
        if field == "sender":
            kids[1] = tlv.parse(content)
        else:
            tag = bytes([0xA0 | HDR[field]])
            rest = [k for k in kids[3:] if k.tag != tag]
            if content is not None:
                rest.append(tlv.parse(tlv.tlv(tag, content)))
            rest.sort(key=lambda k: k.tag)
            t.kids[0].kids = kids[:3] + rest
        return tlv.dump(t)

    def get(d, field):
        t = tlv.parse(d)
        n = next((k for k in t.kids[0].kids[3:] if k.tag == bytes([0xA0 | HDR[field]])), None)
        return None if n is None else n.kids[0]

    def check(name, fn, before, want, key=None, others=(), **art):
        """The message fn() returns has to be `want` (one DER, or a predicate over the DER)."""
        od = [der(o) for o in others]
        ok, m = rec.must(f"raised:{name}", fn)
        rec.ev("patch", name, key, len(before), counter="patched")
        names_.add(name)
        if not ok:
            return None
        got = der(m)
        good = want(got) if callable(want) else got == want
        rec.check(good, f"patched:{name}" + (":" + key if key else ""), f"{name} ({key}): more or something else than the named field was changed",
                  before=before, after=got, expected=b"" if callable(want) else want, **art)
        rec.check([der(o) for o in others] == od, f"other:{name}", f"{name}: another argument was changed")
        if others:
            rec.count("arguments")
        return m

    def octet(v):
        return tl(4, v)

    def value():
        v = rb(rng, rng.choice((16, 16, 1, 8, 40)))
        how = rng.random()
        if how < 0.5:
            return v, v
        if how < 0.8:
            return "0x" + v.hex(), v
        w = word(rng)
        return w, w.encode()

    def attrs(n):
        return [cmputils.prepare_reg_token_controls(word(rng)) for _ in range(n)]

    def crm_patch(d, index, fn):
        t = tlv.parse(d)
        rows = t.kids[1].kids[0].kids
        for i, r in enumerate(rows):
            if index is None or i == index:
                fn(r)
        return tlv.dump(t)

    def add_to(node, tag, after, items):
        """Append items to the SEQUENCE [tag] among node's kids, or insert a new one behind `after` kids."""
        for k in node.kids[after:]:
            if k.tag == tag:
                k.kids.extend(tlv.parse(i) for i in items)
                return
        pos = after
        while pos < len(node.kids) and node.kids[pos].tag < tag and tag != b"\x30":
            pos += 1
        if tag == b"\x30" and after < len(node.kids) and node.kids[after].tag in (b"\x80", b"\xa0", b"\xa1", b"\xa2", b"\xa3"):
            pos = after + 1
        node.kids.insert(pos, tlv.Node(tag, True, kids=[tlv.parse(i) for i in items]))

    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        m, kind = base()
        d = der(m)
        which = rng.choice(("tid", "tid", "time", "kid", "kid cert", "kid mac", "snonce", "snonce other", "rnonce", "sender cert", "sender name", "sender general",
                            "geninfo", "add geninfo", "add geninfo", "extra", "other include", "other exchange", "other added", "other nested", "add certs",
                            "reginfo", "controls", "extensions", "popo", "append", "inner"))
        if which == "tid":
            a, v = value()
            kw = {"new_id": a}
            if rng.random() < 0.4:
                p, pv = value()
                kw["prefix"] = p
                v = pv + v
            arg = d if rng.random() < 0.2 else m
            if rng.random() < 0.2:
                check("patch_transaction_id", lambda: cmputils.patch_transaction_id(arg), d,
                            lambda got: len(get(got, "transactionID").val) == 16 and get(got, "transactionID").val != get(d, "transactionID").val
                            and got == replaced(d, "transactionID", octet(get(got, "transactionID").val)), key="random")
            else:
                check("patch_transaction_id", lambda: cmputils.patch_transaction_id(arg, **kw), d, replaced(d, "transactionID", octet(v)), args=str(kw))
        elif which == "time":
            t = datetime.datetime(2026, rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
            how = rng.randrange(3)
            if how == 2:
                start = utcnow()
                check("patch_messageTime", lambda: cmputils.patch_messageTime(m), d,
                      lambda got: start - datetime.timedelta(seconds=10) <= when(tlv.dump(get(got, "messageTime"))) <= utcnow() + datetime.timedelta(seconds=2)
                      and got == replaced(d, "messageTime", tlv.dump(get(got, "messageTime"))), key="now")
            else:
                arg = t.replace(tzinfo=datetime.timezone.utc) if how else t.strftime("%Y-%m-%d %H:%M:%S")
                check("patch_messageTime", lambda: cmputils.patch_messageTime(m, arg), d,
                      lambda got: when(tlv.dump(get(got, "messageTime"))) == t and got == replaced(d, "messageTime", tlv.dump(get(got, "messageTime"))), arg=str(arg))
        elif which == "kid":
            a, v = value()
            if rng.random() < 0.3:
                check("patch_senderkid", lambda: cmputils.patch_senderkid(m, a, negative=True), d,
                      lambda got: len(get(got, "senderKID").val) == len(v) and get(got, "senderKID").val != v and got == replaced(d, "senderKID", octet(get(got, "senderKID").val)), key="negative")
            else:
                check("patch_senderkid", lambda: cmputils.patch_senderkid(m, a), d, replaced(d, "senderKID", octet(v)), key="value", arg=str(a))
        elif which == "kid cert":
            from checks import p20
            k = p20.key("ec", rng)
            ski = rb(rng, 20)
            c = parse_cert(p20.make(rng, "K", k, "K", k, ski=ski).raw)
            raw_ = enc(c)
            e = x5.Cert(raw_).extension(x5.SKI)
            if e is None:
                continue
            v = tlv.parse(x5.ext_parts(e)[2]).val
            check("patch_senderkid", lambda: cmputils.patch_senderkid(m, c), d, replaced(d, "senderKID", octet(v)), key="cert", others=[c])
        elif which == "kid mac":
            cn = word(rng)
            m = cmputils.patch_sender(m, sender_name="CN=" + cn)
            d = der(m)
            v = ("CN=" + cn).encode()
            if rng.random() < 0.3:
                check("patch_senderkid", lambda: cmputils.patch_senderkid(m, for_mac=True, negative=True), d,
                      lambda got: get(got, "senderKID").val != v and got == replaced(d, "senderKID", octet(get(got, "senderKID").val)), key="mac negative")
            else:
                check("patch_senderkid", lambda: cmputils.patch_senderkid(m, for_mac=True), d, replaced(d, "senderKID", octet(v)), key="mac")
        elif which == "snonce":
            a, v = value()
            check("patch_sendernonce", lambda: cmputils.patch_sendernonce(m, sender_nonce=a), d, replaced(d, "senderNonce", octet(v)), key="value")
        elif which == "snonce other":
            o = zoo.body_message("certConf", rng, z.cert(), z.key, recip_nonce=rb(rng, 16))
            use = rng.random() < 0.5
            check("patch_sendernonce", lambda: cmputils.patch_sendernonce(m, o, use_sender_nonce=use), d,
                  replaced(d, "senderNonce", octet(get(der(o), "senderNonce" if use else "recipNonce").val)), key="other", others=[o])
        elif which == "rnonce":
            if rng.random() < 0.3:
                check("patch_recipnonce", lambda: cmputils.patch_recipnonce(m), d,
                      lambda got: len(get(got, "recipNonce").val) == 16 and got == replaced(d, "recipNonce", octet(get(got, "recipNonce").val)), key="random")
            else:
                a, v = value()
                check("patch_recipnonce", lambda: cmputils.patch_recipnonce(m, a), d, replaced(d, "recipNonce", octet(v)), key="value")
        elif which == "sender cert":
            c = z.cert()
            t = tlv.parse(enc(c)).kids[0]
            subject = rng.random() < 0.6
            want = tl(0xA4, tlv.dump(t.kids[5 if subject else 3]))
            check("patch_sender", lambda: cmputils.patch_sender(m, c, subject=subject), d, replaced(d, "sender", want), key="cert", others=[c])
        elif which == "sender name":
            cn = word(rng)
            check("patch_sender", lambda: cmputils.patch_sender(m, sender_name="CN=" + cn), d, replaced(d, "sender", tl(0xA4, cn_der(cn))), key="name")
        elif which == "sender general":
            u = word(rng)
            t, tag = rng.choice((("uri", 0x86), ("rfc822Name", 0x81), ("dNSName", 0x82)))
            g = prepareutils.prepare_general_name(t, u)
            check("patch_sender", lambda: cmputils.patch_sender(m, general_name=g), d, replaced(d, "sender", tl(tag, u.encode())), key="general", others=[g])
        elif which in ("geninfo", "add geninfo"):
            imp = rng.random() < 0.6
            wait = rng.randrange(1, 10 ** 4) if rng.random() < 0.5 or not imp else None
            prof = word(rng) if rng.random() < 0.5 else None
            start = utcnow().replace(microsecond=0)
            kw = {"implicit_confirm": imp, "confirm_wait_time": wait, "cert_profile": prof}
            made = ([(0, s_(oid("1.3.6.1.5.5.7.4.13"), b"\x05\x00"))] if imp else []) + ([(1, None)] if wait is not None else []) + \
                   ([(2, s_(oid("1.3.6.1.5.5.7.4.21"), s_(utf8(prof))))] if prof else [])

            def same(rows):
                if len(rows) != len(made):
                    return False
                for r, (w, x) in zip(rows, made):
                    if w == 1:
                        if x5.find_oid(r.kids[0]) != "1.3.6.1.5.5.7.4.14":
                            return False
                        t = when(tlv.dump(r.kids[1]))
                        if not datetime.timedelta(seconds=wait - 1) <= t - start <= datetime.timedelta(seconds=wait + 60):
                            return False
                    elif tlv.dump(r) != x:
                        return False
                return True
            if which == "geninfo":
                check("patch_generalinfo", lambda: cmputils.patch_generalinfo(m, **kw), d,
                      lambda got: same(get(got, "generalInfo").kids) and got == replaced(d, "generalInfo", tlv.dump(get(got, "generalInfo"))), args=str(kw))
            else:
                vals = [cmputils.prepare_info_type_and_value("1.3.6.1.5.5.7.4.%d" % rng.choice((2, 4)), word(rng)) for _ in range(rng.randrange(0, 3))]
                if rng.random() < 0.3:
                    kw = {}
                    made = []
                    if not vals:
                        continue
                vd = [enc(v) for v in vals]
                if rng.random() < 0.3:
                    o = zoo.body_message("ir", rng, z.cert(), z.key)
                    kw["orig_pki_message"] = o
                    vd2 = vd + [None]
                else:
                    o, vd2 = None, vd
                old = [tlv.dump(k) for k in get(d, "generalInfo").kids] if get(d, "generalInfo") is not None else []

                def ok(got, order=None):
                    rows = get(got, "generalInfo").kids
                    if [tlv.dump(r) for r in rows[:len(old)]] != old or got != replaced(d, "generalInfo", tlv.dump(get(got, "generalInfo"))):
                        return False
                    rest = rows[len(old):]
                    n = len(made)
                    if len(rest) != n + len(vd2):
                        return False
                    for mk, vv in ((rest[:n], rest[n:]), (rest[len(vd2):], rest[:len(vd2)])):
                        if same(mk) and [tlv.dump(x) for x in vv[:len(vd)]] == vd and (o is None or (x5.find_oid(vv[-1].kids[0]) == "1.3.6.1.5.5.7.4.15" and der(o) in tlv.dump(vv[-1]))):
                            return True
                    return False
                arg = vals[0] if len(vals) == 1 and rng.random() < 0.5 else vals
                check("add_general_info_values", lambda: cmputils.add_general_info_values(m, arg or None if not vals else arg, **kw), d, ok, args=str(kw))
                rec.count("arguments")
                rec.check([enc(v) for v in vals] == vd, "argument changed", f"add_general_info_values: the given list grew from {len(vd)} to {len(vals)} values")
        elif which == "extra":
            certs = rng.sample(z.certs, rng.randrange(2, 4))
            cd = [enc(c) for c in certs]
            swap = rng.random() < 0.4
            ref = [cd[1], cd[0]] + cd[2:] if swap else cd
            t = tlv.parse(d)
            t.kids = [k for k in t.kids if k.tag != b"\xa1"] + [tlv.parse(tl(0xA1, s_(*ref)))]
            check("patch_extra_certs", lambda: cmputils.patch_extra_certs(m, certs, swap_certs=swap), d, tlv.dump(t), key="swap" if swap else None)
            rec.count("arguments")
            rec.check([enc(c) for c in certs] == cd, "argument changed", "patch_extra_certs: the given list was changed")
        elif which == "other include":
            o = zoo.body_message("ir", rng, z.cert(), z.key, recip_nonce=rb(rng, 16))
            od = der(o)
            fs = rng.sample(("senderNonce", "recipNonce", "transactionID", "senderKID", "recipKID", "messageTime", "sender"), rng.randrange(1, 4))
            want = d
            for f in fs:
                want = replaced(want, f, tlv.dump(tlv.parse(od).kids[0].kids[1]) if f == "sender" else tlv.dump(get(od, f)))
            sep = rng.choice((",", ",", ", "))
            check("patch_header_with_other", lambda: cmputils.patch_pkimessage_header_with_other_message(m, o, include_fields=sep.join(fs)), d, want, key="include", others=[o], fields=str(fs))
        elif which == "other exchange":
            o = zoo.body_message(rng.choice(("ir", "certConf")), rng, z.cert(), z.key, recip_nonce=rb(rng, 16))
            od = der(o)
            pairs = {"transactionID": "transactionID", "recipNonce": "senderNonce", "senderNonce": "recipNonce", "recipKID": "senderKID", "senderKID": "recipKID"}
            ex = rng.sample(list(pairs), rng.randrange(0, 3))
            want = d
            for mine, theirs in pairs.items():
                if mine not in ex:
                    want = replaced(want, mine, tlv.dump(get(od, theirs)))
            check("patch_header_with_other", lambda: cmputils.patch_pkimessage_header_with_other_message(m, o, exclude_fields=",".join(ex) or None, for_exchange=True), d, want, key="exchange", others=[o], fields=str(ex))
        elif which in ("other added", "other nested"):
            m, _k = base(("nested",))
            d = der(m)
            inner = [tlv.dump(x) for x in tlv.parse(d).kids[1].kids[0].kids]
            ex = rng.sample(("transactionID", "senderNonce"), rng.randrange(0, 2))
            if which == "other added":
                want = d
                for f in ("transactionID", "senderNonce"):
                    if f not in ex:
                        want = replaced(want, f, tlv.dump(get(inner[0], f)))
                check("patch_header_with_other", lambda: cmputils.patch_pkimessage_header_with_other_message(m, exclude_fields=",".join(ex) or None, for_added_protection=True), d, want, key="added")
            else:
                def ok(got):
                    want = d
                    for f in ("transactionID", "senderNonce"):
                        if f not in ex:
                            v = get(got, f)
                            if len(v.val) != 16 or v.val in [get(i, f).val for i in inner] or v.val == get(d, f).val:
                                return False
                            want = replaced(want, f, tlv.dump(v))
                    return got == want
                check("patch_header_with_other", lambda: cmputils.patch_pkimessage_header_with_other_message(m, exclude_fields=",".join(ex) or None, for_nested=True), d, ok, key="nested")
        elif which == "add certs":
            certs = rng.sample(z.certs, rng.randrange(1, 4))
            cd = [enc(c) for c in certs]
            arg = certs[0] if len(certs) == 1 and rng.random() < 0.5 else certs
            if rng.random() < 0.5:
                t = tlv.parse(d)
                x = next((k for k in t.kids if k.tag == b"\xa1"), None)
                if x is None:
                    x = tlv.parse(tl(0xA1, s_()))
                    t.kids.append(x)
                x.kids[0].kids.extend(tlv.parse(c) for c in cd)
                check("add_certs_to_pkimessage", lambda: cmputils.add_certs_to_pkimessage(m, arg), d, tlv.dump(t), key="extraCerts")
            else:
                r, _ = response(rng, z, (0,), rng.choice(("ip", "cp", "kup", "ccp")), 2)
                d = der(r)
                if rng.random() < 0.5:
                    r = cmputils.add_certs_to_pkimessage(r, [z.certs[0]], for_ca_pubs=True)
                    d = der(r)
                t = tlv.parse(d)
                b = t.kids[1].kids[0]
                if b.kids[0].tag == b"\xa1":
                    b.kids[0].kids[0].kids.extend(tlv.parse(c) for c in cd)
                else:
                    b.kids.insert(0, tlv.parse(tl(0xA1, s_(*cd))))
                check("add_certs_to_pkimessage", lambda: cmputils.add_certs_to_pkimessage(r, arg, for_ca_pubs=True), d, tlv.dump(t), key="caPubs")
            rec.check([enc(c) for c in certs] == cd, "argument changed", "add_certs_to_pkimessage: the given list was changed")
        elif which in ("reginfo", "controls", "extensions", "popo"):
            reqs = [cmputils.prepare_cert_req_msg(z.key, common_name="CN=" + word(rng), cert_req_id=i,
                                                  extensions=rnd_exts(rng)[0] if rng.random() < 0.5 else None,
                                                  controls=rnd_controls(rng)[0] if rng.random() < 0.5 else None) for i in range(rng.randrange(1, 4))]
            k = rng.choice(("ir", "cr", "kur", "ccr"))
            fn = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "kur": cmputils.build_key_update_request, "ccr": cmputils.build_ccr_from_key}[k]
            m = fn(z.key, cert_req_msg=reqs, exclude_fields=None)
            if rng.random() < 0.5:
                m = parse(der(m))
            d = der(m)
            index = rng.choice([None, *range(len(reqs))]) if which != "popo" else rng.randrange(len(reqs))
            arg_i = index if index is None or rng.random() < 0.7 else str(index)
            if which == "popo":
                h = rng.choice(("sha256", "sha384", "sha512"))
                if rng.random() < 0.4:
                    p = cmputils.prepare_popo_challenge_for_non_signing_key(use_encr_cert=rng.random() < 0.5)
                    pd = enc(p)

                    def put(r):
                        r.kids[1] = tlv.parse(pd)
                    check("update_popo", lambda: cmputils.update_popo(m, arg_i, popo=p), d, crm_patch(d, index, put), key="given", others=[p])
                else:
                    other = z.signer()

                    def ok(got):
                        row = tlv.parse(got).kids[1].kids[0].kids[index]
                        alg = x5.find_oid(row.kids[1].kids[0].kids[0])

                        def put(r):
                            r.kids[1] = row.kids[1]
                        return got == crm_patch(d, index, put) and alg == sig_oid(other, h) and verifies(other, row.kids[1].kids[1].val[1:], tlv.dump(row.kids[0]), alg)
                    check("update_popo", lambda: cmputils.update_popo(m, arg_i, signing_key=other, hash_alg=h), d, ok, key="signed")
            elif which == "extensions":
                e, ed = rnd_exts(rng)
                items = [tlv.dump(x) for x in tlv.parse(ed).kids]
                arg = e[0] if len(items) == 1 and rng.random() < 0.5 else e

                def put(r):
                    tpl = r.kids[0].kids[1]
                    add_to(tpl, b"\xa9", 0, items)
                check("add_extensions_to_pkimessage", lambda: cmputils.add_extensions_to_pkimessage(m, arg, arg_i), d, crm_patch(d, index, put), key=str(index is None), others=[e])
            else:
                xs = attrs(rng.randrange(1, 3))
                xd = [enc(x) for x in xs]
                arg = xs[0] if len(xs) == 1 and rng.random() < 0.5 else xs

                def put(r):
                    if which == "controls":
                        add_to(r.kids[0], b"\x30", 2, xd)
                    elif len(r.kids) > 2:
                        r.kids[2].kids.extend(tlv.parse(x) for x in xd)
                    else:
                        r.kids.append(tlv.parse(s_(*xd)))
                fn = cmputils.add_controls_to_pkimessage if which == "controls" else cmputils.add_reg_info_to_pkimessage
                check(fn.__name__, lambda: fn(m, arg, arg_i), d, crm_patch(d, index, put), key=str(index is None), others=xs)
        elif which == "append":
            m, _k = base(("nested",))
            d = der(m)
            more = [zoo.body_message(rng.choice(("ir", "rr", "certConf")), rng, z.cert(), z.key) for _ in range(rng.randrange(1, 3))]
            t = tlv.parse(d)
            t.kids[1].kids[0].kids.extend(tlv.parse(der(x)) for x in more)
            arg = more[0] if len(more) == 1 and rng.random() < 0.5 else more
            check("append_pki_message_to_nested_message", lambda: cmputils.append_pki_message_to_nested_message(m, arg), d, tlv.dump(t), others=more)
        elif which == "inner":
            m, _k = base(("nested",))
            d = der(m)
            rows = tlv.parse(d).kids[1].kids[0].kids
            i = rng.randrange(len(rows))
            check("get_inner_pkimessage", lambda: cmputils.get_inner_pkimessage(m, rng.choice((i, str(i)))), d, tlv.dump(rows[i]))
            rec.check(der(m) == d, "other:get_inner_pkimessage", "get_inner_pkimessage changed the message")
        # strings
        data = word(rng, 2, 9)
        i = rng.randrange(len(data))
        ok, s = rec.must("raised:modify_random_str", lambda: cmputils.modify_random_str(data, i))
        if ok:
            rec.check([j for j in range(len(data)) if s[j:j + 1] != data[j]] == [i] and len(s) == len(data), "patched:modify_random_str", f"modify_random_str({data!r}, {i}) gives {s!r}")
    rec.count("patchers", len(names_))


def parse_cert(raw_):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc9480
    return decoder.decode(raw_, asn1Spec=rfc9480.CMPCertificate())[0]


def jobs(tier, seed):
    n, budget = (260, 22) if tier == "quick" else (6000, 300)
    out = []
    for i in range(2):
        out.append(Job(f"requests-{i}", job_requests, rounds=n, budget=budget / 1.8))
        out.append(Job(f"bodies-{i}", job_bodies, rounds=n * 2, budget=budget))
    for i in range(3):
        out.append(Job(f"patch-{i}", job_patch, rounds=n * 3, budget=budget))
    return out
