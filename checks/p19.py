"""P19: centrally generated keys arrive intact, match their certificate, and only for the recipient."""

import datetime

from vlib import cms, tlv
from vlib.core import Job
from vlib.x5 import Cert, find_oid

RULE = ("case = one request for a centrally generated key (how the client is authenticated, kind of request, key asked for, way of asking): the reply is opened "
        "with an own CMS reader and by the suite's client validation, and the key is compared with the certificate and the request; (mechanism, what is wrong) "
        "for requests that may not be granted, for wrong recipients, and for replies with one defect, which the client validation must refuse")
REQUIRED = {"granted": 30, "own reader": 30, "works": 30, "client": 25, "wrong recipient": 100, "refused request": 20, "good reply": 12, "bad reply": 300,
            "export form": 15}
ASSUMPTIONS = ["without the field publicKey the authority chooses the algorithm",
               "for key transport, key agreement and KEM the client validation leaves the protection of the message to its caller",
               "chains of KGA certificates with post-quantum keys are not tried with validity or CA defects"]
NOTE = "own CMS reader; key material and functional comparison; model of who may ask"

CLASSIC = ["rsa", "ecdsa", "ed25519", "ed448", "x25519", "x448"]
CURVES = ["secp224r1", "secp256r1", "secp384r1", "secp521r1", "secp256k1", "brainpoolP256r1", "brainpoolP384r1"]
PQ = ["ml-dsa-44", "ml-dsa-65", "ml-dsa-87", "ml-kem-512", "ml-kem-768", "ml-kem-1024", "slh-dsa-sha2-128f", "slh-dsa-shake-128f", "slh-dsa-sha2-192f"]
SLOW = ["frodokem-640-aes", "frodokem-640-shake"]
HYBRID = ["xwing", "composite-sig-ml-dsa-44-ecdsa-secp256r1", "composite-sig-ml-dsa-44-rsa2048", "composite-sig-ml-dsa-44-rsa2048-pss",
          "composite-sig-ml-dsa-65-ed25519", "composite-sig-ml-dsa-65-ecdsa-brainpoolP256r1", "composite-sig-ml-dsa-87-ed448",
          "composite-sig-ml-dsa-87-ecdsa-secp384r1", "composite-kem-ml-kem-768-x25519", "composite-kem-ml-kem-768-rsa2048",
          "composite-kem-ml-kem-768-ecdh-secp384r1", "composite-kem-ml-kem-1024-x448", "chempat-ml-kem-768-x25519"]
# composites with RSA differ in padding only; the suite's keys do not say which
RSA_PAIRS = [{f"1.3.6.1.5.5.7.6.{i}", f"1.3.6.1.5.5.7.6.{i + 1}"} for i in (37, 41, 43)]
MECHS = ["pbm", "pbmac1", "ktri", "kari", "kem"]


def enc(obj):
    from pyasn1.codec.der import encoder
    return encoder.encode(obj)


def make(alg, rng):
    from vlib import zoo
    if alg.startswith("ec:"):
        from cryptography.hazmat.primitives.asymmetric import ec
        c = alg[3:]
        return ec.generate_private_key(getattr(ec, "BrainpoolP" + c[10:].upper() if c[0] == "b" else c.upper())())
    if alg in ("rsa", "ecdsa", "ed25519", "ed448", "ml-dsa-44"):
        return zoo.stored(alg)
    from resources.keyutils import generate_key
    if alg in ("x25519", "x448", "xwing"):
        return generate_key(alg)
    return generate_key(alg, by_name=True)


def spki_of(cert_raw):
    return Cert(cert_raw).spki


def public_bits(spki):
    return spki.kids[1].val[1:]


# -- reading a reply, on its own --------------------------------------------------------------------------
class Bad(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def read_package(content, root_certs):
    """OneAsymmetricKey node of a SignedData, after checking who signed it."""
    import hashlib
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec
    sd = tlv.parse(content)
    v, digests, encap, certs, infos = sd.kids
    need(v.val == b"\x03", "version")
    need(find_oid(encap.kids[0]) == "2.16.840.1.101.2.1.2.78.5", "content type")
    econtent = encap.kids[1].kids[0].val
    certs = [tlv.dump(c) for c in certs.kids]
    loaded = [x509.load_der_x509_certificate(c) for c in certs]
    kga = [c for c in loaded if any(e.oid.dotted_string == "2.5.29.37" and "1.3.6.1.5.5.7.3.32" in [o.dotted_string for o in e.value] for e in c.extensions)]
    need(len(kga) == 1, "one certificate of a key generation authority")
    kga = kga[0]
    info, = infos.kids
    h = {"2.16.840.1.101.3.4.2.1": "sha256", "2.16.840.1.101.3.4.2.2": "sha384", "2.16.840.1.101.3.4.2.3": "sha512"}[find_oid(digests.kids[0].kids[0])]
    need(info.kids[1].tag == b"\x80" and info.kids[1].val == kga.extensions.get_extension_for_class(x509.SubjectKeyIdentifier).value.digest, "sid")
    attrs = {find_oid(a.kids[0]): a.kids[1].kids[0] for a in info.kids[3].kids}
    need(attrs["1.2.840.113549.1.9.4"].val == hashlib.new(h, econtent).digest(), "message digest")
    kga.public_key().verify(info.kids[5].val, tlv.dump(encap), ec.ECDSA(getattr(hashes, h.upper())()))
    # to a root
    c, seen = kga, 0
    while True:
        up = [x for x in loaded + root_certs if x.subject == c.issuer]
        need(up, "issuer")
        c.verify_directly_issued_by(up[0])
        if any(x.fingerprint(hashes.SHA256()) == up[0].fingerprint(hashes.SHA256()) for x in root_certs):
            break
        c, seen = up[0], seen + 1
        need(seen < 10, "loop")
    package = tlv.parse(econtent)
    need(len(package.kids) == 1, "one key")
    return package.kids[0]


def check_key(one, spki):
    """The OneAsymmetricKey belongs to the public key; returns the key."""
    from cryptography.hazmat.primitives import serialization as ser
    need(one.kids[0].val == b"\x01", "version of the key")
    a, b = (find_oid(x) for x in (one.kids[1].kids[0], spki.kids[0].kids[0]))
    need(a == b or {a, b} in RSA_PAIRS, "algorithm of key and certificate")
    pub = [k for k in one.kids[3:] if k.tag == b"\x81"]
    if pub:
        need(pub[0].val[1:] == public_bits(spki), "public key in the package")
    oid = find_oid(one.kids[1].kids[0])
    raw = tlv.dump(one)
    if oid in ("1.2.840.113549.1.1.1", "1.2.840.10045.2.1", "1.3.101.110", "1.3.101.111", "1.3.101.112", "1.3.101.113"):
        v1 = tlv.copy(one)
        v1.kids = v1.kids[:3]
        v1.kids[0].val = b"\x00"
        key = ser.load_der_private_key(tlv.dump(v1), None)
        got = tlv.parse(key.public_key().public_bytes(ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo))
        need(public_bits(got) == public_bits(spki), "public part of the private key")
        return key
    from checks import p17
    key = p17.load_der(raw)
    got = tlv.parse(p17.spki(key.public_key()))
    need(public_bits(got) == public_bits(spki), "public part of the private key")
    return key


def works(key, cert_raw, rng):
    """The private key does what the certificate's key expects. None where there is nothing to do."""
    from vlib import zoo
    from resources.certutils import load_public_key_from_cert, parse_certificate
    pub = load_public_key_from_cert(parse_certificate(cert_raw))
    msg = zoo.rnd_bytes(rng, 40)
    if hasattr(key, "decaps") and hasattr(pub, "encaps"):
        a, b = pub.encaps()
        ss, ct = (a, b)
        return key.decaps(ct) == ss
    n = type(key).__name__
    if "X25519" in n or "X448" in n:
        other = type(key).generate() if hasattr(type(key), "generate") else None
        if other is None:
            from cryptography.hazmat.primitives.asymmetric import x448, x25519
            other = (x25519.X25519PrivateKey if "X25519" in n else x448.X448PrivateKey).generate()
        return other.exchange(pub) == key.exchange(other.public_key())
    from resources import cryptoutils
    if "HSS" in n:
        return None
    h = None if n in ("Ed25519PrivateKey", "Ed448PrivateKey") or "MLDSA" in n or "SLHDSA" in n or "Composite" in n else "sha256"
    pss = "pss" in getattr(key, "name", "")
    if "Composite" in n:
        oid = find_oid(spki_of(cert_raw).kids[0].kids[0])
        pss = str(key.get_oid(use_pss=True)) == oid if _has(lambda: key.get_oid(use_pss=True)) else False
        sig = key.sign(msg, use_pss=pss)
        pub.verify(data=msg, signature=sig, use_pss=pss)
        return True
    sig = cryptoutils.sign_data(msg, key, hash_alg=h)
    cryptoutils.verify_signature(pub, sig, msg, hash_alg=h)
    return True


def _has(fn):
    try:
        fn()
        return True
    except Exception:  # noqa: BLE001
        return False


# -- the CA -------------------------------------------------------------------------------------------------
class World:
    def __init__(self, rec):
        from vlib import ca
        self.rec, self.rng = rec, rec.rng
        self.env = ca.Env(rec)
        self.n = 0
        self.creds = {}
        self.seen = set()
        import glob
        from cryptography import x509
        self.roots = []
        for f in sorted(glob.glob("data/trustanchors/*")):
            try:
                with open(f, "rb") as fh:
                    b = fh.read()
                self.roots.append(x509.load_pem_x509_certificate(b) if b.startswith(b"-----") else x509.load_der_x509_certificate(b))
            except ValueError:
                pass

    def cn(self):
        self.n += 1
        return f"CN=P19 {self.n} {self.rng.randrange(10**9)}"

    def enrol(self, key, usage=None, kind="ir"):
        from vlib import ca
        from resources.certbuildutils import prepare_extensions
        cn = self.cn()
        kw = {"extensions": prepare_extensions(key_usage=usage)} if usage else {}
        m = ca.request(kind, key, cn, implicit_confirm=True, **kw)
        r = self.env.send(ca.mac_protect(m))
        if not self.rec.check(r.ok and len(r.certs()) == 1, "enrol", f"no certificate for {type(key).__name__} {usage}: {r.body} {r.text()}"):
            raise SystemExit
        c = ca.Cred(key, r.certs()[0], [self.env.ca_cert])
        c.cn = cn
        return c

    def cred(self, mech, fresh=False):
        """A client for a mechanism; kept for a while."""
        rng = self.rng
        if not fresh and mech in self.creds and rng.random() < 0.7:
            return self.creds[mech]
        from vlib import flows
        from cryptography.hazmat.primitives.asymmetric import ec, rsa
        from resources.certbuildutils import prepare_extensions
        if mech == "ktri":
            c = self.enrol(rsa.generate_private_key(65537, 2048), "digitalSignature,keyEncipherment")
        elif mech == "kari":
            c = self.enrol(ec.generate_private_key(ec.SECP256R1()), "digitalSignature,keyAgreement")
        elif mech == "kem":
            c, r = flows.kem_enroll(self.env, self.cn(), rng.choice(["ml-kem-512", "ml-kem-768", "ml-kem-1024"]),
                                    extensions=prepare_extensions(key_usage="keyEncipherment"))
            if not self.rec.check(c is not None, "enrol", f"no KEM certificate: {r.body} {r.text()}"):
                raise SystemExit
        self.creds[mech] = c
        return c

    def build(self, kind, cred, tmpl_key, mac, tx, implicit=True, **kw):
        """An unprotected request; kur names the credential's certificate."""
        from vlib import ca
        from resources import cmputils
        kw.setdefault("for_kga", True)
        if tx is not None:
            kw["transaction_id"] = tx
        if kind == "kur":
            if mac:
                kw.update(sender=cred.cn, for_mac=True, exclude_fields=None)
            else:
                kw["exclude_fields"] = "sender,senderKID"
            return cmputils.build_key_update_request(tmpl_key, cert=cred.cert, common_name=cred.cert["tbsCertificate"]["subject"], pvno=3, use_controls=True,
                                                     implicit_confirm=implicit, **kw)
        if mac:
            if cred is not None:
                kw["sender"] = cred.cn
        return ca.request(kind, tmpl_key, kw.pop("cn", None) or self.cn(), mac=mac, pvno=3, implicit_confirm=implicit, **kw)

    def protect(self, mech, m, cred, ss=None):
        from vlib import ca, flows
        from vlib.world import sign
        if mech == "pbm":
            return ca.mac_protect(m)
        if mech == "pbmac1":
            return ca.mac_protect(m, "pbmac1")
        if mech in ("ktri", "kari"):
            return sign(m, cred)
        return flows.kem_protect(m, ss, cred)

    def start(self, mech, cred):
        """(transaction id or None, shared secret)"""
        import os
        if mech != "kem":
            return None, None
        from vlib import flows
        tx = os.urandom(16)
        ss, r = flows.kem_secret(self.env, cred, tx)
        if not self.rec.check(ss is not None, "no-secret", f"no shared secret: {r.body} {r.text()}"):
            raise SystemExit
        return tx, ss


def pairs(resp):
    """[(certificate raw or None, EnvelopedData raw or None)] of a reply."""
    out = []
    for r in resp.msg["body"][resp.body]["response"]:
        ckp = r["certifiedKeyPair"]
        if not ckp.isValue:
            out.append((None, None))
            continue
        c = ckp["certOrEncCert"]["certificate"]
        c = tlv.dump(tlv.parse(enc(c)))
        t = tlv.parse(c)
        while t.tag != b"\x30":
            t = t.kids[0]
        env = enc(ckp["privateKey"]["envelopedData"]) if ckp["privateKey"].isValue and ckp["privateKey"].getName() == "envelopedData" else None
        out.append((tlv.dump(t), env))
    return out


def opener(w, mech, cred):
    """Own reader for a recipient: fn(envelope raw) -> content."""
    from vlib import ca

    def peer(name):
        from resources.certutils import load_public_key_from_cert
        return load_public_key_from_cert(w.env.h.protection_handler.kari_data[name + "_cert"])

    if mech in ("pbm", "pbmac1"):
        pw = ca.PASSWORD if isinstance(ca.PASSWORD, bytes) else ca.PASSWORD.encode()
        return lambda raw: cms.open_envelope(raw, pw)
    if mech == "ktri":
        return lambda raw: cms.open_envelope(raw, cred.key)
    if mech == "kari":
        return lambda raw: cms.open_envelope(raw, cred.key, peer("ecc"))
    return lambda raw: cms.open_envelope(raw, None, decaps=lambda ct, length: cred.key.decaps(ct))


def client(w, mech, cred, msg, **kw):
    from vlib import ca
    from resources import ca_kga_logic
    if mech in ("pbm", "pbmac1"):
        kw.setdefault("password", ca.PASSWORD)
    else:
        kw.setdefault("ee_key", cred.key)
        if mech == "kem":           # the recipient is compared with a certificate of the message
            kw.setdefault("cert_index", len(msg["extraCerts"]))
            msg["extraCerts"].append(cred.cert)
    if w.rng.random() < 0.5:
        kw.setdefault("expected_type", {"pbm": "pwri", "pbmac1": "pwri", "ktri": "ktri", "kem": "kemri"}.get(mech, "kari"))
    return ca_kga_logic.validate_not_local_key_gen(msg, **kw)


def attempt(fn):
    try:
        return fn()
    except Exception as e:  # noqa: BLE001
        return e


def wanted(rng, group):
    if group == "classic":
        a = rng.choice(CLASSIC + ["ec:" + c for c in CURVES])
    elif group == "pq":
        a = rng.choice(PQ * 4 + SLOW)
    else:
        a = rng.choice(HYBRID)
    return a


def job_ca(rec, group, rounds, budget):
    from vlib import ca
    from vlib.ca import Resp
    from resources import cmputils
    rng = rec.rng
    w = World(rec)
    env = w.env
    for i in range(rounds):
        if rec.elapsed() > budget:
            break
        mech = MECHS[i % len(MECHS)] if i < len(MECHS) else rng.choice(MECHS)
        cred = None if mech.startswith("pbm") else w.cred(mech)
        kind = rng.choice(["ir", "cr"] if cred is None else ["ir", "cr", "cr", "kur"])
        if mech == "kem":
            kind = rng.choice(["ir", "cr"])
        several = kind == "cr" and rng.random() < 0.3
        algs = [wanted(rng, group) for _ in range(2 if several else 1)]
        plain = several and rng.random() < 0.5        # one of two entries brings its own key
        way = rng.choice(["alg", "alg", "alg", "none"]) if not several else "alg"
        implicit = rng.random() < 0.6 or several or mech == "kem"
        keys = [make(a, rng) for a in algs]
        tx, ss = w.start(mech, cred)
        before = env.record()
        kw = {}
        if way == "none":
            from resources.certbuildutils import prepare_cert_template
            kw["cert_template"] = prepare_cert_template(None, subject=cred.cert["tbsCertificate"]["subject"] if kind == "kur" else w.cn(), for_kga=True)
        if several:
            from resources import cmputils as cu
            entries = [cu.prepare_cert_req_msg(k, common_name=w.cn(), cert_req_id=j, for_kga=True) for j, k in enumerate(keys)]
            if plain:
                from cryptography.hazmat.primitives.asymmetric import ec
                own = ec.generate_private_key(ec.SECP256R1())
                entries[0] = cu.prepare_cert_req_msg(own, common_name=w.cn(), cert_req_id=0)
            kw["cert_req_msg"] = entries
        m = w.build(kind, cred, keys[0], mech not in ("ktri", "kari"), tx, implicit, **kw)
        m = w.protect(mech, m, cred, ss)
        resp = env.send(m)
        if kind == "kur":
            w.creds.pop(mech)
        raw = env.log[-1][0]
        what = f"{mech} {kind} {'+'.join(algs)} {way}"
        art = dict(request=raw, response=resp.raw)
        rec.ev(mech, kind, *algs, way, "several" if several else "", implicit)
        if not rec.check(resp.ok and resp.body in ("ip", "cp", "kup"), "refused", f"{what}: refused ({resp.body} {resp.text()})", **art):
            continue
        rec.count("granted")
        got = pairs(resp)
        if not rec.check(len(got) == len(algs), "answers", f"{what}: {len(got)} answers", **art):
            continue
        read = opener(w, mech, cred)
        prot = resp.msg["header"]["protectionAlg"]
        for j, (cert, envelope) in enumerate(got):
            if plain and j == 0:
                rec.check(cert is not None and envelope is None, "own-key", f"{what}: a private key for a request that brought its own", **art)
                continue
            if not rec.check(cert is not None and envelope is not None, "missing", f"{what}: no certificate or no enveloped key", **art):
                continue
            spki = spki_of(cert)
            out = attempt(lambda: check_key(read_package(checked(read(envelope)), w.roots), spki))
            rec.count("own reader")
            if not rec.check(not isinstance(out, Exception), "key", f"{what}: {type(out).__name__} {out}", index=j, cert=cert, **art):
                continue
            if way == "alg":
                t = ca.parse(raw)["body"][kind][j]["certReq"]["certTemplate"]["publicKey"]["algorithm"]
                want = tlv.parse(enc(t))
                want.tag = b"\x30"
                rec.check(tlv.dump(want) == tlv.dump(spki.kids[0]), "algorithm",
                          f"{what}: the certificate of entry {j} has another algorithm than was asked for", want=tlv.dump(want), cert=cert, **art)
            ok = attempt(lambda: works(out, cert, rng))
            if ok is not None:
                rec.count("works")
                rec.check(ok is True, "works", f"{what}: the key does not fit the certificate: {ok!r:.200}", **art)
            bits = public_bits(spki)
            rec.check(bits not in w.seen, "again", f"{what}: the same key for two requests", **art)
            w.seen.add(bits)
            rec.check(public_bits_of_template(keys[j]) != bits, "own", f"{what}: not a new key", **art)
            inner = read(envelope)[1]
            for n in range(0, len(inner) - 48, max(1, len(inner) // 40)):
                if inner[n:n + 24] in resp.raw and not _public(inner[n:n + 24], cert, resp.raw, envelope):
                    rec.check(False, "clear", f"{what}: the protected package is in the message in the clear", **art)
                    break
            if mech.startswith("pbm"):
                salts = salts_of(envelope, enc(prot))
                rec.check(salts[0] != salts[1], "salt", f"{what}: the key derivation of message and key has the same salt", **art)
            if not several:
                got_key = attempt(lambda: client(w, mech, cred, Resp(resp.raw).msg))
                rec.count("client")
                rec.check(not isinstance(got_key, Exception) and _same(got_key, out), "client", f"{what}: the client validation: {got_key!r:.300}", **art)
            # nobody else opens it
            for name, fn in others(w, mech, cred, resp, j, several):
                x = attempt(fn)
                rec.ev(mech, name, counter="wrong recipient")
                rec.check(isinstance(x, Exception), "other-recipient", f"{what}: {name} opened the key", **art)
        certs = resp.certs()
        after = env.record()
        if implicit:
            for c in certs:
                rec.check(after.get(enc(c)) == "CONFIRMED" or kind == "kur", "record", f"{what}: recorded as {after.get(enc(c))}", **art)
        rec.check(len(after) == len(before) + len(certs) or kind == "kur", "record-count", f"{what}: {len(before)} -> {len(after)} records for {len(certs)} certificates", **art)
        if not implicit and kind != "kur":
            if mech.startswith("pbm"):
                conf = cmputils.build_cert_conf_from_resp(resp.msg, sender="CN=x", for_mac=True, pvno=3)
                r2 = env.send(w.protect(mech, conf, cred))
            elif mech in ("ktri", "kari"):
                conf = cmputils.build_cert_conf_from_resp(resp.msg, exclude_fields="sender,senderKID", pvno=3)
                r2 = env.send(w.protect(mech, conf, cred))
            else:
                continue
            rec.count("confirmed")
            rec.check(r2.body == "pkiconf", "conf", f"{what}: certConf answered {r2.body} {r2.text()}", request=env.log[-1][0], response=r2.raw)


def checked(pair):
    need(pair[0] == "signed", "type of the content")
    return pair[1]


def public_bits_of_template(key):
    from checks import p17
    return public_bits(tlv.parse(p17.spki(key.public_key())))


def _public(piece, cert, raw, envelope):
    """Certificates of the KGA chain and names are in the message anyway; random bytes of a key are not."""
    return piece in cert or raw.count(piece) and not piece_in_ciphertext(piece, envelope) and any(piece in c for c in extra_of(raw))


def extra_of(raw):
    t = tlv.parse(raw)
    return [tlv.dump(k) for k in t.kids if k.tag == b"\xa1"]


def piece_in_ciphertext(piece, envelope):
    return piece in envelope


def salts_of(envelope, prot):
    e = tlv.parse(envelope)
    info = e.kids[1].kids[0]
    a = info.kids[1].kids[1].kids[0].val
    p = tlv.parse(prot)
    while p.tag != b"\x30":
        p = p.kids[0]
    oid = find_oid(p.kids[0])
    params = p.kids[1]
    if oid == "1.2.840.113533.7.66.13":
        return a, params.kids[0].val
    return a, params.kids[0].kids[1].kids[0].val


def _same(a, b):
    from checks import p17
    return p17.spki(a.public_key()) == p17.spki(b.public_key())


def others(w, mech, cred, resp, j, several):
    from vlib import ca
    from vlib.ca import Resp
    rng = w.rng
    out = []
    cert, envelope = pairs(resp)[j]

    def suite(**kw):
        def fn():
            k = client(w, mech, cred, Resp(resp.raw).msg, **kw)
            return k
        return fn
    if mech.startswith("pbm"):
        pw = ca.PASSWORD if isinstance(ca.PASSWORD, bytes) else ca.PASSWORD.encode()
        i = rng.randrange(len(pw))
        for bad in (pw + b"x", pw[:-1], pw[:i] + bytes([pw[i] ^ 1]) + pw[i + 1:], b"x"):
            out.append(("another password", suite(password=bad)))
            out.append(("another password (own reader)", lambda b=bad: read_package(checked(cms.open_envelope(envelope, b)), w.roots)))
        out.append(("no password", suite(password=None)))
    else:
        from cryptography.hazmat.primitives.asymmetric import ec, rsa
        from resources.keyutils import generate_key
        if mech == "ktri":
            k = rsa.generate_private_key(65537, 2048)
        elif mech == "kari":
            k = ec.generate_private_key(ec.SECP256R1())
        else:
            k = generate_key(cred.key.name)
        out.append(("another key", suite(ee_key=k)))
        fake = ca.Cred(k, cred.cert)
        out.append(("another key (own reader)", lambda: read_package(checked(opener(w, mech, fake)(envelope)), w.roots)))
        out.append(("no key", suite(ee_key=None)))
        out.append(("the password", suite(ee_key=None, password=ca.PASSWORD)))
    return out


# -- requests that may not be granted ------------------------------------------------------------------------
def job_refused(rec, rounds, budget):
    from vlib import ca
    from vlib.world import sign
    from resources.certbuildutils import prepare_cert_template
    from resources.keyutils import generate_key
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    rng = rec.rng
    w = World(rec)
    env = w.env
    bad_creds = []
    for name, key, usage in (("rsa without keyEncipherment", rsa.generate_private_key(65537, 2048), "digitalSignature"),
                             ("rsa with keyAgreement-less usage", rsa.generate_private_key(65537, 2048), "digitalSignature,nonRepudiation"),
                             ("ec without keyAgreement", ec.generate_private_key(ec.SECP256R1()), "digitalSignature"),
                             ("ed25519", generate_key("ed25519"), "digitalSignature"), ("ed448", generate_key("ed448"), None),
                             ("ec without key usage", ec.generate_private_key(ec.SECP256R1()), None), ("ml-dsa", generate_key("ml-dsa-44"), None)):
        c = w.enrol(key, usage)
        bad_creds.append((name, c))

    def send(what, m, key, any_answer=False):
        before = env.record()
        r = env.send(m)
        rec.ev(what, r.body, counter="refused request")
        art = dict(request=env.log[-1][0], response=r.raw)
        given = r.body in ("ip", "cp", "kup") and r.ok
        rec.check(not given, key, f"{what}: granted", **art)
        rec.check(env.record() == before, key + "-record", f"{what}: the CA's records changed", **art)

    for i in range(rounds):
        if rec.elapsed() > budget:
            break
        for name, c in bad_creds:
            kind = rng.choice(["ir", "cr", "kur"])
            alg = rng.choice(["ed25519", "ecdsa", "x25519", "ml-kem-512"])
            m = w.build(kind, c, make(alg, rng), False, None)
            send(f"{name}, {kind}", sign(m, c), "recipient")
        good = w.cred("ktri")
        k = make(rng.choice(["ecdsa", "ed25519"]), rng)
        fresh = generate_key("ed25519")

        def mac(m):
            return ca.mac_protect(m)

        def template(**kw):
            return prepare_cert_template(kw.pop("key", fresh), subject=w.cn(), **kw)

        def entry(t, popo=None):
            from pyasn1_alt_modules import rfc4211
            from resources.asn1_structures import PKIMessageTMP  # noqa: F401
            x = rfc4211.CertReqMsg()
            x["certReq"]["certReqId"] = 0
            x["certReq"]["certTemplate"] = t
            if popo is not None:
                x["popo"] = popo
            return x

        kind = rng.choice(["ir", "cr"])
        send("public key without proof of possession", mac(ca.request(kind, fresh, w.cn(), pvno=3, implicit_confirm=True, cert_req_msg=entry(template()))), "no-pop")
        send("public key without proof of possession, signed",
             sign(ca.request(kind, fresh, w.cn(), mac=False, pvno=3, implicit_confirm=True, cert_req_msg=entry(template())), good), "no-pop")
        # empty public key with a proof by some key
        pop = ca.request(kind, fresh, w.cn())["body"][kind][0]["popo"]
        send("empty public key with a signature", mac(ca.request(kind, fresh, w.cn(), pvno=3, implicit_confirm=True, cert_req_msg=entry(template(for_kga=True), pop))),
             "empty-with-pop")
        # algorithm nobody knows
        from resources.prepareutils import prepare_name  # noqa: F401
        t = template(for_kga=True)
        from pyasn1.type import univ
        t["publicKey"]["algorithm"]["algorithm"] = univ.ObjectIdentifier(f"1.2.3.{rng.randrange(1, 10**6)}")
        send("unknown algorithm", mac(ca.request(kind, fresh, w.cn(), pvno=3, implicit_confirm=True, cert_req_msg=entry(t))), "unknown-algorithm")
        t = template(for_kga=True)
        t["publicKey"]["algorithm"]["algorithm"] = univ.ObjectIdentifier(rng.choice(["2.16.840.1.101.3.4.2.1", "1.2.840.113549.1.9.14", "1.2.840.10045.4.3.2",
                                                                                     "1.2.840.113533.7.66.13", "2.5.29.15"]))
        send("algorithm of something else", mac(ca.request(kind, fresh, w.cn(), pvno=3, implicit_confirm=True, cert_req_msg=entry(t))), "unknown-algorithm")
        if hasattr(k, "curve"):
            t2 = template(key=k, for_kga=True)
            t2["publicKey"]["algorithm"] = _alg_without(t2, enc)
            send("elliptic curve without the curve", mac(ca.request(kind, fresh, w.cn(), pvno=3, implicit_confirm=True, cert_req_msg=entry(t2))), "no-curve")
        send("unprotected", w.build(kind, None, fresh, True, None, sender="CN=x"), "unprotected")
        send("wrong password", ca.mac_protect(w.build(kind, None, fresh, True, None, sender="CN=x"), "password_based_mac", b"wrong"), "wrong-password")
        m = w.build("kur", good, fresh, True, None)
        send("kur by password", ca.mac_protect(m), "kur-mac")
        stranger = _stranger(w, rng)
        send("unknown client", sign(w.build(kind, None, fresh, False, None), stranger), "stranger")


def _alg_without(t, enc_):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc9480
    n = tlv.parse(enc_(t["publicKey"]["algorithm"]))
    n.kids = n.kids[:1]
    n.tag = b"\x30"
    return decoder.decode(tlv.dump(n), rfc9480.AlgorithmIdentifier())[0]


def _stranger(w, rng):
    from checks.p18 import Ca
    from cryptography.hazmat.primitives.asymmetric import rsa
    from vlib import ca
    own = Ca(rng, "ecdsa")
    k = rsa.generate_private_key(65537, 2048)
    return ca.Cred(k, own.issue(k, key_usage="digitalSignature,keyEncipherment", ski=True), [own.cert])


# -- the client validation against replies with one defect -----------------------------------------------------
class Maker:
    """Builds replies of an own CA and KGA, with the suite's server functions."""

    def __init__(self, rec, mech):
        from checks.p18 import Ca, anchors, ec_key, kga_opts
        from cryptography.hazmat.primitives.asymmetric import rsa
        from vlib import zoo
        self.rec, self.rng, self.mech = rec, rec.rng, mech
        self.ca = Ca(self.rng, "ecdsa")
        self.other_ca = Ca(self.rng, "ecdsa")
        self.other_ca.key = ec_key("secp256r1")
        self.other_ca.cert = self.other_ca.issue(self.other_ca.key, ski=True, is_ca=True, key_usage="keyCertSign", root=True)
        self.trust = anchors("p19-" + mech, [self.ca.cert])
        self.kga_key = ec_key("secp256r1")
        self.kga = self.ca.issue(self.kga_key, ski=True, **kga_opts())
        self.password = zoo.rnd_bytes(self.rng, 20) + b"x"
        self.prot_key = ec_key("secp256r1")
        self.prot = self.ca.issue(self.prot_key, ski=True, key_usage="digitalSignature,keyAgreement")
        if mech == "ktri":
            self.key = rsa.generate_private_key(65537, 2048)
            self.other_key = rsa.generate_private_key(65537, 2048)
        elif mech == "kari":
            self.key, self.other_key = ec_key("secp256r1"), ec_key("secp256r1")
        elif mech == "kemri":
            from resources.keyutils import generate_key
            self.key, self.other_key = generate_key("ml-kem-512"), generate_key("ml-kem-512")
            self.prot = self.ca.issue(self.key, ski=True)
        else:
            self.key = self.other_key = None

    def info(self, cek, to=None, prot=None):
        from resources import envdatautils
        to = to or self.key
        prot = prot or self.prot
        if self.mech == "ktri":
            return envdatautils.prepare_ktri(ee_key=to.public_key(), cek=cek, cmp_protection_cert=prot)
        if self.mech == "kari":
            return envdatautils.parse_recip_info(envdatautils.prepare_kari(public_key=to.public_key(), sender_private_key=self.prot_key, cek=cek,
                                                                          cmp_protection_cert=prot))
        if self.mech == "kemri":
            return envdatautils.parse_recip_info(envdatautils.prepare_kem_recip_info(public_key_recip=to.public_key(), cek=cek, recip_cert=prot))
        return envdatautils.parse_recip_info(envdatautils.prepare_password_recipient_info(password=self.password if to is None else to, cek=cek))

    def message(self, new, cert=None, package=None, info=None, kga=None, chain=None, signer=None, pvno=3, password=None, prot=None, bad_sig=False,
                content=None, raw=False, infos=None, prot_salt=None, extra=None):
        """A reply with a centrally generated key."""
        import os
        from resources import ca_ra_utils, cmputils, envdatautils, protectionutils
        from vlib import zoo
        cek = zoo.rnd_bytes(self.rng, 32)
        kga = kga or self.kga
        cert = cert if cert is not None else self.ca.issue(new)
        if content is None:
            sd = envdatautils.prepare_signed_data(signer or self.kga_key, kga, sig_hash_name=None, private_keys=package if package is not None else self.one(new),
                                                  cert_chain=chain or [kga, self.ca.cert], bad_sig=bad_sig)
            content = enc(sd)
        env = envdatautils.prepare_enveloped_data(recipient_infos=infos(cek) if infos else [info(cek) if info else self.info(cek, prot=prot)],
                                                  data_to_protect=content, cek=cek, **({"enc_oid": _data_oid()} if raw else {}))
        resp = ca_ra_utils.prepare_cert_response(cert=cert, private_key=env, cert_req_id=0)
        mac = self.mech == "pwri"
        m = cmputils.prepare_pki_message(pvno=pvno, sender="CN=CA", recipient="CN=EE", transaction_id=os.urandom(16), sender_nonce=os.urandom(16),
                                         **({"for_mac": True} if mac else {}))
        m["body"] = ca_ra_utils.prepare_ca_body("ip", responses=resp)
        from vlib.ca import der, parse
        if mac:
            m = protectionutils.protect_pkimessage(m, self.rng.choice(["password_based_mac", "pbmac1"]), password=password or self.password,
                                                   **({"salt": prot_salt} if prot_salt else {}))
        else:
            p = extra or prot or self.prot
            m = cmputils.patch_extra_certs(m, [p, self.ca.cert])
        return parse(der(m))

    def one(self, key, **kw):
        from resources.keyutils import prepare_one_asymmetric_key
        kw.setdefault("version", "v2")
        return prepare_one_asymmetric_key(private_key=key, **kw)

    def read(self, m, **kw):
        from resources import ca_kga_logic
        if self.mech == "pwri":
            kw.setdefault("password", self.password)
        else:
            kw.setdefault("ee_key", self.key)
        if self.rng.random() < 0.5:
            kw.setdefault("expected_type", self.mech)
        kw.setdefault("trustanchors", self.trust)
        return ca_kga_logic.validate_not_local_key_gen(m, **kw)


def _data_oid():
    from pyasn1_alt_modules import rfc5652
    return rfc5652.id_data


def job_client(rec, mech, rounds, budget):
    from checks.p18 import ec_key, forged_cert, kga_opts
    from vlib import zoo
    from vlib.ca import der, parse
    from resources import ca_ra_utils
    from resources.certbuildutils import prepare_validity
    rng = rec.rng
    k = Maker(rec, mech)

    def new_key(alg=None):
        return make(alg or rng.choice(CLASSIC[:5] + ["ec:secp384r1", "ml-dsa-44", "ml-kem-512", "ml-kem-768", "xwing", "composite-kem-ml-kem-768-x25519"]), rng)

    def fresh(alg):
        from resources.keyutils import generate_key
        if alg.startswith("ec:"):
            return make(alg, rng)
        return generate_key(alg) if "-" not in alg or alg == "xwing" else generate_key(alg, by_name=True)

    def refuse(what, m, key="bad-reply", **kw):
        rec.ev(mech, what, counter="bad reply")
        got = attempt(lambda: k.read(m, **kw))
        rec.check(isinstance(got, Exception), key, f"{mech}: {what} accepted", reply=der(m))

    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        alg = rng.choice(CLASSIC[1:5] + ["ecdsa", "ec:secp384r1", "ml-dsa-44", "ml-kem-512", "ml-kem-768", "xwing", "composite-kem-ml-kem-768-x25519",
                                         "composite-sig-ml-dsa-44-ecdsa-secp256r1"])
        new, second = fresh(alg), fresh(alg)
        foreign = fresh(rng.choice([a for a in ("ed25519", "x25519", "ml-kem-512", "ecdsa") if a != alg]))
        m = k.message(new)
        got = attempt(lambda: k.read(m))
        rec.ev(mech, alg, counter="good reply")
        if not rec.check(not isinstance(got, Exception) and _same(got, new), "good-reply", f"{mech} {alg}: a correct reply is refused: {got!r:.300}", reply=der(m)):
            continue
        if not alg.startswith(("e", "x2", "x4", "r")):
            for form in ("seed", "raw", "seed_and_raw"):
                if alg.startswith(("composite", "xwing")) and form != "seed":
                    continue
                m2 = k.message(new, package=k.one(new, key_save_type=form))
                for asked in ("seed", "raw", "seed_and_raw"):
                    if alg.startswith("composite"):
                        continue
                    got = attempt(lambda: k.read(m2, key_save_type=asked))
                    rec.ev(mech, alg, form, asked, counter="export form")
                    rec.check((not isinstance(got, Exception)) == (form == asked), "export-form", f"{mech} {alg}: {form} read as {asked}: {got!r:.200}", reply=der(m2))
        # key and certificate
        good_cert = k.ca.issue(new)
        refuse("certificate of another key", k.message(new, cert=k.ca.issue(second)), "other-key")
        refuse("certificate of a key of another type", k.message(new, cert=k.ca.issue(foreign)), "other-key")
        refuse("package with another key", k.message(new, cert=good_cert, package=k.one(second)), "other-key")
        refuse("package with a key of another type", k.message(new, cert=good_cert, package=k.one(foreign)), "other-key")
        one = k.one(new)
        two = k.one(second)
        t1, t2 = tlv.parse(enc(one)), tlv.parse(enc(two))
        from pyasn1.codec.der import decoder
        from pyasn1_alt_modules import rfc5958

        def pkg(node):
            return decoder.decode(tlv.dump(node), rfc5958.OneAsymmetricKey())[0]
        x = tlv.copy(t1)
        for i in range(3, len(x.kids)):
            if x.kids[i].tag == b"\x81":
                x.kids[i] = tlv.copy([q for q in t2.kids if q.tag == b"\x81"][0])
                refuse("public key of another key in the package", k.message(new, cert=good_cert, package=pkg(x)), "mismatch")
        x = tlv.copy(t1)
        x.kids[2] = tlv.copy(t2.kids[2])
        if any(q.tag == b"\x81" for q in x.kids):
            refuse("private key of another key in the package", k.message(new, cert=good_cert, package=pkg(x)), "mismatch")
            refuse("private key of another key in the package, its certificate", k.message(new, cert=k.ca.issue(second), package=pkg(x)), "mismatch")
        x = tlv.copy(t1)
        x.kids[0].val = b"\x00"
        refuse("version 1", k.message(new, cert=good_cert, package=pkg(x)), "version")
        x = tlv.copy(t1)
        x.kids[0].val = bytes([rng.randrange(2, 9)])
        refuse("version unknown", k.message(new, cert=good_cert, package=pkg(x)), "version")
        x = tlv.copy(t1)
        x.kids[1] = tlv.copy(tlv.parse(enc(k.one(foreign))).kids[1])
        refuse("algorithm of another key", k.message(new, cert=good_cert, package=pkg(x)), "algorithm")
        x = tlv.copy(t1)
        x.kids[2].val = x.kids[2].val + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20)))
        refuse("longer private key", k.message(new, cert=good_cert, package=pkg(x)), "size")
        x = tlv.copy(t1)
        x.kids[2].val = x.kids[2].val[:-rng.randrange(1, 5)]
        refuse("shorter private key", k.message(new, cert=good_cert, package=pkg(x)), "size")
        refuse("two keys", k.message(new, cert=good_cert, package=[one, two]), "several")
        # the suite's own wrong packages
        for op in ("invalid_private_key_size", "invalid_public_key_size", "invalid_key_pair", "invalid_version_v1", "invalid_version"):
            bad = attempt(lambda: ca_ra_utils.prepare_invalid_kga_private_key(op, new))
            if isinstance(bad, Exception):
                rec.check(False, "generator", f"{alg}: {op} cannot be made: {bad!r:.200}")
                continue
            refuse(f"generator {op}", k.message(new, cert=good_cert, package=bad), "generator-" + op)
        # message
        refuse("version 2 of the message", k.message(new, pvno=2), "pvno")
        # who signed
        refuse("bad signature", k.message(new, bad_sig=True), "signature")
        refuse("signed by another key", k.message(new, signer=ec_key("secp256r1")), "signature")
        plain = k.ca.issue(k.kga_key, ski=True, key_usage="digitalSignature")
        refuse("not a key generation authority", k.message(new, kga=plain), "kga")
        refuse("another extended key usage", k.message(new, kga=k.ca.issue(k.kga_key, ski=True, key_usage="digitalSignature", eku=rng.choice(["cmcRA", "cmcCA"]))), "kga")
        bad = k.other_ca.issue(k.kga_key, ski=True, **kga_opts())
        refuse("unknown root", k.message(new, kga=bad, chain=[bad, k.other_ca.cert]), "kga")
        refuse("another root in the chain", k.message(new, kga=bad, chain=[bad, k.ca.cert]), "kga")
        refuse("changed certificate", k.message(new, kga=forged_cert(k.kga, rng)), "kga")
        refuse("without the root", k.message(new, chain=[k.kga]), "kga")
        now = datetime.datetime.now(datetime.timezone.utc)
        v = prepare_validity(now - datetime.timedelta(days=40), now - datetime.timedelta(days=1))
        refuse("expired", k.message(new, kga=k.ca.issue(k.kga_key, ski=True, validity=v, **kga_opts())), "kga")
        from checks.p18 import anchors
        refuse("root not trusted", k.message(new), "kga", trustanchors=anchors("p19-no-" + mech, [k.other_ca.cert]))
        # the envelope
        refuse("content is not a signed package", k.message(new, content=enc(one)), "content")
        refuse("content is random", k.message(new, content=zoo.rnd_bytes(rng, 200)), "content")
        refuse("content type data", k.message(new, raw=True), "content")
        refuse("two recipients", k.message(new, infos=lambda cek: [k.info(cek), k.info(cek)]), "recipients")
        if mech == "pwri":
            refuse("message protected with another password", k.message(new, password=b"another" + k.password), "protection")
            refuse("another password in the envelope", k.message(new, info=lambda cek: k.info(cek, to=b"y" + k.password)), "recipient")
            m2 = parse(der(m))
            m2["header"]["messageTime"] = m2["header"]["messageTime"]
            from resources.protectionutils import prepare_pki_protection_field
            p = bytes(m2["protection"].asOctets())
            m2["protection"] = prepare_pki_protection_field(tlv.flip(p, rng))
            refuse("bad protection", m2, "protection")
            from resources import cmputils
            m2 = cmputils.patch_sendernonce(parse(der(m)), sender_nonce=zoo.rnd_bytes(rng, 16))
            refuse("changed message", m2, "protection")
            refuse("salt of the message in the envelope", same_salt(k, new), "salt")
        else:
            refuse("envelope for another key", k.message(new, info=lambda cek: k.info(cek, to=k.other_key)), "recipient")
            if mech != "kemri":
                stranger = k.ca.issue(ec_key("secp256r1"), ski=True, key_usage="digitalSignature,keyAgreement")
                refuse("recipient identifier of another certificate", k.message(new, info=lambda cek: k.info(cek, prot=stranger)), "identifier")
        if mech == "kari":
            no = k.ca.issue(k.prot_key, ski=True, key_usage="digitalSignature")
            refuse("sender may not agree on keys", k.message(new, prot=no), "kari-usage")
        # every value of the envelope
        other = k.message(second)
        m2 = parse(der(m))
        m2["body"]["ip"]["response"][0]["certifiedKeyPair"]["privateKey"] = other["body"]["ip"]["response"][0]["certifiedKeyPair"]["privateKey"]
        refuse("private key of another reply", reprotect(k, m2), "other-key")


def reprotect(k, m):
    from resources import protectionutils
    from vlib.ca import der, parse
    if k.mech != "pwri":
        return parse(der(m))
    return parse(der(protectionutils.protect_pkimessage(m, "password_based_mac", password=k.password)))


def same_salt(k, new):
    from vlib import zoo
    from resources import envdatautils
    salt = zoo.rnd_bytes(k.rng, 16)
    return k.message(new, prot_salt=salt,
                     info=lambda cek: envdatautils.parse_recip_info(envdatautils.prepare_password_recipient_info(password=k.password, cek=cek, salt=salt)))


def jobs(tier, seed):
    big = tier == "thorough"
    b = 700 if big else 34
    out = []
    for i in range(3 if big else 2):
        out.append(Job(f"ca/classic-{i}", job_ca, group="classic", rounds=400 if big else 22, budget=b, timeout=3000))
    out.append(Job("ca/pq", job_ca, group="pq", rounds=200 if big else 12, budget=b, timeout=3000))
    for i in range(2):
        out.append(Job(f"ca/hybrid-{i}", job_ca, group="hybrid", rounds=200 if big else 10, budget=b, timeout=3000))
    out.append(Job("refused", job_refused, rounds=60 if big else 3, budget=b, timeout=3000))
    for m in ("pwri", "ktri", "kari", "kemri"):
        out.append(Job(f"client/{m}", job_client, mech=m, rounds=60 if big else 7, budget=b, timeout=3000))
    return out
