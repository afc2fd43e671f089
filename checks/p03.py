"""P03: an issued certificate is exactly what was requested, under the CA's key."""

from vlib.core import Job

RULE = ("case = (request type, key type, requested extension set with criticality, shape of the subject, validity fields "
        "asked for, number of entries); each request is built as DER, answered by the real CA, and every returned "
        "certificate is compared field by field with the DER of its request entry; the signature is verified with the "
        "CA's key outside the suite")
ASSUMPTIONS = ["the CA may add SubjectKeyIdentifier, AuthorityKeyIdentifier, AuthorityInfoAccess, CRLDistributionPoints and "
               "IssuingDistributionPoint; extensions of PKCS#10 requests are not permitted ones; the CA may "
               "correct the criticality of SubjectAltName and KeyUsage to what RFC 5280 recommends",
               "centrally generated keys are P19's, hybrid certificate methods P22's"]
REQUIRED = {"certificates": 100, "extensions compared": 60, "multi-entry": 8, "kind ir": 15, "kind cr": 15, "kind p10cr": 10,
            "kind kur": 2, "encrypted": 4, "validity asked": 15, "refused bad": 5}
CA_EXTS = {"2.5.29.14", "2.5.29.35", "1.3.6.1.5.5.7.1.1", "2.5.29.31", "2.5.29.28"}


def workload(rec, ca_alg, budget, slow=False):
    import hashlib
    from datetime import datetime, timedelta, timezone
    from cryptography import x509
    from vlib import ca, msg, tlv, x5, zoo
    from vlib.ca import Cred, Env, der
    from vlib.msg import M
    from vlib.world import sign
    from vlib.x5 import Cert, crm_der, seq
    from resources import cmputils, convertutils, cryptoutils
    from resources.certbuildutils import build_certificate
    from resources.extra_issuing_logic import get_enc_cert_from_pkimessage
    from resources.keyutils import generate_key
    from resources.prepare_alg_ids import prepare_sig_alg_id
    rng = rec.rng
    kw = {}
    if ca_alg != "default":
        kw["ca_key"] = generate_key("ec", curve="secp384r1") if ca_alg == "ec" else zoo.stored(ca_alg)
        kw["ca_cert"], _ = build_certificate(private_key=kw["ca_key"], common_name="CN=Other CA,O=Org", is_ca=True,
                                             include_ski=True)
    env = Env(rec, **kw)
    ca_raw = der(env.ca_cert)
    ca_c = Cert(ca_raw)
    ca_ski = x5.ext_parts(ca_c.extension(x5.SKI))[2] if ca_c.extension(x5.SKI) else None
    ca_pub = None if ca_alg.startswith("ml-") else x509.load_der_x509_certificate(ca_raw)
    serials = {}
    n = [0]
    live = []  # (Cred, subject node) confirmed certificates, for key updates

    def verify_by_ca(raw):
        """The CA's signature, outside the suite where a library can."""
        if ca_pub is not None:
            try:
                # the certificate's own key may be one the library does not know: verify the bytes
                c = Cert(raw)
                from cryptography.hazmat.primitives import hashes
                from cryptography.hazmat.primitives.asymmetric import ec, padding
                k = env.h.ca_key.public_key()
                data = tlv.dump(c.tbs)
                name = type(k).__name__
                alg = x5.find_oid(c.alg.kids[0])
                h = {"1.2.840.113549.1.1.11": hashes.SHA256, "1.2.840.10045.4.3.2": hashes.SHA256,
                     "1.2.840.10045.4.3.3": hashes.SHA384, "1.2.840.10045.4.3.4": hashes.SHA512,
                     "1.2.840.113549.1.1.10": hashes.SHA256}.get(alg, hashes.SHA256)()
                if "25519" in name or "448" in name:
                    k.verify(c.sig, data)
                elif "RSA" in name:
                    pad = padding.PSS(padding.MGF1(h), padding.PSS.AUTO) if alg.endswith(".10") else padding.PKCS1v15()
                    k.verify(c.sig, data, pad, h)
                else:
                    k.verify(c.sig, data, ec.ECDSA(h))
                return True
            except Exception:  # noqa
                return False
        from pq_logic.fips.fips204 import ML_DSA
        c = Cert(raw)
        name = {"17": "ML-DSA-44", "18": "ML-DSA-65", "19": "ML-DSA-87"}[x5.find_oid(c.alg.kids[0]).split(".")[-1]]
        return ML_DSA(name).verify(ca_c.key_bits(), tlv.dump(c.tbs), c.sig, b"")

    def spki_of(key):
        return tlv.parse(der(convertutils.subject_public_key_info_from_pubkey(key.public_key())))

    def newkey():
        r = rng.choice(["ec"] * 5 + ["ed25519", "ed448", "rsa", "ml-dsa-44", "composite"] + (["slh"] if slow else []))
        if r == "ec":
            return r, generate_key("ec", curve=rng.choice(["secp256r1", "secp384r1", "secp521r1", "brainpoolP256r1"]))
        if r == "rsa":
            return r, generate_key("rsa", length=2048)
        if r == "composite":
            return r, generate_key(rng.choice(["composite-sig-ml-dsa-44-ed25519", "composite-sig-ml-dsa-65-ecdsa-secp256r1"]),
                                   by_name=True)
        if r == "slh":
            return r, generate_key("slh-dsa-sha2-128f", by_name=True)
        return r, generate_key(r)

    def signer(kt, key):
        h = "sha256" if kt in ("ec", "rsa") else None
        alg = tlv.parse(der(prepare_sig_alg_id(key, hash_alg=h)))
        return {"sign": lambda data: cryptoutils.sign_data(data, key, hash_alg=h), "alg_id": alg}

    def unique():
        n[0] += 1
        return f"p03-{n[0]}-{rng.randrange(10**6)}"

    def rnd_exts(spki, kt):
        """Requested extensions: consistent ones, each with a random criticality where both are allowed."""
        out = []
        is_ca = rng.random() < 0.25
        if rng.random() < 0.6:
            pool = ["digitalSignature", "nonRepudiation"] + {"rsa": ["keyEncipherment", "dataEncipherment"],
                                                             "ec": ["keyAgreement"]}.get(kt, [])
            names = rng.sample(pool, rng.randrange(1, len(pool) + 1))
            if is_ca:
                names += ["keyCertSign"] + (["cRLSign"] if rng.random() < 0.5 else [])
            out.append(x5.ext(x5.KU, x5.key_usage_bits(names), rng.random() < 0.8))
        if rng.random() < 0.4:
            eku = seq(*[x5.oid(o) for o in rng.sample(x5.EKUS, rng.randrange(1, 4))])
            out.append(x5.ext(x5.EKU, eku, rng.random() < 0.3))
        if rng.random() < 0.5:
            out.append(x5.ext(x5.SAN, seq(*[x5.general_name(rng) for _ in range(rng.randrange(1, 4))]), rng.random() < 0.2))
        if is_ca or rng.random() < 0.2:
            kids = [x5.boolean(True)] if is_ca else []
            if is_ca and rng.random() < 0.5:
                kids.append(msg.integer(rng.randrange(1, 5)))
            out.append(x5.ext(x5.BC, seq(*kids), True))
        if rng.random() < 0.2:
            out.append(x5.ext(x5.SKI, msg.octets(hashlib.sha1(spki.kids[1].val[1:]).digest()), False))
        if rng.random() < 0.15 and ca_ski:
            out.append(x5.ext(x5.AKI, seq(x5.prim(0, tlv.parse(ca_ski).val)), False))
        rng.shuffle(out)
        return out

    def rnd_validity():
        r = rng.random()
        now = datetime.now(timezone.utc).replace(microsecond=0)
        if r < 0.5:
            return None
        nb = now - timedelta(seconds=rng.randrange(60, 9 * 86400))
        na = now + timedelta(seconds=rng.randrange(3600, rng.choice((86400, 400 * 86400, 40 * 365 * 86400))))
        return (nb, na) if r < 0.8 else (nb, None) if r < 0.9 else (None, na)

    def entry(i=0, **fixed):
        kt, key = fixed.pop("key", None) or newkey()
        spki = spki_of(key)
        exts = rnd_exts(spki, kt)
        empty = rng.random() < 0.06 and any(x5.ext_parts(e)[0] == x5.SAN for e in exts)
        e = {"kt": kt, "key": key, "spki": spki, "exts": exts, "validity": rnd_validity(),
             "subject": seq() if empty else x5.rnd_name(rng, unique())}
        e.update(fixed)
        # the suite re-encodes what it verifies, which drops an empty subject: leave the field out instead
        extra = {}
        if rng.random() < 0.2:
            extra["version"] = 2
        if rng.random() < 0.1:
            extra["issuer"] = x5.simple_name("somebody else")
        e["node"] = crm_der(rng, key, e["subject"] if e["subject"].kids else None, i, spki=spki, exts=e["exts"], validity=e["validity"],
                            controls=e.get("controls"), **extra, **signer(kt, key))
        return e

    def p10(e):
        a = []
        if e["exts"]:
            a = [seq(x5.oid("1.2.840.113549.1.9.14"), x5.set_(seq(*e["exts"])))]
        cri = seq(msg.integer(0), e["subject"], e["spki"], tlv.Node(b"\xa0", True, kids=a))
        s = signer(e["kt"], e["key"])
        return seq(cri, s["alg_id"], msg.bits(s["sign"](tlv.dump(cri))))

    def shell(kind, body, subject_key, old=None):
        """A complete message of the kind around the body node."""
        k = generate_key("ec", curve="secp256r1")
        if kind == "kur":
            m = M(der(cmputils.patch_sender(cmputils.build_key_update_request(k, cert=old.cert, hash_alg="sha256",
                                                                            implicit_confirm=True), cert=old.cert)))
        else:
            m = M(der(ca.request(kind, k, "CN=whoever", implicit_confirm=True)))
        m.body = body
        p = ca.parse(m.der())
        return der(sign(p, old)) if old is not None else der(ca.mac_protect(p))

    # -- the oracle -----------------------------------------------------------------------------------
    def judge(kind, e, raw, req, t0, t1, what):
        c = Cert(raw)
        art = dict(request=req, certificate=raw)

        def bad(cond, key, text):
            rec.check(cond, f"{key}", f"{what}: {text}", **art)
        bad(tlv.dump(c.spki) == tlv.dump(e["spki"]), "public-key", "the certificate is for another public key")
        bad(tlv.dump(c.subject) == tlv.dump(e["subject"]), "subject",
            f"the subject differs: {tlv.dump(c.subject).hex()} instead of {tlv.dump(e['subject']).hex()}")
        bad(tlv.dump(c.issuer) == tlv.dump(ca_c.subject), "issuer", "the issuer is not the CA")
        bad(c.version == 2, "version", f"version {c.version}")
        bad(tlv.dump(c.alg) == tlv.dump(c.tbs_alg), "signature-algorithm", "the two algorithm identifiers differ")
        bad(verify_by_ca(raw), "signature", "the CA's signature does not verify")
        bad(0 < c.serial < 1 << 159, "serial-range", f"serial number {c.serial}")
        bad(c.serial not in serials, "serial-reused", "another certificate has this serial number")
        serials[c.serial] = raw
        nb, na = c.times()
        want = e["validity"] or (None, None)
        if kind == "p10cr":
            want = (None, None)
        if want[0] is not None:
            bad(nb == want[0], "not-before", f"notBefore {nb} instead of {want[0]}")
        if want[1] is not None:
            bad(na == want[1], "not-after", f"notAfter {na} instead of {want[1]}")
        bad(nb <= t1 + timedelta(seconds=1) and na > t1, "validity", f"not inside its validity period: {nb} .. {na}, now {t1}")
        if e["validity"] and kind != "p10cr":
            rec.count("validity asked")
        have = [x5.ext_parts(x) for x in c.exts]
        ids = [o for o, _, _ in have]
        bad(len(ids) == len(set(ids)), "extension-twice", f"extensions {ids}")
        asked = {o: (crit, v) for o, crit, v in map(x5.ext_parts, e["exts"])}
        got = {o: (crit, v) for o, crit, v in have}
        for o, (crit, v) in got.items():
            if o in asked:
                rec.count("extensions compared")
                bad(v == asked[o][1], f"extension-value:{o}", f"extension {o}: {v.hex()} instead of {asked[o][1].hex()}")
                # the CA corrects the criticality of these to what RFC 5280 recommends
                fine = {x5.SAN: not e["subject"].kids, x5.KU: True}.get(o)
                bad(crit in (asked[o][0], fine), f"extension-critical:{o}", f"extension {o}: critical {crit}")
            else:
                bad(o in CA_EXTS, f"extension-added:{o}", f"extension {o} was not asked for: {v.hex()}")
        if kind != "p10cr":
            for o in asked:
                bad(o in got, f"extension-dropped:{o}", f"extension {o} was asked for and is missing")
        if x5.SKI in got:
            s = tlv.parse(got[x5.SKI][1]).val
            bad(s == hashlib.sha1(c.key_bits()).digest(), "ski", "SubjectKeyIdentifier is not that of the key")
        if x5.AKI in got and ca_ski:
            k = tlv.parse(got[x5.AKI][1]).kids
            bad(any(x.tag == b"\x80" and x.val == tlv.parse(ca_ski).val for x in k), "aki", "AuthorityKeyIdentifier is not the CA's")
        rec.ev(kind, e["kt"], tuple(sorted((o, cr) for o, (cr, _) in asked.items())), len(e["subject"].kids),
               tuple(v is not None for v in want), counter="certificates")

    def exchange(kind, entries, old=None):
        body = p10(entries[0]) if kind == "p10cr" else seq(*[e["node"] for e in entries])
        req = shell(kind, body, entries[0]["key"], old)
        before = env.record()
        t0 = datetime.now(timezone.utc)
        resp = env.send(req)
        t1 = datetime.now(timezone.utc)
        after = env.record()
        what = f"{kind} x{len(entries)} {[e['kt'] for e in entries]}"
        return req, resp, before, after, t0, t1, what

    def accept(kind, entries, old=None, ids=None):
        req, resp, before, after, t0, t1, what = exchange(kind, entries, old)
        art = dict(request=req, response=resp.raw)
        if not rec.check(resp.ok, f"refused:{kind}:{'multi' if len(entries) > 1 else entries[0]['kt']}",
                         f"{what} was refused: {resp.body} {resp.statuses()} {resp.text()}", **art):
            return []
        rec.count(f"kind {kind}")
        rs = resp.msg["body"][resp.body]["response"]
        got_ids = [int(r["certReqId"]) for r in rs]
        want_ids = [-1] if kind == "p10cr" else (ids or list(range(len(entries))))
        rec.check(got_ids == want_ids, "request-ids", f"{what}: certReqIds {got_ids} instead of {want_ids}", **art)
        if len(entries) > 1:
            rec.count("multi-entry")
        certs = [der(c) for c in resp.certs()]
        if not rec.check(len(certs) == len(entries), "certificates-missing", f"{what}: {len(certs)} certificates", **art):
            return []
        for e, raw in zip(entries, certs):
            judge(kind, e, raw, req, t0, t1, what)
        new = set(after) - set(before)
        rec.check(new == set(certs), "record", f"{what}: the CA's record gained {len(new)} certificates, not those returned", **art)
        return resp.certs()

    def refuse(kind, e, label):
        req, resp, before, after, t0, t1, what = exchange(kind, [e])
        rec.count("refused bad")
        rec.check(not resp.ok and set(after) == set(before), f"issued:{label}",
                  f"{kind} with {label} was not refused: {resp.body} {resp.statuses()}", request=req, response=resp.raw)

    def encrypted():
        """A KEM key: the certificate comes encrypted for it."""
        alg = rng.choice(["ml-kem-512", "ml-kem-768", "ml-kem-1024", "xwing"])
        key = generate_key(alg)
        e = {"kt": alg, "key": key, "spki": spki_of(key), "exts": [], "validity": rnd_validity(),
             "subject": x5.rnd_name(rng, unique())}
        e["node"] = crm_der(rng, key, e["subject"], 0, spki=e["spki"], validity=e["validity"],
                            popo=x5.tagged(2, x5.prim(1, b"\x00")))
        kind = rng.choice(("ir", "cr"))
        req, resp, before, after, t0, t1, what = exchange(kind, [e])
        if not rec.check(resp.ok, f"refused:{kind}:kem", f"{what} was refused: {resp.text()}", request=req, response=resp.raw):
            return
        ok, cert = rec.must("decrypt", get_enc_cert_from_pkimessage, resp.msg, ee_private_key=key, server_cert=env.ca_cert,
                            exclude_rid_check=True)
        if ok:
            raw = der(ca.recode_cert(cert))
            rec.count("encrypted")
            judge(kind, e, raw, req, t0, t1, what)
            new = set(after) - set(before)
            rec.check(new == {raw}, "record", f"{what}: the CA's record differs from the certificate returned", request=req)

    now = datetime.now(timezone.utc).replace(microsecond=0)
    while rec.elapsed() < budget:
        r = rng.random()
        if r < 0.12:
            m = rng.choice((2, 2, 3, 4))
            ids = rng.sample(range(m), m)
            accept("cr", [entry(i) for i in ids], ids=ids)
        elif r < 0.22:
            encrypted()
        elif r < (0.5 if live and rng.random() < 0.5 else 0.3) and live and ca_alg == "default":
            old, subj = live.pop(rng.randrange(len(live)))
            m = M(der(cmputils.patch_sender(cmputils.build_key_update_request(
                generate_key("ec", curve="secp256r1"), cert=old.cert, hash_alg="sha256"), cert=old.cert)))
            controls = next((k for k in m.crm().cert_req.kids[2:]), None)
            accept("kur", [entry(0, subject=subj, controls=controls)], old=old)
        elif r < 0.42:
            label, fixed = rng.choice([
                ("a validity that is over", {"validity": (now - timedelta(days=5), now - timedelta(days=1))}),
                ("an inverted validity", {"validity": (now + timedelta(days=5), now + timedelta(days=2))}),
                ("a too early notBefore", {"validity": (now - timedelta(days=900), now + timedelta(days=2))}),
                ("a foreign SubjectKeyIdentifier", {"exts": [x5.ext(x5.SKI, msg.octets(b"\x01" * 20))]}),
                ("an unknown extension", {"exts": [x5.ext("1.2.3.4.5.6.7", msg.octets(b"x"))]}),
                ("keyCertSign without CA", {"exts": [x5.ext(x5.KU, x5.key_usage_bits(["keyCertSign"]), True),
                                                     x5.ext(x5.BC, seq(), True)]}),
                ("keyEncipherment for an EC key", {"key": ("ec", generate_key("ec", curve="secp256r1")), "exts": [
                    x5.ext(x5.KU, x5.key_usage_bits(["keyEncipherment"]), True)]}),
                ("no subject at all", {"subject": seq(), "exts": []}),
            ])
            refuse(rng.choice(("ir", "cr")), entry(0, **fixed), label)
        else:
            kind = rng.choice(("ir", "ir", "cr", "cr", "p10cr"))
            e = entry(0)
            if kind == "p10cr" and not e["subject"].kids:
                continue
            certs = accept(kind, [e])
            names = {x5.ext_parts(x)[0] for x in e["exts"]}
            if certs and e["kt"] in ("ec", "ed25519") and x5.KU not in names and x5.BC not in names and e["subject"].kids:
                live.append((Cred(e["key"], certs[0], [env.ca_cert]), e["subject"]))


def jobs(tier, seed):
    cas = ["default", "ec", "rsa", "ml-dsa-44", "default", "ec", "default", "rsa"]
    if tier == "quick":
        return [Job(f"issue-{i}-{c}", workload, timeout=400, ca_alg=c, budget=20) for i, c in enumerate(cas)]
    return [Job(f"issue-{i}-{c}", workload, timeout=500, ca_alg=c, budget=110, slow=True)
            for i, c in enumerate(cas * 3 + ["ml-dsa-65", "ml-dsa-87"])]
