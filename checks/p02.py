"""P02: the CA issues only for authenticated requests with a valid proof of possession."""

from vlib.core import Job

RULE = ("case = (request type, key type, protection of the request, single defect of its protection, signer or proof of "
        "possession); one real exchange, then the answer and the CA's complete record are compared with before")
ASSUMPTIONS = ["protection by password-based MAC, traditional, ML-DSA and composite signatures (KEM and key agreement "
               "based protection are exercised by P10)", "the CA's own trust store is the scratch copy of data/mock_ca"]

KEYS = ["ec", "ec", "ed25519", "rsa", "ml-dsa-44", "composite"]
KINDS = ["ir", "cr", "p10cr", "kur", "ccr"]
POP = ["flip", "missing", "other-key", "subject", "extension", "req-id", "swap-key", "alg", "ra-verified",
       "other-request", "other-holder", "encipherment", "agreement", "empty-sig", "trunc", "later-entry"]
P10 = ["flip", "other-key", "subject", "swap-key", "empty-sig", "trunc", "alg"]
PROT = ["unprotected", "missing", "flip", "body", "header", "nonce", "trunc", "empty", "recip"]
MACP = ["wrong-password", "empty-password", "salt", "iterations"]
SIGP = ["no-certs", "cert-swap", "self-signed", "outsider", "twin", "other-key", "expired", "future", "ee-as-ca", "ca-twin",
        "alg", "no-chain-outsider"]
ALL = sorted({("pop", x) for x in POP + P10} | {("prot", x) for x in PROT} | {("mac", x) for x in MACP} |
             {("sig", x) for x in SIGP})
REQUIRED = {"granted": 30, "refused": 120, **{f"defect {w}-{x}": 1 for w, x in ALL}, **{f"kind {k}": 3 for k in KINDS},
            **{f"protection {p}": 3 for p in ("mac", "ec", "ed25519", "rsa", "ml-dsa-44", "composite", "ra")}}


def keytype(key):
    n = type(key).__name__
    return "comp" if n.startswith("Composite") else "pq" if n.startswith("MLDSA") else "trad"


def workload(rec, part, of, rounds, budget):
    from datetime import datetime, timedelta, timezone
    from vlib import ca, msg, tlv, zoo
    from vlib.msg import M
    from vlib.ca import Cred, Env, der
    from vlib.world import sign, serial
    from resources import cmputils, cryptoutils
    from resources.certbuildutils import build_certificate, prepare_extensions
    from resources import certbuildutils
    from resources.prepare_alg_ids import prepare_sig_alg_id
    from resources.keyutils import generate_key
    rng = rec.rng
    env = Env(rec)
    cakey, cacert = env.h.ca_key, env.ca_cert
    seen = set()
    n = [0]

    def newkey(kind=None):
        kind = kind or rng.choice(KEYS)
        seen.add(kind)
        if kind == "rsa":
            return generate_key("rsa", length=2048)
        if kind == "composite":
            return generate_key("composite-sig-ml-dsa-44-ed25519", by_name=True)
        return generate_key(kind, **({"curve": rng.choice(["secp256r1", "secp384r1"])} if kind == "ec" else {}))

    def cn():
        n[0] += 1
        return f"CN=p02-{n[0]}-{rng.randrange(10**6)}"

    def hash_for(key):
        return None if keytype(key) != "trad" or type(key).__name__.startswith(("Ed", "_Ed")) else "sha256"

    # -- credentials ------------------------------------------------------------------------------
    def enrol(kt):
        k, c = newkey(kt), cn()
        m = ca.mac_protect(ca.request("ir", k, c, implicit_confirm=True))
        resp = env.send(m)
        if not resp.ok:
            rec.violation(f"enrol-refused:{kt}", f"a valid ir for a {kt} key was refused: {resp.text()}", request=der(m))
            return None
        e = Cred(k, resp.certs()[0], [cacert])
        e.cn = c
        return e

    creds = {kt: [e for e in (enrol(kt), enrol(kt)) if e] for kt in ("ec", "ed25519", "rsa", "ml-dsa-44", "composite")}
    if not all(len(v) == 2 for v in creds.values()):
        return
    root = ca.load_cert("data/unittest/root_cert_ed25519.pem")
    r = ca.trusted_ra()
    ra = Cred(r.key, r.cert, [root])
    ra.cn = "CN=Cross CA"

    def enc(m, signer):
        """DER of a request that is to be signed by signer."""
        return der(m if signer is None else cmputils.patch_sender(m, cert=signer.cert))

    def build_cert(**kw):
        kw.setdefault("include_ski", True)
        return build_certificate(**kw)[0]

    # -- building -----------------------------------------------------------------------------------
    def unprotected(kind, key, name, signer, ext=None):
        """A request without protection and with a valid proof of possession."""
        kw = {"hash_alg": hash_for(key)}
        if kind != "ccr":
            kw["implicit_confirm"] = True
        if ext is not None:
            kw["extensions"] = ext
        if kind == "kur":
            return cmputils.build_key_update_request(key, cert=signer.cert, common_name=name, **kw)
        if kind == "ccr":
            t = certbuildutils.prepare_cert_template(
                key=key.public_key(), subject=name, issuer=signer.cn, version=2, extensions=kw.pop("extensions", None),
                validity=certbuildutils.default_validity(days=90), exclude_fields=None,
                sign_alg=prepare_sig_alg_id(zoo.stored("rsa"), hash_alg="sha256"))
            return cmputils.build_ccr_from_key(key, cert_template=t, **kw)
        return ca.request(kind, key, name, mac=signer is None, **kw)

    def resign(m, kind, key):
        """Fresh, valid proof of possession of key for the request as it is."""
        what = m.csr.kids[0] if kind == "p10cr" else m.crm().cert_req
        sig = cryptoutils.sign_data(tlv.dump(what), key, hash_alg=hash_for(key))
        setsig(m, kind, sig)

    def signode(m, kind):
        return m.csr.kids[2] if kind == "p10cr" else m.crm().popo.kids[-1]

    def setsig(m, kind, sig):
        signode(m, kind).val = b"\x00" + sig

    def algnode(m, kind):
        return m.csr.kids[1] if kind == "p10cr" else m.crm().popo.kids[-2]

    def break_pop(m, kind, key, d, signer):
        """The message with the defect."""
        m = M(enc(m, signer))
        sig = signode(m, kind).val[1:]
        crm = m.crm() if kind != "p10cr" else None

        def other(**kw):
            """The same request for another subject, key or extensions."""
            o = unprotected(kind, kw.get("key", key), kw.get("name", "CN=x"), signer, kw.get("ext"))
            return M(enc(o, signer))

        def move(o, field):
            """Take one field of the template from the other request."""
            crm.set_field(field, o.crm().field(field))
        if d == "flip":
            setsig(m, kind, flip(sig))
        elif d == "trunc":
            setsig(m, kind, sig[:-1])
        elif d == "empty-sig":
            setsig(m, kind, b"")
        elif d == "missing":
            crm.popo = None
        elif d == "other-key":
            resign(m, kind, type_twin(key))
        elif d == "subject":
            o = other(name=cn())
            if kind == "p10cr":
                m.csr.kids[0].kids[1] = o.csr.kids[0].kids[1]
            else:
                move(o, 5)
        elif d == "swap-key":
            o = other(key=type_twin(key))
            if kind == "p10cr":
                m.csr.kids[0].kids[2] = o.csr.kids[0].kids[2]
            else:
                move(o, 6)
        elif d == "extension":
            o = other(ext=prepare_extensions(key_usage="digitalSignature,cRLSign", critical=True))
            move(o, 9)
        elif d == "req-id":
            # a proof signed for another position of the request
            crm.cert_req.kids[0] = msg.integer(1)
            resign(m, kind, key)
            crm.cert_req.kids[0] = msg.integer(0)
        elif d == "alg":
            algnode(m, kind).kids = tlv.parse(der(other_alg(key))).kids
        elif d == "ra-verified":
            crm.popo = tlv.Node(b"\x80", False, b"")
        elif d == "other-request":
            crm.popo = M(der(unprotected("ir", key, cn(), None))).crm().popo
        elif d == "other-holder":  # a proof somebody else made for their own request
            crm.popo = M(der(unprotected("ir", type_twin(key), cn(), None))).crm().popo
        elif d == "later-entry":  # several entries, one of the later ones without a valid proof
            total = rng.choice((2, 3))
            bad = rng.randrange(1, total)
            for i in range(1, total):
                k = newkey(rng.choice(["ec", "ed25519"]))
                e = M(enc(unprotected(kind, k, cn(), signer), signer))
                e.crm().cert_req.kids[0] = msg.integer(i)
                resign(e, kind, type_twin(k) if i == bad and rng.random() < 0.6 else k)
                if i == bad:
                    how = rng.choice(["flip", "none", "copy"])
                    if how == "flip":
                        setsig(e, kind, flip(signode(e, kind).val[1:]))
                    elif how == "none":
                        e.crm().popo = None
                    else:
                        e.crm().popo = m.crm().popo
                m.body.kids.append(e.body.kids[0])
        elif d in ("encipherment", "agreement"):
            p = cmputils.prepare_popo_challenge_for_non_signing_key(use_encr_cert=rng.random() < 0.5,
                                                                    use_key_enc=d == "encipherment")
            crm.popo = tlv.parse(der(p))
        return ca.parse(m.der())

    def flip(b):
        return tlv.flip(b, rng)

    def type_twin(key):
        t = type(key).__name__
        return newkey({"trad": "ec" if t.startswith(("EC", "_EC", "Ell")) else "rsa" if "RSA" in t else "ed25519",
                       "pq": "ml-dsa-44", "comp": "composite"}[keytype(key)])

    def other_alg(key):
        if keytype(key) == "trad" and not type(key).__name__.startswith(("Ed", "_Ed")):
            return prepare_sig_alg_id(key, hash_alg=rng.choice(["sha384", "sha512"]))
        return prepare_sig_alg_id(zoo.stored(rng.choice(["rsa", "ml-dsa-65"])), hash_alg="sha256")

    def mess(protected, d, kind, signer):
        """A defect of the protection or of the protected content of a protected message."""
        m = M(der(protected))
        if d == "flip":
            m.protection = flip(m.protection)
        elif d == "trunc":
            m.protection = m.protection[:-1]
        elif d == "empty":
            m.protection = b""
        elif d == "missing":
            m.protection = None
        elif d == "header":
            m.set("transactionID", msg.octets(zoo.rnd_bytes(rng, 16)))
        elif d == "nonce":
            m.set("senderNonce", msg.octets(zoo.rnd_bytes(rng, 16)))
        elif d == "recip":
            m.header.kids[2] = M(der(ca.request("ir", zoo.stored("rsa"), "CN=x", recipient="CN=Somebody else"))).header.kids[2]
        elif d == "body":
            m.body = M(enc(unprotected(kind, newkey("ec"), cn(), signer), signer)).body
        elif d == "unprotected":
            m.protection = None
            m.set("protectionAlg", None)
            if rng.random() < 0.5:
                m.certs = None
        elif d in ("salt", "iterations"):
            p = m.get("protectionAlg").kids[1]  # PBMParameter: salt, owf, iterationCount, mac
            if d == "salt":
                p.kids[0].val = flip(p.kids[0].val)
            else:
                p.kids[2] = msg.integer(int.from_bytes(p.kids[2].val, "big") + rng.choice([-1, 1]))
        return m.der()

    def with_signature(m, d, signer, kind):
        """Signature protection with defect d of the signer."""
        if d is None:
            return der(sign(m, signer))
        if d == "no-certs":
            p = M(der(sign(m, signer)))
            p.certs = None
            return p.der()
        if d == "cert-swap":  # signed by one holder, presented as another's
            kt = next((k for k, v in creds.items() if any(x is signer for x in v)), None)
            other = next(x for x in creds[kt] if x is not signer) if kt else creds["ed25519"][0]
            p = sign(m, Cred(signer.key, other.cert, [cacert]))
            return der(p)
        if d == "other-key":  # the certificate of the signer, another key of the same type
            return der(sign(m, Cred(type_twin(signer.key), signer.cert, signer.chain)))
        k = type_twin(signer.key)
        sub = signer.cn if hasattr(signer, "cn") else "CN=RA"
        if d == "self-signed":
            return der(sign(m, Cred(k, build_cert(private_key=k, common_name=sub), [])))
        ck = newkey("ec")
        if d == "outsider":
            root2 = build_cert(private_key=ck, common_name="CN=Rogue Root", is_ca=True)
            return der(sign(m, Cred(k, build_cert(private_key=k, common_name=sub, ca_key=ck, ca_cert=root2), [root2])))
        if d == "ca-twin":  # the rogue root has the CA's name
            from resources.utils import get_openssl_name_notation
            root2 = build_cert(private_key=ck, common_name=get_openssl_name_notation(cacert["tbsCertificate"]["subject"]),
                               is_ca=True, serial_number=serial(cacert))
            return der(sign(m, Cred(k, build_cert(private_key=k, common_name=sub, ca_key=ck, ca_cert=root2), [root2])))
        if d == "twin":  # names the real CA as issuer, but not signed by it
            return der(sign(m, Cred(k, build_cert(private_key=k, common_name=sub, ca_key=ck, ca_cert=cacert,
                                                  serial_number=serial(signer.cert)), [cacert])))
        if d == "no-chain-outsider":  # the trusted root is added, but did not sign
            return der(sign(m, Cred(k, build_cert(private_key=k, common_name=sub), [cacert, root])))
        if d in ("expired", "future"):  # issued by the CA, outside its validity
            now = datetime.now(timezone.utc)
            if d == "expired":
                nb, na = now - timedelta(days=30), now - timedelta(days=1)
            else:
                nb, na = now + timedelta(days=2), now + timedelta(days=30)
            val = certbuildutils.prepare_validity(not_before=nb, not_after=na)
            c = build_cert(private_key=k, common_name=sub, ca_key=cakey, ca_cert=cacert, validity=val)
            return der(sign(m, Cred(k, c, [cacert])))
        if d == "ee-as-ca":  # issued by an end entity of the CA
            c = build_cert(private_key=k, common_name=sub, ca_key=signer.key, ca_cert=signer.cert)
            return der(sign(m, Cred(k, c, [signer.cert] + list(signer.chain))))
        if d == "alg":
            p = M(der(sign(m, signer)))
            p.set("protectionAlg", tlv.parse(der(other_alg(signer.key))))
            return p.der()
        raise ValueError(d)

    def request(kind, key, prot, pop=None, where=None, d=None):
        """(DER of a request, should be granted); None when the combination does not exist."""
        signer = None
        name = cn()
        if kind == "ccr":
            if prot == "mac":
                return None
            signer = ra
        elif prot == "ra":
            signer = ra
            if kind in ("cr", "kur"):
                return None
        elif prot != "mac":
            signer = rng.choice(creds[prot])
        if kind == "kur":
            if prot == "mac":
                return None
            # a key update supersedes its certificate: use one of its own
            signer = enrol(prot)
            if signer is None:
                return None
            creds[prot].append(signer)
            name = signer.cn
        m = unprotected(kind, key, name, signer)
        if pop:
            m = break_pop(m, kind, key, pop, signer)
        if signer is None:
            pw = ca.PASSWORD
            if where == "mac" and d == "wrong-password":
                pw = rng.choice(["siemensIT", "SiemensIT ", "SiemensI", "x" * 40, "SiemensITSiemensIT"])
            if where == "mac" and d == "empty-password":
                pw = "\x00"
            out = ca.mac_protect(m, password=pw)
            raw = mess(out, d, kind, signer) if where == "prot" or d in ("salt", "iterations") else der(out)
        elif where == "prot":
            raw = mess(sign(m, signer), d, kind, signer)
        else:
            raw = with_signature(m, d if where == "sig" else None, signer, kind)
        if kind == "kur":
            creds[prot].remove(signer)
        return raw

    def exchange(raw, good, what, key=None):
        before = env.record()
        resp = env.send(raw)
        rec.ev(*what, resp.ok)
        issued = [c for c in resp.certs()]
        after = env.record()
        new = set(after) - set(before)
        if good:
            if not resp.ok:
                rec.violation("valid-refused:" + "/".join(map(str, what[:3])),
                              f"valid request refused: {what}: {resp.body} {resp.text()}", request=raw, response=resp.raw)
            else:
                rec.count("granted")
                spki = der(issued[0]["tbsCertificate"]["subjectPublicKeyInfo"]) if issued else None
                rec.check(len(issued) == 1 and len(new) == 1 and der(issued[0]) in new, "issued-not-recorded",
                          f"{what}: {len(issued)} certificates returned, {len(new)} new records", request=raw)
        else:
            if resp.ok or issued:
                rec.violation("granted:" + "/".join(map(str, (what[0], what[3]))),
                              f"defective request granted: {what}: {resp.body} {resp.statuses()}", request=raw,
                              response=resp.raw)
            else:
                rec.count("refused")
            if resp.body in ("rp", "genp", "pkiconf"):
                rec.violation("answered:" + "/".join(map(str, (what[0], what[3]))),
                              f"defective request answered with {resp.body}: {what}", request=raw, response=resp.raw)
            changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
            if changed:
                rec.violation("record-changed:" + "/".join(map(str, (what[0], what[3]))),
                              f"refused request changed the CA's record: {what}", request=raw, response=resp.raw)
        return resp

    mine = ALL[part % of::of]
    queues = []
    for where, d in mine:
        q = []
        for kind in KINDS:
            if d not in P10 and kind == "p10cr" and where == "pop":
                continue
            if d == "later-entry" and kind != "cr":
                continue
            for prot in ["mac", "ec", "ed25519", "rsa", "ml-dsa-44", "composite", "ra"]:
                if (where == "mac") <= (prot == "mac") and not (where == "sig" and prot == "mac"):
                    q.append((kind, prot, where, d))
        rng.shuffle(q)
        queues.append(q)
    todo = [q[i % len(q)] for i in range(rounds // len(queues) + 1) for q in queues]
    done = 0
    for kind, prot, where, d in todo:
        if rec.elapsed() > budget:
            break
        key = newkey(rng.choice(["ec", "ec", "ed25519", "ml-dsa-44"]) if rng.random() < 0.85 else None)
        if kind == "ccr":
            if where == "mac":
                continue
            prot = "ra"
        if where == "pop" and d == "ra-verified" and prot == "ra" and kind != "ccr":
            continue
        kw = {"pop": d} if where == "pop" else {"where": where, "d": d}
        if d == "agreement" and type(key).__name__.startswith(("EC", "_EC", "Ell")):
            continue  # a key that can agree on secrets may be challenged
        raw = request(kind, key, prot, **kw)
        if raw is None:
            continue
        what = (kind, keytype(key), prot, f"{where}-{d}")
        exchange(raw, False, what)
        rec.count(f"kind {kind}"), rec.count(f"defect {where}-{d}"), rec.count(f"protection {prot}")
        done += 1
        if done % 4 == 0 or kind in ("kur", "ccr") and rng.random() < 0.3:
            raw = request(kind, key, prot)
            if raw is not None:
                exchange(raw, True, (kind, keytype(key), prot, "valid"))
        if done % 25 == 0:  # raVerified by the trusted registration authority
            k = newkey("ec")
            m = sign(ca.request("ir", k, cn(), mac=False, implicit_confirm=True, ra_verified=True), ra)
            exchange(der(m), True, ("ir", "trad", "ra", "ra-verified"))
    rec.sample(keys=sorted(seen))


def jobs(tier, seed):
    n, rounds, budget = (8, 75, 24) if tier == "quick" else (24, 2000, 240)
    return [Job(f"requests-{i}", workload, timeout=600, part=i, of=8, rounds=rounds, budget=budget) for i in range(n)]
