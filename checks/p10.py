"""P10: KEM shared secrets serve one transaction; challenges are answered once."""

from vlib.core import Job

RULE = ("case = one message protected with a KEM shared secret (of this or another transaction, certificate or value; first or later use), or one answer to "
        "a proof-of-possession challenge (right, wrong, of another transaction, repeated, several in one message); the CA's answer and records are "
        "compared with a model of the secrets and challenges; MAC keys of requests and replies are derived outside the suite")
REQUIRED = {"secret": 16, "kem granted": 14, "kem refused": 60, "kem conf": 3, "reply recomputed": 14, "challenge": 16, "answered": 10, "answer refused": 40}
ASSUMPTIONS = ["a challenge that was answered wrongly may be void afterwards",
               "challenges are only answered for ir (the CA does not implement them for cr)",
               "which credentials protect the answer to a challenge is not judged"]
NOTE = "model of secrets and challenges; KDF and MAC recomputed"


# -- RFC 9810 5.1.3.4, on its own ----------------------------------------------------------------------
def kem_mac(alg, covered, ss, tx):
    import hashlib
    import hmac
    from checks.p04 import HASH
    from vlib import tlv, x5
    p = tlv.parse(alg).kids[1].kids
    i, ukm = 1, None
    if p[i].tag == b"\xa0" or p[i].tag == b"\x80":
        ukm = p[i].kids[0].val if p[i].cons else p[i].val
        i += 1
    length, mac = int.from_bytes(p[i].val, "big"), x5.find_oid(p[i + 1].kids[0])
    info = tlv.tlv(0x30, tlv.tlv(0x0C, b"CMP-KEM")) + tlv.tlv(0x04, tx) + (tlv.tlv(0x80, ukm) if ukm else b"")
    info = tlv.tlv(0x30, info)
    kdf = p[0]
    o = x5.find_oid(kdf.kids[0])
    if o in ("1.3.133.16.840.9.44.1.1", "1.3.133.16.840.9.44.1.2"):   # kdf2, kdf3
        h = HASH[x5.find_oid(kdf.kids[1].kids[0])]
        v2 = o.endswith("1")
        out, c = b"", 1 
        while len(out) < length:
            n = c.to_bytes(4, "big")
            out += hashlib.new(h, ss + n + info if v2 else n + ss + info).digest()
            c += 1
        key = out[:length]
    elif o.startswith("1.2.840.113549.1.9.16.3."):                     # hkdf
        h = {"28": "sha256", "29": "sha384", "30": "sha512"}[o.rsplit(".", 1)[1]]
        prk = hmac.new(bytes(hashlib.new(h).digest_size), ss, h).digest()
        out, t, c = b"", b"", 1
        while len(out) < length:
            t = hmac.new(prk, t + info + bytes([c]), h).digest()
            out += t
            c += 1
        key = out[:length]
    else:
        return None
    return hmac.new(key, covered, HASH[mac]).digest() if mac in HASH else None


def job_kem(rec, alg, steps):
    import os
    from vlib import ca, flows, tlv
    from vlib.ca import Cred, der
    from vlib.msg import M
    from vlib.world import sign
    from resources import certbuildutils, cmputils, protectionutils
    from resources.keyutils import generate_key
    rng = rec.rng
    env = ca.Env(rec)
    ra = flows.ra_cred()
    n = [0]
    creds, open_, used, attacked = [], [], [], set()

    def cn():
        n[0] += 1
        return f"CN=P10 {n[0]} {rng.randrange(10**6)}"

    def ec():
        return generate_key("ec", curve="secp256r1")

    for a in [alg, alg, "ml-kem-512"]:
        c, r = flows.kem_enroll(env, cn(), a)
        if not rec.check(c is not None, "enrol", f"KEM enrolment refused: {r.text()}"):
            return
        creds.append(c)

    class S:
        def __init__(self, tx, ss, cred):
            self.tx, self.ss, self.cred = tx, ss, cred

    def establish(cred=None, tx=None):
        cred = cred or rng.choice(creds)
        tx = tx or os.urandom(16)
        ok, out = rec.must("kem-secret", lambda: flows.kem_secret(env, cred, tx))
        if not ok:
            return None
        ss, r = out
        if not rec.check(ss is not None, "no-secret", f"no shared secret: {r.body} {r.text()}"):
            return None
        rec.ev("secret", alg, len(ss), counter="secret")
        rec.check(all(ss != s.ss for s in open_ + used), "secret-again", "the same shared secret twice")
        return S(tx, ss, cred)

    KDFS = ["kdf3", "kdf3", "kdf2", "hkdf", "pbkdf2"]

    def protect(m, ss, cred, kdf=None):
        if cred is not None:
            m = cmputils.patch_extra_certs(m, [cred.cert] + list(cred.chain))
        return protectionutils.protect_pkimessage_kem_based_mac(m, shared_secret=ss, kdf=kdf or rng.choice(KDFS),
                                                                context=rng.choice([None, None, os.urandom(12)]))

    def mac_ok(raw, ss):
        m = M(raw)
        covered = tlv.tlv(0x30, tlv.dump(m.header) + tlv.dump(m.t.kids[1]))
        want = kem_mac(tlv.dump(m.get("protectionAlg")), covered, ss, m.value("transactionID"))
        return None if want is None else want == m.protection

    def req(tx, cred, implicit=True, kind=None):
        kind = kind or rng.choice(["ir", "cr", "p10cr"])
        return ca.request(kind, ec(), cn(), transaction_id=tx, sender=cred.cn, implicit_confirm=implicit, pvno=rng.choice([2, 3]))

    def refused(what, resp, before, key):
        rec.ev(alg, what, counter="kem refused")
        art = dict(request=env.log[-1][0], response=resp.raw)
        rs = [ca.Resp(der(x)) for x in resp.msg["body"]["nested"]] if resp.body == "nested" else [resp]
        rec.check(not any(r.ok and r.body != "error" for r in rs), key, f"{what}: granted ({resp.body})", **art)
        rec.check(env.record() == before, key + "-record", f"{what}: the CA's records changed", **art)

    def good(s, nested=False):
        implicit = nested or rng.random() < 0.6
        m = protect(req(s.tx, s.cred, implicit), s.ss, s.cred)
        raw = der(m)
        x = mac_ok(raw, s.ss)
        if x is not None:
            rec.check(x, "request-mac", f"{alg}: the MAC of a request is not the one of RFC 9810", request=raw)
            rec.count("request recomputed")
        resp = env.send(flows.added_protection(m, ra) if nested else m)
        art = dict(request=raw, response=resp.raw)
        what = "after an attack" if s.tx in attacked else "first use"
        rec.ev(alg, what, "nested" if nested else "plain", implicit)
        if not rec.check(resp.ok and resp.body in ("ip", "cp"), "refused", f"{alg} {what}: refused with its own secret ({resp.body} {resp.text()})", **art):
            return
        rec.count("kem granted")
        x = mac_ok(resp.raw, s.ss) if str(resp.msg["header"]["protectionAlg"]["algorithm"]) == "1.2.840.113533.7.66.16" else False
        if x is not None:
            rec.check(x, "reply-mac", f"{alg}: the reply is not protected by the secret of its transaction", **art)
            rec.count("reply recomputed")
        if s in open_:
            open_.remove(s)
        used.append(s)
        s.raw = raw
        if not implicit:
            cert = resp.certs()[0]

            def conf():
                return cmputils.build_cert_conf_from_resp(resp.msg, cert=cert, hash_alg="sha512", pvno=3, for_mac=True, sender=s.cred.cn)
            if rng.random() < 0.6:
                before = env.record()
                o = rng.choice([x for x in open_ + used if x is not s] or [S(s.tx, os.urandom(len(s.ss)), s.cred)])
                refused("confirmation with another secret", env.send(protect(conf(), o.ss, rng.choice([s, o]).cred)), before, "conf-other-secret")
            r2 = env.send(protect(conf(), s.ss, s.cred))
            if rec.check(r2.body == "pkiconf", "conf-refused", f"{alg}: confirmation refused: {r2.text()}", request=env.log[-1][0]):
                rec.count("kem conf")
                x = mac_ok(r2.raw, s.ss)
                if x is not None:
                    rec.check(x, "reply-mac", f"{alg}: pkiconf is not protected by the secret of its transaction", response=r2.raw)
                rec.check(env.state(cert) == "CONFIRMED", "conf-state", f"{alg}: {env.state(cert)} after the confirmation")

    def other_value(ss):
        k = rng.randrange(6)
        if k == 0:
            b = bytearray(ss)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            return bytes(b)
        return [None, ss[:-1], ss + b"\x00", bytes(len(ss)), os.urandom(len(ss)), ss[::-1]][k]

    def attack():
        """Everything that is not the first use of a secret in its own transaction by its own certificate."""
        before = env.record()
        kind = rng.choice(["fresh-tx", "fresh-tx", "cross", "cross", "cross", "value", "certificate", "near-tx", "second", "second", "second-nested", "rr", "kur",
                           "hijack", "replay"])
        pool = open_ + used
        if kind in ("cross", "hijack", "value", "certificate") and not open_ or not pool:
            return
        s = rng.choice(pool)
        if kind == "fresh-tx":
            return refused(kind, env.send(protect(req(os.urandom(16), s.cred), s.ss, s.cred)), before, kind)
        if kind == "near-tx":
            tx = rng.choice([s.tx[:15], s.tx + b"\x00", bytes([s.tx[0] ^ 1]) + s.tx[1:], s.tx[:15] + bytes([s.tx[15] ^ 128]), s.tx[::-1]])
            return refused(kind, env.send(protect(req(tx, s.cred), s.ss, s.cred)), before, kind)
        if kind == "cross":
            t = rng.choice(open_)
            if t is s:
                return
            attacked.add(t.tx)
            c = rng.choice([s.cred, t.cred, None])
            return refused(kind, env.send(protect(req(t.tx, c or t.cred), s.ss, c)), before, kind)
        if kind == "value":
            t = rng.choice(open_)
            attacked.add(t.tx)
            return refused(kind, env.send(protect(req(t.tx, t.cred), other_value(t.ss), t.cred)), before, kind)
        if kind == "certificate":
            t = rng.choice(open_)
            o = rng.choice([c for c in creds if c is not t.cred])
            attacked.add(t.tx)
            return refused(kind, env.send(protect(req(t.tx, o), t.ss, o)), before, kind)
        if kind == "hijack":
            # somebody else establishes a secret in a transaction that already has one
            t = rng.choice(open_)
            o = rng.choice([c for c in creds if c is not t.cred])
            ss, r = flows.kem_secret(env, o, t.tx)
            attacked.add(t.tx)
            rec.count("hijack " + r.body)
            if ss is not None and rng.random() < 0.7:
                refused(kind, env.send(protect(req(t.tx, t.cred), ss, rng.choice([t.cred, None]))), before, kind)
            return
        if not used:
            return
        s = rng.choice(used)
        if kind == "second":
            return refused(kind, env.send(protect(req(s.tx, s.cred), s.ss, rng.choice([s.cred, s.cred, None]))), before, kind)
        if kind == "second-nested":
            ms = [protect(req(s.tx, s.cred), s.ss, s.cred)]
            if rng.random() < 0.5 and open_:
                t = rng.choice(open_)
                attacked.add(t.tx)
                ms = [protect(req(t.tx, t.cred), s.ss, t.cred)]
            return refused(kind, env.send(flows.added_protection(ms[0], ra)), before, kind)
        if kind == "replay":
            return refused(kind, env.send(s.raw), before, kind)
        # a message that has to be signed
        cred = enrolled
        tx = rng.choice(open_).tx if open_ else s.tx
        t = next((x for x in open_ if x.tx == tx), s)
        attacked.add(tx)
        if kind == "rr":
            m = cmputils.build_cmp_revoke_request(cert=cred.cert, reason="keyCompromise", sender=t.cred.cn, recipient="CN=y", pvno=3, transaction_id=tx,
                                                  exclude_fields=None)
        else:
            m = cmputils.build_key_update_request(ec(), cert=cred.cert, implicit_confirm=True, pvno=3, exclude_fields=None, sender=t.cred.cn, transaction_id=tx)
        refused(kind, env.send(protect(m, t.ss, t.cred)), before, kind)

    def untrusted():
        """No secret for a certificate the CA does not accept."""
        what = rng.choice(["foreign", "revoked"])
        key = generate_key("ml-kem-512")
        name = cn()
        if what == "foreign":
            ik = ec()
            ic, _ = certbuildutils.build_certificate(ik, common_name="CN=Foreign CA", is_ca=True, include_ski=True)
            cert, _ = certbuildutils.build_certificate(key, common_name=name, ca_key=ik, ca_cert=ic)
            c = Cred(key, cert, [ic])
        else:
            m = flows.kem_request(key, name, implicit_confirm=False)
            r = env.send(ca.mac_protect(m))
            if not rec.check(r.ok, "enrol", f"KEM enrolment refused: {r.text()}"):
                return
            cert = ca.recode_cert(flows.get_enc_cert_from_pkimessage(r.msg, ee_private_key=key, exclude_rid_check=True, server_cert=env.ca_cert))
            c = Cred(key, cert, [env.ca_cert])
            r = env.send(ca.mac_protect(flows.kem_conf(r, cert, name)))
            rec.check(r.body == "pkiconf", "enrol", "KEM confirmation refused")
            m = cmputils.build_cmp_revoke_request(cert=cert, reason="keyCompromise", sender="CN=x", recipient="CN=y", pvno=3)
            if not rec.check(env.send(sign(m, ra)).ok, "rr", "revocation refused"):
                return
        c.cn = name
        tx = os.urandom(16)
        r = env.send(flows.kem_genm(c, tx))
        rec.ev(alg, what, counter="kem refused")
        rec.check(r.body == "error", "secret-for-" + what, f"a secret for a {what} certificate", request=env.log[-1][0], response=r.raw)
        if r.body == "genp":
            ss = flows.validate_genp_kem_ct_info(r.msg, client_private_key=key)
            before = env.record()
            refused("secret-for-" + what, env.send(protect(req(tx, c), ss, c)), before, "granted-" + what)

    enrolled, _ = ca.enroll(env, cn())
    for step in range(steps):
        r = rng.random()
        if len(open_) < 2 or (r < 0.12 and len(open_) < 6):
            s = establish()
            if s is None:
                return
            open_.append(s)
        elif r < 0.34:
            good(rng.choice(open_), nested=rng.random() < 0.15)
        elif r < 0.39:
            untrusted()
        else:
            attack()
    for s in list(open_):
        good(s)


def job_challenge(rec, steps):
    import os
    from vlib import ca, flows, tlv
    from vlib.ca import der
    from vlib.world import sign
    from vlib.x5 import Cert
    from pyasn1.type import univ
    from resources import cmputils
    from resources.keyutils import generate_key
    rng = rec.rng
    env = ca.Env(rec)
    ra = flows.ra_cred()
    n = [0]
    pending, done, numbers = [], [], []

    def cn():
        n[0] += 1
        return f"CN=P10 {n[0]} {rng.randrange(10**6)}"

    ALGS = ["x25519", "x448", "ec", "ml-kem-512", "ml-kem-768", "rsa", "xwing"]

    class Ch:
        pass

    def ask(tx=None, key=None):
        c = Ch()
        c.alg = rng.choice(ALGS)
        if key is not None:
            c.alg, c.key = key
        elif c.alg == "rsa":
            c.key = generate_key("rsa", length=2048)
        else:
            c.key = generate_key(c.alg, **({"curve": "secp256r1"} if c.alg == "ec" else {}))
        c.cn = cn()
        enc = c.alg in ("ml-kem-512", "ml-kem-768", "rsa", "xwing")
        kw = {"transaction_id": tx} if tx else {}
        c.kind = rng.choice(["ir"] * 5 + ["cr"])
        r = env.send(flows.challenge_request(c.key, c.cn, ra, c.kind, key_enc=enc, **kw))
        if not rec.check(r.body == "popdecc", "no-challenge", f"{c.alg}: no challenge ({r.body} {r.text()})", request=env.log[-1][0]):
            return None
        rec.ev("challenge", c.alg, c.kind, counter="challenge")
        ok, c.answer = rec.must("challenge-answer", lambda: flows.challenge_answer(r, c.key, ra, ra.cert if c.alg == "ec" else None))
        if not ok:
            return None
        c.tx, c.num, c.resp = r.tx, int(c.answer["body"]["popdecr"][0]), r
        rec.check(c.num not in numbers, "number-again", f"{c.alg}: the same number twice", response=r.raw)
        numbers.append(c.num)
        rec.check(der(r.msg).find(tlv.tlv(2, c.num.to_bytes(c.num.bit_length() // 8 + 1, "big"))) < 0, "number-in-clear", f"{c.alg}: the number is in the challenge", response=r.raw)
        c.tried = False
        return c

    def message(c, nums, tx=None):
        """An answer in c's transaction (or another one) with the given numbers."""
        m = ca.parse(der(c.answer))
        body = m["body"]["popdecr"]
        body.clear()
        for x in nums:
            body.append(univ.Integer(x))
        if tx is not None:
            m = cmputils.patch_transaction_id(m, tx) if hasattr(cmputils, "patch_transaction_id") else m
            m["header"]["transactionID"] = m["header"]["transactionID"].clone(tx)
        if rng.random() < 0.5:
            m["header"]["senderNonce"] = m["header"]["senderNonce"].clone(os.urandom(16))
        return sign(m, ra)

    def certs_of(r):
        return [Cert(der(x)) for x in r.certs()] if r.ok and r.body != "error" else []

    def spki(key):
        from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
        from resources.keyutils import prepare_subject_public_key_info
        try:
            return key.public_key().public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
        except Exception:  # noqa - keys of the suite
            return der(prepare_subject_public_key_info(key.public_key()))

    def send(m, what, allowed):
        """allowed: challenges which may yield a certificate now (each at most once)."""
        before = env.record()
        r = env.send(m)
        art = dict(request=env.log[-1][0], response=r.raw)
        got = certs_of(r)
        left = list(allowed)
        for x in got:
            c = next((c for c in left if tlv.dump(x.spki) == spki(c.key) and c.cn[3:].encode() in tlv.dump(x.subject)), None)
            if rec.check(c is not None, "unearned:" + what, f"{what}: a certificate nobody earned ({r.body})", **art):
                left.remove(c)
                pending.remove(c)
                done.append(c)
        new = set(env.record()) - set(before)
        rec.check(new == {x.raw for x in got}, "record:" + what, f"{what}: {len(new)} new on record, {len(got)} given out", **art)
        rec.ev("answer", what, len(got), allowed[0].alg if allowed else None, counter="answered" if got else "answer refused")
        return got, r

    def case():
        if len(pending) < 3:
            if pending and rng.random() < 0.2:  # a second challenge in one transaction, or for one key
                p = rng.choice(pending)
                c = ask(tx=p.tx) if rng.random() < 0.5 else ask(key=(p.alg, p.key))
            else:
                c = ask()
            if c is not None:
                pending.append(c)
            return
        c = rng.choice(pending)
        o = rng.choice([x for x in pending if x is not c])
        what = rng.choice(["right", "right", "wrong", "wrong", "other-number", "other-transaction", "fresh-transaction", "twice", "right+wrong", "wrong+right",
                           "empty", "replay", "again", "both", "crossed", "nested"])
        if what == "right":
            if c.kind != "ir":
                pending.remove(c)
                pending.append(c)
                send(message(c, [c.num]), "right-cr", [c])
                if c in pending:
                    pending.remove(c)
                return
            got, r = send(message(c, [c.num]), what, [c])
            if not c.tried:
                rec.check(len(got) == 1, "right-refused", f"{c.alg}: the right answer is refused ({r.body} {r.text()})", request=env.log[-1][0])
            if c in pending:
                pending.remove(c)
        elif what == "wrong":
            x = rng.choice([c.num + 1, c.num - 1, 0, -c.num, c.num + 2**32, c.num ^ (1 << rng.randrange(32)), c.num << 8, rng.getrandbits(32), -1, c.num % 2**16])
            if x in numbers:
                return
            c.tried = True
            send(message(c, [x]), what, [])
        elif what == "other-number":
            if o.tx == c.tx:
                return
            c.tried = o.tried = True
            send(message(c, [o.num]), what, [])
        elif what == "other-transaction":
            if o.tx == c.tx:
                return
            c.tried = o.tried = True
            send(message(c, [c.num], tx=o.tx), what, [])
        elif what == "fresh-transaction":
            c.tried = True
            send(message(c, [c.num], tx=os.urandom(16)), what, [])
        elif what == "twice":
            c.tried = True
            send(message(c, [c.num, c.num]), what, [c])
        elif what in ("right+wrong", "wrong+right"):
            c.tried = True
            w = rng.getrandbits(31)
            send(message(c, [c.num, w] if what[0] == "r" else [w, c.num]), what, [c])
        elif what == "both":
            if o.tx != c.tx:
                return
            c.tried = o.tried = True
            send(message(c, [c.num, o.num]), what, [c, o])
        elif what == "crossed":
            if o.tx == c.tx:
                return
            c.tried = o.tried = True
            send(message(c, [c.num, o.num]), what, [c])
        elif what == "empty":
            c.tried = True
            m = message(c, [])
            send(m, what, [])
        elif what in ("replay", "again"):
            if not done:
                return
            d = rng.choice(done)
            send(message(d, [d.num]), what, [])
        else:
            c.tried = True
            m = ca.parse(der(c.answer))
            send(flows.added_protection(m, ra), what, [c])

    for _ in range(steps):
        case()
    if len(numbers) > 8:
        rec.check(sum(x < 2**20 for x in numbers) <= len(numbers) // 4, "small-numbers", f"challenges are small numbers: {sorted(numbers)[:8]}")


def jobs(tier, seed):
    t = tier == "thorough"
    algs = ["ml-kem-512", "ml-kem-768", "xwing", "ml-kem-1024"] + (["composite-kem-ml-kem-768-x25519", "composite-kem-ml-kem-768-ecdh-secp256r1"] if t else [])
    out = [Job(f"kem-{a}", job_kem, timeout=2400, alg=a, steps=500 if t else 60) for a in algs]
    out += [Job(f"challenge-{i}", job_challenge, timeout=2400, steps=800 if t else 60) for i in range(16 if t else 4)]
    return out
