"""P04: every CA response is bound to the request it answers."""

from vlib.core import Job

RULE = ("case = (body type of the request, its protection mechanism, which of its header fields are absent or of unusual "
        "length, body type and status of the reply); an online monitor at the CA's boundary compares every reply with its "
        "request and with all earlier replies; MACs and signatures of replies are recomputed outside the suite")
ASSUMPTIONS = ["a transaction identifier or nonce is compared only if the request has one",
               "the reply to an unprotected or hopelessly protected message may be signed"]
REQUIRED = {"replies": 120, "granted": 25, "errors": 25, "mac recomputed": 15, "signature recomputed": 15, "kem verified": 1,
            "challenge": 1, "nested": 1, "odd header": 8, "body genm": 3, "body certConf": 5, "body kur": 1, "body rr": 2,
            "body p10cr": 3}
ANSWER = {"ir": {"ip", "popdecc"}, "cr": {"cp", "popdecc"}, "p10cr": {"cp"}, "kur": {"kup"}, "ccr": {"ccp"}, "rr": {"rp"},
          "krr": {"krp"}, "genm": {"genp"}, "certConf": {"pkiconf"}, "popdecr": {"ip", "cp"}, "pollReq": {"pollRep"}}


class Monitor:
    """Checks one reply against its request; remembers every nonce."""

    def __init__(self, rec, env):
        self.rec, self.env, self.nonces, self.asked = rec, env, set(), set()
        self.secrets = {}  # transaction -> KEM shared secret

    def __call__(self, env, raw, resp, label=None):
        from vlib import ca
        try:
            req = ca.parse(raw)
        except Exception:  # noqa - not parseable
            return
        self.reply(req, raw, resp, outer=True)
        kind = req["body"].getName()
        if kind == "nested" and resp.body == "nested" and len(req["body"]["nested"]) > 1:
            inner_q, inner_r = req["body"]["nested"], resp.msg["body"]["nested"]
            if self.rec.check(len(inner_q) == len(inner_r), "batch-length", f"{len(inner_r)} inner replies for {len(inner_q)} requests",
                              request=raw, response=resp.raw):
                for q, r in zip(inner_q, inner_r):
                    qd, rd = ca.der(q), ca.der(r)
                    self.reply(ca.parse(untag(qd)), untag(qd), ca.Resp(untag(rd)), outer=False)

    def reply(self, req, raw, resp, outer):
        rec = self.rec
        kind = req["body"].getName()
        h = req["header"]
        art = dict(request=raw, response=resp.raw)
        rec.count("replies")
        rec.count(f"body {kind}")

        def val(n):
            return h[n].asOctets() if h[n].isValue else None
        tx, sn = val("transactionID"), val("senderNonce")
        inner = req
        while inner["body"].getName() == "nested" and len(inner["body"]["nested"]) == 1:
            inner = inner["body"]["nested"][0]
        if tx:
            rec.check(resp.tx == tx, f"transaction:{kind}", f"{kind}: transactionID {tx.hex()} answered with "
                      f"{resp.tx.hex() if resp.tx is not None else None} ({resp.body}: {resp.text()})", **art)
        rn = resp.opt("recipNonce")
        if sn:
            rec.check(rn == sn, f"recip-nonce:{kind}", f"{kind}: senderNonce {sn.hex()} answered with recipNonce "
                      f"{rn.hex() if rn is not None else None} ({resp.body}: {resp.text()})", **art)
            self.asked.add(sn)
        n = resp.nonce
        if rec.check(n is not None and len(n) >= 16, f"nonce-short:{kind}", f"{kind}: senderNonce of the reply is {n!r}", **art):
            rec.check(n not in self.nonces and n not in self.asked, f"nonce-reused:{kind}",
                      f"{kind}: senderNonce {n.hex()} of the reply was used before", **art)
            self.nonces.add(n)
        k = inner["body"].getName()
        allowed = ANSWER.get(k, set()) | {"error"}
        if k == "nested":
            allowed = {"nested", "error"}
        rec.check(resp.body in allowed, f"body-type:{k}:{resp.body}", f"{k} was answered with {resp.body}", **art)
        prot = self.kind_of(inner)
        answered = resp.body != "error" and resp.ok or resp.body in ("genp", "popdecc", "nested")
        rec.count("granted" if answered else "errors")
        got = self.kind_of(resp.msg)
        if answered and resp.body != "nested":
            if got is None:
                rec.check(prot is None and k == "genm", f"unprotected:{k}", f"{k} ({prot}) was answered without protection", **art)
            elif prot is not None:
                # a MAC without key derivation may be answered with one that derives its key from the password
                rec.check(got == prot or prot == "mac" and got in ("pbm", "pbmac1"), f"mechanism:{k}:{prot}->{got}", f"{k} protected by {prot} was answered with {got}", **art)
        elif answered:
            rec.check(got == self.kind_of(req), "mechanism:nested", f"nested: {got}", **art)
        if got is not None and (answered or got == "sig"):
            self.verify(resp, got, k, art)
        odd = tuple(None if v is None else len(v) for v in (tx, sn, val("recipNonce")))
        rec.ev(kind, k, str(prot), odd, resp.body, tuple(resp.statuses()))

    @staticmethod
    def kind_of(msg):
        if not msg["header"]["protectionAlg"].isValue or not msg["protection"].isValue:
            return None
        o = str(msg["header"]["protectionAlg"]["algorithm"])
        return {"1.2.840.113533.7.66.13": "pbm", "1.2.840.113549.1.5.14": "pbmac1", "1.2.840.113533.7.66.30": "dh",
                "1.2.840.113533.7.66.16": "kem"}.get(o) or ("mac" if o.startswith(("2.16.840.1.101.3.4.2", "2.16.840.1.101.3.4.1",
                                                                                    "1.3.6.1.5.5.8", "1.2.840.113549.2")) else "sig")

    def verify(self, resp, got, k, art):
        from vlib import ca, tlv
        from vlib.msg import M
        rec = self.rec
        m = M(resp.raw)
        covered = tlv.tlv(0x30, tlv.dump(m.header) + tlv.dump(m.t.kids[1]))
        try:
            if got == "pbm":
                good = pbm(tlv.dump(m.get("protectionAlg")), covered, ca.PASSWORD.encode()) == m.protection
                rec.count("mac recomputed")
            elif got == "pbmac1":
                good = pbmac1(tlv.dump(m.get("protectionAlg")), covered, ca.PASSWORD.encode()) == m.protection
                rec.count("mac recomputed")
            elif got == "sig":
                good = self.signature(m, covered)
                rec.count("signature recomputed")
            elif got == "kem":
                from resources.protectionutils import verify_kem_based_mac_protection
                ss = self.secrets.get(resp.tx)
                if ss is None:
                    return
                verify_kem_based_mac_protection(resp.msg, shared_secret=ss)
                good = True
                rec.count("kem verified")
            else:
                from resources.protectionutils import verify_pkimessage_protection
                verify_pkimessage_protection(resp.msg, password=ca.PASSWORD)
                good = True
                rec.count("mac verified")
        except Exception as e:  # noqa
            good = False
            art = {**art, "error": repr(e)}
        rec.check(good, f"protection:{k}:{got}", f"the {got} protection of the reply to {k} does not verify {art.get('error', '')}", **art)

    def signature(self, m, covered):
        from vlib import tlv
        from vlib.x5 import Cert
        from vlib.ca import der
        own = tlv.dump(m.certs[0]) if m.certs else der(self.env.ca_cert)
        known = {der(self.env.ca_cert), der(self.env.h.protection_handler.protection_cert)}
        if own not in known:
            return False
        c = Cert(own)
        from vlib import zoo  # noqa
        from cryptography.hazmat.primitives.asymmetric import ed25519
        if len(c.key_bits()) != 32:
            from resources.protectionutils import verify_pkimessage_protection
            from vlib import ca
            verify_pkimessage_protection(ca.parse(m.der()))
            return True
        ed25519.Ed25519PublicKey.from_public_bytes(c.key_bits()).verify(m.protection, covered)
        return True


def untag(raw):
    return raw


HASH = {"2.16.840.1.101.3.4.2.1": "sha256", "2.16.840.1.101.3.4.2.2": "sha384", "2.16.840.1.101.3.4.2.3": "sha512",
        "2.16.840.1.101.3.4.2.4": "sha224", "1.3.14.3.2.26": "sha1", "1.2.840.113549.2.7": "sha1",
        "1.2.840.113549.2.8": "sha224", "1.2.840.113549.2.9": "sha256", "1.2.840.113549.2.10": "sha384",
        "1.2.840.113549.2.11": "sha512", "1.3.6.1.5.5.8.1.2": "sha1"}


def pbm(alg, data, password):
    import hashlib
    import hmac
    from vlib import tlv, x5
    p = tlv.parse(alg).kids[1].kids
    salt, owf, it, mac = p[0].val, HASH[x5.find_oid(p[1].kids[0])], int.from_bytes(p[2].val, "big"), HASH[x5.find_oid(p[3].kids[0])]
    k = password + salt
    for _ in range(it):
        k = hashlib.new(owf, k).digest()
    return hmac.new(k, data, mac).digest()


def pbmac1(alg, data, password):
    import hashlib
    import hmac
    from vlib import tlv, x5
    p = tlv.parse(alg).kids[1].kids
    kdf, mac = p[0].kids[1].kids, HASH[x5.find_oid(p[1].kids[0])]
    ln, prf = None, "sha1"
    for x in kdf[2:]:
        if x.tag == b"\x02":
            ln = int.from_bytes(x.val, "big")
        else:
            prf = HASH[x5.find_oid(x.kids[0])]
    key = hashlib.pbkdf2_hmac(prf, password, kdf[0].val, int.from_bytes(kdf[1].val, "big"), ln or 32)
    return hmac.new(key, data, mac).digest()


def workload(rec, part, budget):
    import os
    from vlib import ca, flows, zoo
    from vlib.ca import der
    from vlib.msg import M, octets
    from vlib.world import World, sign, USABLE
    from resources.general_msg_utils import build_cmp_general_message, prepare_simple_info_types_and_value
    from resources.keyutils import generate_key
    rng = rec.rng
    w = World(rec, {"none"}, mac_pool=["password_based_mac"] * 8 + ["pbmac1", "hmac"])
    env = w.env
    mon = Monitor(rec, env)
    env.monitors.append(mon)
    ra = flows.ra_cred()
    kems = []

    def odd(raw):
        """Unusual header fields; unprotected, so that the bytes stay as they are."""
        m = M(raw)
        for name in rng.sample(["transactionID", "senderNonce", "recipNonce"], rng.randrange(1, 4)):
            n = rng.choice([None, 0, 1, 8, 15, 16, 17, 32, 64])
            m.set(name, None if n is None else octets(zoo.rnd_bytes(rng, n)))
        rec.count("odd header")
        return m

    def protect(msg, how):
        if how == "sig":
            return sign(msg, ra)
        if how == "ee":
            e = w.pick(*USABLE)
            return sign(msg, e) if e else msg
        return msg if how is None else ca.mac_protect(msg, how)

    MECH = [None, "password_based_mac", "password_based_mac", "pbmac1", "hmac", "sig", "ee"]

    def any_body():
        kind = rng.choice([b for b in zoo.BODIES if b != "nested"])
        e = w.pick(*USABLE)
        cert = e.cert if e else ra.cert
        m = zoo.body_message(kind, rng, cert, generate_key("ec", curve="secp256r1"))
        how = rng.choice(MECH)
        if rng.random() < 0.4:
            mm = odd(der(m))
            m = ca.parse(mm.der())
        try:
            m = protect(m, how)
        except Exception:  # noqa - the suite's client side refuses to protect it
            return
        env.send(m)

    def odd_request():
        """A request that is fine apart from unusual nonces and identifiers, correctly protected."""
        kind = rng.choice(["ir", "cr", "p10cr", "genm"])
        if kind == "genm":
            m = build_cmp_general_message(info_values=prepare_simple_info_types_and_value("current_crl"), sender="CN=x",
                                          recipient="CN=y", exclude_fields=None, transaction_id=os.urandom(16),
                                          sender_nonce=os.urandom(16))
        else:
            m = ca.request(kind, generate_key("ec", curve="secp256r1"), w.newcn(), implicit_confirm=rng.random() < 0.5)
        m = ca.parse(odd(der(m)).der())
        try:
            m = protect(m, rng.choice(["password_based_mac", "pbmac1", "sig"]))
        except Exception:  # noqa
            return
        env.send(m)

    def kem():
        if len(kems) < 2:
            c, r = flows.kem_enroll(env, w.newcn(), rng.choice(["ml-kem-512", "ml-kem-768", "xwing"]))
            if rec.check(c is not None, "kem-enrolment", f"KEM enrolment was refused: {r.text()}"):
                kems.append(c)
            return
        c = rng.choice(kems)
        tx = os.urandom(16)
        ss, r = flows.kem_secret(env, c, tx)
        if ss is None:
            rec.violation("kem-secret", f"no shared secret: {r.text()}")
            return
        mon.secrets[tx] = ss
        kind = rng.choice(["ir", "cr"])
        m = ca.request(kind, generate_key("ec", curve="secp256r1"), w.newcn(), transaction_id=tx, sender=c.cn,
                       implicit_confirm=True)
        env.send(flows.kem_protect(m, ss, c))

    def challenge():
        key = generate_key(rng.choice(["x25519", "ec", "ml-kem-512", "x448"]))
        enc = "KEM" in type(key).__name__
        r = env.send(flows.challenge_request(key, w.newcn(), ra, rng.choice(["ir", "cr"]), key_enc=enc))
        if r.body == "popdecc":
            rec.count("challenge")
            kari = ra.cert if type(key).__name__.startswith(("EC", "_EC", "Ell")) else None
            m = flows.challenge_answer(r, key, ra, kari)
            env.send(sign(m, ra))

    def nested():
        n = rng.choice((1, 1, 2, 3))
        inners = []
        for _ in range(n):
            m = ca.request(rng.choice(["ir", "cr", "p10cr"]), generate_key("ec", curve="secp256r1"), w.newcn(), implicit_confirm=True,
                           bad_pop=rng.random() < 0.2)
            inners.append(ca.mac_protect(m, rng.choice(["password_based_mac", "pbmac1"]),
                                         password="wrong" if rng.random() < 0.15 else ca.PASSWORD))
        r = env.send(flows.added_protection(inners[0], ra) if n == 1 else flows.batch(inners, ra))
        rec.count("nested" if r.body != "error" else "nested error")

    w.run(3, budget)
    for f in (kem, kem, challenge, nested):
        f()
    while rec.elapsed() < budget:
        r = rng.random()
        if r < 0.4:
            w.run(4, budget)
        elif r < 0.6:
            any_body()
        elif r < 0.78:
            odd_request()
        elif r < 0.86:
            kem()
        elif r < 0.93:
            challenge()
        else:
            nested()


def jobs(tier, seed):
    n, budget = (8, 22) if tier == "quick" else (32, 110)
    return [Job(f"replies-{i}", workload, timeout=400, part=i, budget=budget) for i in range(n)]
