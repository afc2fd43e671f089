"""P11: nested messages are unwrapped faithfully."""

from vlib.core import Job

RULE = ("case = one nested message (added protection, batch of requests or of confirmations) made of 1..6 inner messages of different kinds and "
        "protections, some of them not authentic or not grantable, with or without one deviation of the outer message; "
        "the reply and the change of the CA's records are compared with a model of what every inner message alone is entitled to")
REQUIRED = {"added granted": 12, "added refused": 20, "batch granted": 6, "batch partial": 4, "batch unauthentic": 4, "batch deviation": 15,
            "inner granted": 40, "confirmed in batch": 4, "orig message": 3}
ASSUMPTIONS = ["inner messages without protection of their own are accepted on the word of the registration authority (the configuration of the CA)",
               "one trusted registration authority (the one in data/trusted_ras)"]
NOTE = "model of the effects; online monitor of P04 on every inner and outer reply"


def job_nested(rec, steps, big=False):
    import os
    from checks import p04
    from vlib import ca, flows
    from vlib.ca import Cred, der
    from vlib.world import sign
    from resources import certbuildutils, cmputils, protectionutils
    from resources.keyutils import generate_key
    rng = rec.rng
    env = ca.Env(rec)
    mon = p04.Monitor(rec, env)
    env.monitors.append(mon)
    ra = flows.ra_cred()
    n = [0]
    usable, revoked, pending = [], [], []   # Cred / Cred / (resp, Cred, how)
    known = []                              # (key, cn) which have a certificate

    def cn():
        n[0] += 1
        return f"CN=P11 {n[0]} {rng.randrange(10**6)}"

    def ec():
        return generate_key("ec", curve=rng.choice(["secp256r1", "secp256r1", "secp384r1"]))

    def enrolled(k, name, implicit=True):
        cred, resp = ca.enroll(env, name, key=k, implicit=implicit)
        rec.check(cred is not None, "enrol", f"enrolment refused: {resp.text()}")
        return cred

    for _ in range(4):
        usable.append(enrolled(ec(), cn()))
    out_key = ec()
    out_cert, _ = certbuildutils.build_certificate(out_key, common_name="CN=Outsider", include_ski=True)
    outsider = Cred(out_key, out_cert)

    def revoke():
        c = usable.pop(0)
        m = cmputils.build_cmp_revoke_request(cert=c.cert, reason="keyCompromise", sender="CN=x", recipient="CN=y", pvno=3)
        if rec.check(env.send(sign(m, c)).ok, "rr", "revocation refused"):
            revoked.append(c)

    class Inner:
        """One inner message; verdict: grant | refuse (authentic, but not to be granted) | unauthentic."""

        def __init__(self, label, msg, verdict, key=None, name=None, implicit=True, effect=None):
            self.label, self.msg, self.verdict, self.key, self.name, self.implicit, self.effect = label, msg, verdict, key, name, implicit, effect
            self.how = None
            self.old = None

    def plain(kind=None, implicit=None, key=None, name=None, **kw):
        kind = kind or rng.choice(["ir", "cr", "p10cr"])
        key, name = key or ec(), name or cn()
        imp = rng.random() < 0.7 if implicit is None else implicit
        return kind, key, name, imp, ca.request(kind, key, name, mac=True, implicit_confirm=imp, pvno=rng.choice([2, 3]), **kw)

    def protect(m, how):
        if how == "none":
            return m
        if how == "sig":
            signer[0] = rng.choice(usable)
            return sign(m, signer[0])
        return ca.mac_protect(m, how)

    signer = [None]
    HOW = ["none", "password_based_mac", "pbmac1", "sig", "sig"]

    def fine():
        kind, key, name, imp, m = plain()
        how = rng.choice(HOW)
        i = Inner(f"{kind}/{how}", protect(m, how), "grant", key, name, imp)
        i.how, i.signer = how, signer[0]
        return i

    def kur():
        if len(usable) < 4:
            return fine()
        c = usable.pop(rng.randrange(len(usable)))   # not used for anything else from now on
        k = ec()
        imp = rng.random() < 0.7
        m = cmputils.build_key_update_request(k, cert=c.cert, implicit_confirm=imp, pvno=3)
        i = Inner("kur/sig", sign(m, c), "grant", k, None, imp, "kur")
        i.how, i.old = "sig", c
        return i

    def known_key():
        k, name = rng.choice(known) if known else (usable[0].key, None)
        if name is None:
            return fine()
        kind, _, _, imp, m = plain(key=k, name=name)
        how = rng.choice(HOW)
        return Inner(f"{kind}/{how}/known-key", protect(m, how), "refuse", k, name, imp)

    def bad_popo():
        kind, key, name, imp, m = plain(rng.choice(["ir", "cr"]))
        sig = m["body"][kind][0]["popo"]["signature"]["signature"].asOctets()
        b = bytearray(sig)
        b[-1 - rng.randrange(20)] ^= 1 << rng.randrange(8)
        from pyasn1.type import univ
        f = m["body"][kind][0]["popo"]["signature"]["signature"]
        m["body"][kind][0]["popo"]["signature"]["signature"] = f.clone(univ.BitString.fromOctetString(bytes(b)))
        how = rng.choice(HOW)
        return Inner(f"{kind}/{how}/bad-popo", protect(m, how), "refuse", key, name, imp)

    def broken():
        """Not authentic: whatever the RA says."""
        what = rng.choice(["mac", "sig", "password", "untrusted", "revoked", "kur-none", "kur-mac", "body"])
        kind, key, name, imp, m = plain()
        if what in ("mac", "sig"):
            m = protect(m, "sig" if what == "sig" else rng.choice(["password_based_mac", "pbmac1"]))
            b = bytearray(m["protection"].asOctets())
            b[rng.randrange(len(b) - 10, len(b)) if what == "sig" else rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            m["protection"] = protectionutils.prepare_pki_protection_field(bytes(b))
        elif what == "password":
            m = ca.mac_protect(m, password="SiemensIt")
        elif what == "untrusted":
            m = sign(m, outsider)
        elif what == "revoked":
            if not revoked:
                return broken()
            m = sign(m, rng.choice(revoked))
        elif what in ("kur-none", "kur-mac"):
            c = rng.choice(usable)
            m = cmputils.build_key_update_request(key, cert=c.cert, implicit_confirm=True, pvno=3, exclude_fields=None, sender=c_name(c))
            if what == "kur-mac":
                m = ca.mac_protect(m)
        else:
            from vlib.msg import M
            m = protect(m, rng.choice(["password_based_mac", "sig"]))
            raw = M(der(m))
            raw.set("messageTime", None) if rng.random() < 0.5 else raw.set("recipKID", None)
            if raw.der() == der(m):
                return broken()
            m = ca.parse(raw.der())
        return Inner(f"{kind}/{what}", m, "unauthentic", key, name, imp)

    def c_name(c):
        from resources.utils import get_openssl_name_notation
        return get_openssl_name_notation(c.cert["tbsCertificate"]["subject"])

    def inner(p_ref, p_bad):
        r = rng.random()
        if r < p_bad:
            return broken()
        if r < p_bad + p_ref:
            return rng.choice([known_key, bad_popo])()
        return rng.choice([fine, fine, fine, kur])()

    # -- what the CA has on record, against the model --------------------------------------------------
    def settle(what, before, granted, art):
        """granted: inner messages which were granted, with their replies."""
        after = env.record()
        new = {c: s for c, s in after.items() if c not in before}
        gone = [c for c in before if c not in after]
        want = {}
        changed = {}
        for i, resp in granted:
            certs = resp.certs()
            if not rec.check(len(certs) == 1, "certs", f"{what}: {i.label} has {len(certs)} certificates", **art):
                return
            c = certs[0]
            from vlib import tlv
            from vlib.x5 import Cert
            x = Cert(der(c))
            rec.check(tlv.dump(x.spki) == spki(i.key), "other-key", f"{what}: {i.label}: the certificate is for another key", **art)
            if i.name:
                rec.check(i.name[3:] in subj(c), "other-subject", f"{what}: {i.label}: the certificate is for {subj(c)}", **art)
            want[der(c)] = "CONFIRMED" if i.implicit else "NOT_CONFIRMED"
            if i.old is not None:
                changed[der(i.old.cert)] = "UPDATED" if i.implicit else "UPDATED_BUT_NOT_CONFIRMED"
            cred = Cred(i.key, c, [env.ca_cert])
            if i.implicit:
                usable.append(cred)
            elif i.how in ("sig", "password_based_mac", "pbmac1"):
                pending.append((resp, cred, i))
            if i.name:
                known.append((i.key, i.name))
            rec.count("inner granted")
        rec.check(new == want, "records", f"{what}: {len(new)} new certificates on record ({sorted(new.values())}), {len(want)} granted ({sorted(want.values())})", **art)
        rec.check(not gone, "records-gone", f"{what}: {len(gone)} certificates are gone", **art)
        for c, s in before.items():
            if c in after:
                exp = changed.get(c, s)
                rec.check(after[c] == exp, "records-state", f"{what}: a certificate went from {s} to {after[c]}, not {exp}", **art)

    def spki(key):
        from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
        return key.public_key().public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)

    def subj(c):
        from resources.utils import get_openssl_name_notation
        return str(get_openssl_name_notation(c["tbsCertificate"]["subject"]))

    def replies(resp):
        return [ca.Resp(der(x)) for x in resp.msg["body"]["nested"]] if resp.body == "nested" else [resp]

    # -- outer deviations ---------------------------------------------------------------------------
    def outer_bad(build):
        """build(ra-like signer) -> signed nested message. Returns (label, message or bytes)."""
        from vlib.msg import M, octets
        what = rng.choice(["flip", "untrusted", "end-entity", "mac", "none", "stolen-cert", "no-certs", "header", "inner", "cut"])
        if what == "untrusted":
            return what, build(lambda m: sign(m, outsider))
        if what == "end-entity":
            return what, build(lambda m: sign(m, rng.choice(usable)))
        if what == "stolen-cert":
            thief = Cred(outsider.key, ra.cert, ra.chain)
            return what, build(lambda m: sign(m, thief))
        if what == "mac":
            return what, build(lambda m: ca.mac_protect(cmputils.patch_extra_certs(m, [ra.cert] + ra.chain), rng.choice(["password_based_mac", "pbmac1"])))
        if what == "none":
            return what, build(lambda m: cmputils.patch_extra_certs(m, [ra.cert] + ra.chain))
        m = build(lambda m: sign(m, ra))
        if what == "flip":
            b = bytearray(m["protection"].asOctets())
            b[rng.randrange(len(b) - 30, len(b))] ^= 1 << rng.randrange(8)
            m["protection"] = protectionutils.prepare_pki_protection_field(bytes(b))
            return what, m
        raw = M(der(m))
        if what == "no-certs":
            raw.certs = None
        elif what == "cut":
            raw.protection = None
            raw.set("protectionAlg", None)
        elif what == "header":
            f = rng.choice(["senderNonce", "recipNonce", "messageTime", "freeText"])
            if f == "messageTime":
                if raw.get("messageTime") is None:
                    return outer_bad(build)
                raw.set("messageTime", None)
            else:
                raw.set(f, octets(os.urandom(16))) if f != "freeText" else raw.set("transactionID", octets(os.urandom(16)))
        else:  # one octet of the inner messages
            from vlib import tlv
            leaves = [x for _, x in tlv.leaves(raw.t.kids[1]) if len(x.val) > 3 and x.tag in (b"\x04", b"\x03", b"\x0c", b"\x02")]
            x = rng.choice(leaves)
            b = bytearray(x.val)
            b[rng.randrange(1, len(b))] ^= 1 << rng.randrange(8)
            x.val = bytes(b)
        return what, raw.der()

    # -- cases ----------------------------------------------------------------------------------------
    def expect_none(what, resp, before, art, granted_ok=False):
        ok = [r for r in replies(resp) if r.ok and r.body != "error"]
        rec.check(not ok, "granted:" + what.split()[0], f"{what}: granted ({resp.body})", **art)
        settle(what, before, [], art)

    def case_added():
        from vlib.msg import M, octets
        r = rng.random()
        i = inner(0.12, 0.2)
        before = env.record()
        if r < 0.3:
            label, m = outer_bad(lambda s: s(cmputils.build_nested_pkimessage(other_messages=i.msg, for_added_protection=True, exclude_fields=None)))
            restore(i)
            resp = env.send(m)
            rec.ev("added", label, i.label, counter="added refused")
            return expect_none(f"added-{label} {i.label}", resp, before, dict(request=env.log[-1][0], response=resp.raw))
        if r < 0.55:
            dev = rng.choice(["tx", "senderNonce", "inner-tx-none", "inner-nonce-none", "outer-tx-none", "outer-nonce-none", "recipNonce", "short"])
            m = M(der(cmputils.build_nested_pkimessage(other_messages=i.msg, for_added_protection=True, exclude_fields=None)))
            if i.how not in (None, "none") and dev in ("inner-tx-none", "inner-nonce-none", "short"):
                restore(i)
                return
            inn = M(der(i.msg))
            if dev == "tx":
                m.set("transactionID", octets(os.urandom(16)))
            elif dev == "senderNonce":
                m.set("senderNonce", octets(os.urandom(16)))
            elif dev == "outer-tx-none":
                m.set("transactionID", None)
            elif dev == "outer-nonce-none":
                m.set("senderNonce", None)
            elif dev == "recipNonce":
                m.set("recipNonce", octets(os.urandom(16)))
            elif dev == "inner-tx-none":
                inn.set("transactionID", None)
            elif dev == "inner-nonce-none":
                inn.set("senderNonce", None)
            else:
                x = octets(os.urandom(rng.choice([4, 8, 15])))
                inn.set("senderNonce", x)
                m.set("senderNonce", x)
            from vlib import tlv
            m.t.kids[1].kids[0].kids[0] = tlv.parse(inn.der())
            restore(i)
            resp = env.send(sign(ca.parse(m.der()), ra))
            rec.ev("added", dev, i.label, counter="added refused")
            return expect_none(f"added-{dev} {i.label}", resp, before, dict(request=env.log[-1][0], response=resp.raw))
        orig = None
        if rng.random() < 0.25:
            orig = rng.choice(["good", "bad"])
            kind, _, _, _, o = plain("ir")
            o = ca.mac_protect(o) if rng.random() < 0.5 else sign(o, rng.choice(usable))
            if orig == "bad":
                b = bytearray(o["protection"].asOctets())
                b[-1 - rng.randrange(8)] ^= 1 << rng.randrange(8)
                o["protection"] = protectionutils.prepare_pki_protection_field(bytes(b))
            rec.count("orig message")
        m = cmputils.build_nested_pkimessage(other_messages=i.msg, for_added_protection=True, exclude_fields=None)
        if orig:
            from vlib import tlv
            x = M(der(m))
            x.set("generalInfo", tlv.Node(b"\x30", True, kids=[tlv.parse(der(cmputils.prepare_orig_pki_message(o)))]))
            m = ca.parse(x.der())
        resp = env.send(sign(m, ra))
        art = dict(request=env.log[-1][0], response=resp.raw)
        what = f"added {i.label}" + (f" orig-{orig}" if orig else "")
        rec.ev("added", i.label, orig, i.verdict)
        if i.verdict == "grant" and orig != "bad":
            if not rec.check(resp.ok and resp.body in ("ip", "cp", "kup"), "refused:added", f"{what}: refused ({resp.body} {resp.text()})", **art):
                return settle(what, before, [], art)
            rec.count("added granted")
            return settle(what, before, [(i, resp)], art)
        restore(i)
        rec.count("added refused")
        expect_none(what, resp, before, art)

    def restore(i):
        """The certificate of a key update that does not happen goes on being used."""
        if i.old is not None:
            usable.append(i.old)
            i.old = None

    def case_batch():
        from vlib import tlv
        from vlib.msg import M, octets
        k = rng.choice([2, 2, 3, 3, 4, 6] + ([8, 12] if big else []))
        mode = rng.choice(["fine", "fine", "partial", "unauthentic", "outer", "outer", "dev", "dev", "dev"])
        twice = False  # a message with added protection in the batch: the CA may refuse such batches
        ins = [inner(0.35 if mode == "partial" else 0, 0) for _ in range(k)]
        if mode == "unauthentic":
            ins[rng.randrange(k)] = broken()
        if mode == "partial" and all(i.verdict == "grant" for i in ins):
            ins[rng.randrange(k)] = bad_popo()
        if mode in ("fine", "partial") and rng.random() < 0.25:
            # the same key and subject twice: only the first is granted
            kind, key, name, imp, m = plain()
            ins.append(Inner(f"{kind}/none/first", m, "grant", key, name, imp))
            kind, _, _, imp, m = plain(key=key, name=name)
            ins.append(Inner(f"{kind}/none/second", m, "refuse", key, name, imp))
            mode = "partial"
        if mode in ("fine", "partial") and rng.random() < 0.15:
            # one inner message already has the protection of the RA added
            j = rng.randrange(len(ins))
            ins[j].msg = flows.added_protection(ins[j].msg, ra)
            ins[j].label += "/added"
            twice = True
        msgs = [i.msg for i in ins]
        before = env.record()
        build = lambda s: s(cmputils.build_nested_pkimessage(other_messages=msgs, exclude_fields=None))
        if mode == "outer":
            label, m = outer_bad(build)
            resp = env.send(m)
            for i in ins:
                restore(i)
            rec.ev("batch", label, k, counter="batch deviation")
            return expect_none(f"batch-{label} of {k}", resp, before, dict(request=env.log[-1][0], response=resp.raw))
        if mode == "dev":
            dev = rng.choice(["tx-twice", "nonce-twice", "tx-outer", "nonce-outer", "tx-none", "nonce-none", "nonce-short", "tx-short",
                              "recipNonce", "mixed", "rr", "genm", "nested2", "pkiconf", "outer-tx-none", "outer-nonce-none"])
            for i in ins:
                restore(i)
            ins = [fine_unprotected() for _ in range(k)]
            msgs = [i.msg for i in ins]
            a, b = rng.sample(range(k), 2)
            ms = [M(der(x)) for x in msgs]
            m = M(der(cmputils.build_nested_pkimessage(other_messages=msgs, exclude_fields=None)))
            if dev == "tx-twice":
                ms[b].set("transactionID", octets(ms[a].value("transactionID")))
            elif dev == "nonce-twice":
                ms[b].set("senderNonce", octets(ms[a].value("senderNonce")))
            elif dev == "tx-outer":
                ms[b].set("transactionID", octets(m.value("transactionID")))
            elif dev == "nonce-outer":
                ms[b].set("senderNonce", octets(m.value("senderNonce")))
            elif dev in ("tx-none", "nonce-none"):
                ms[b].set("transactionID" if dev[0] == "t" else "senderNonce", None)
            elif dev in ("tx-short", "nonce-short"):
                ms[b].set("transactionID" if dev[0] == "t" else "senderNonce", octets(os.urandom(rng.choice([1, 8, 15]))))
            elif dev == "recipNonce":
                m.set("recipNonce", octets(os.urandom(16)))
            elif dev in ("outer-tx-none", "outer-nonce-none"):
                m.set("transactionID" if "tx" in dev else "senderNonce", None)
            elif dev == "nested2":
                sub = cmputils.build_nested_pkimessage(other_messages=[fine_unprotected().msg, fine_unprotected().msg], exclude_fields=None)
                ms[b] = M(der(sign(sub, ra)))
            elif dev == "mixed":
                c = usable[0]
                ms[b] = M(der(sign(cmputils.build_cert_conf(cert=c.cert, hash_alg="sha512", cert_req_id=0, transaction_id=os.urandom(16), sender_nonce=os.urandom(16),
                                                            recip_nonce=os.urandom(16)), c)))
            elif dev == "rr":
                c = usable[0]
                ms[b] = M(der(sign(cmputils.build_cmp_revoke_request(cert=c.cert, reason="keyCompromise", sender="CN=x", recipient="CN=y", pvno=3), c)))
            elif dev == "genm":
                from resources import general_msg_utils as g
                ms[b] = M(der(sign(g.build_cmp_general_message(info_values=g.prepare_simple_info_types_and_value("ca_certs"),
                                                               exclude_fields="sender,senderKID"), usable[0])))
            else:
                ms[b].t.kids[1] = tlv.parse(b"\xb3\x02\x05\x00")
            m.t.kids[1].kids[0].kids = [tlv.parse(x.der()) for x in ms]
            resp = env.send(sign(ca.parse(m.der()), ra))
            rec.ev("batch", dev, k, counter="batch deviation")
            art = dict(request=env.log[-1][0], response=resp.raw)
            if dev in ("rr", "genm", "nested2", "pkiconf", "mixed"):
                # whether such a message can be part of a batch is the CA's choice: if it is, the whole batch is answered
                if resp.body == "nested":
                    rec.check(len(replies(resp)) == k, "batch-length", f"batch-{dev}: {len(replies(resp))} replies for {k}", **art)
            return expect_none(f"batch-{dev} of {k}", resp, before, art)
        resp = env.send(build(lambda m: sign(m, ra)))
        raw = env.log[-1][0]
        art = dict(request=raw, response=resp.raw)
        labels = "+".join(i.label for i in ins)
        what = f"batch {labels}"
        rec.ev("batch", mode, tuple(sorted(i.label for i in ins)))
        if any(i.verdict == "unauthentic" for i in ins):
            for i in ins:
                restore(i)
            rec.count("batch unauthentic")
            rec.check(resp.body == "error", "unauthentic:batch", f"{what}: answered with {resp.body}", **art)
            return expect_none(what, resp, before, art)
        rs = replies(resp)
        good = [i for i in ins if i.verdict == "grant"]
        if resp.body != "nested":
            for i in ins:
                restore(i)
            rec.check(len(good) < len(ins) or twice, "refused:batch", f"{what}: refused though every inner request is fine ({resp.body} {resp.text()})", **art)
            rec.count("batch refused as a whole")
            return settle(what, before, [], art)
        if not rec.check(len(rs) == len(ins), "batch-length", f"{what}: {len(rs)} replies for {len(ins)}", **art):
            return
        granted = []
        for i, r in zip(ins, rs):
            if i.verdict == "grant":
                if rec.check(r.ok and r.body in ("ip", "cp", "kup"), "inner-refused", f"{what}: {i.label} refused ({r.body} {r.text()})", **art):
                    granted.append((i, r))
                else:
                    restore(i)
            else:
                rec.check(not r.ok or r.body == "error", "inner-granted", f"{what}: {i.label} granted", **art)
                restore(i)
        rec.count("batch granted" if len(good) == len(ins) else "batch partial")
        settle(what, before, granted, art)
        if rng.random() < 0.3:   # the whole batch again
            before = env.record()
            resp = env.send(raw)
            rec.ev("batch replay", k, counter="replayed")
            expect_none(f"batch-replayed {labels}", resp, before, dict(request=raw, response=resp.raw))

    def fine_unprotected():
        kind, key, name, imp, m = plain(rng.choice(["ir", "cr"]))
        return Inner(f"{kind}/none", m, "grant", key, name, imp)

    def case_conf():
        """Batched confirmations (each bound to its own pending certificate)."""
        want = rng.choice([1, 2, 2, 3, 4])
        pending[:] = [p for p in pending if p[2].how != "sig" or p[2].old is not None or p[2].signer in usable]
        while len(pending) < want:
            kind, key, name, imp, m = plain(rng.choice(["ir", "cr"]), implicit=False)
            how = rng.choice(["password_based_mac", "pbmac1", "sig"])
            s = rng.choice(usable)
            resp = env.send(sign(m, s) if how == "sig" else ca.mac_protect(m, how))
            if not rec.check(resp.ok and len(resp.certs()) == 1, "enrol", f"request refused: {resp.text()}"):
                return
            i = Inner(f"{kind}/{how}", None, "grant", key, name, False)
            i.how, i.signer = how, s
            pending.append((resp, Cred(key, resp.certs()[0], [env.ca_cert]), i))
            known.append((key, name))
        rng.shuffle(pending)
        ps = pending[:want]
        del pending[:want]
        bad = rng.choice([None, None, "hash", "other", "protection"])
        j = rng.randrange(want)
        msgs = []
        for x, (resp, c, i) in enumerate(ps):
            cert = c.cert if not (bad == "other" and x == j) else usable[0].cert
            if i.how == "sig":
                m = cmputils.build_cert_conf_from_resp(resp.msg, cert=cert, hash_alg="sha512", pvno=3, exclude_fields="sender,senderKID")
            else:
                m = cmputils.build_cert_conf_from_resp(resp.msg, cert=cert, hash_alg="sha512", pvno=3, for_mac=True, sender=i.name or subj(c.cert))
            if bad == "hash" and x == j:
                from pyasn1.type import univ
                m["body"]["certConf"][0]["certHash"] = univ.OctetString(os.urandom(64))
            if i.how == "sig":
                m = sign(m, i.old or i.signer)
            else:
                m = ca.mac_protect(m, i.how)
            if bad == "protection" and x == j:
                b = bytearray(m["protection"].asOctets())
                b[-1 - rng.randrange(8)] ^= 1 << rng.randrange(8)
                m["protection"] = protectionutils.prepare_pki_protection_field(bytes(b))
            msgs.append(m)
        before = env.record()
        if want == 1:
            resp = env.send(flows.added_protection(msgs[0], ra))
        else:
            resp = env.send(flows.batch(msgs, ra, recip_nonce=os.urandom(16)))
        art = dict(request=env.log[-1][0], response=resp.raw)
        what = f"confirmations {want} bad={bad} " + "+".join(f"{i.how}" for _, _, i in ps)
        rec.ev("conf", want, bad, tuple(i.how for _, _, i in ps))
        after = env.record()
        rs = replies(resp)
        if resp.body == "nested":
            rec.check(len(rs) == want, "batch-length", f"{what}: {len(rs)} replies", **art)
        if bad == "protection":
            rec.check(after == before and resp.body == "error", "unauthentic:conf", f"{what}: {resp.body}", **art)
        for x, (rp, c, i) in enumerate(ps):
            if resp.body == "error" and want > 1:
                rec.check(bad is not None, "refused:conf", f"{what}: refused ({resp.text()})", **art)
                st = "NOT_CONFIRMED"
                r = None
            else:
                r = rs[x] if len(rs) > x else None
                if bad and x == j:
                    rec.check(r is not None and r.body != "pkiconf", "bad-conf-accepted", f"{what}: entry {x} accepted", **art)
                    st = None
                else:
                    rec.check(r is not None and r.body == "pkiconf", "conf-refused", f"{what}: entry {x} refused ({r and r.text()})", **art)
                    st = "CONFIRMED"
            got = after.get(der(c.cert))
            if st == "CONFIRMED":
                rec.check(got == st, "conf-state", f"{what}: entry {x} is {got}", **art)
                rec.count("confirmed in batch")
                usable.append(c)
            else:
                rec.check(got != "CONFIRMED", "conf-state", f"{what}: entry {x} is {got}", **art)
        mine = {der(c.cert) for _, c, _ in ps} | {der(i.old.cert) for _, _, i in ps if i.old is not None}
        for c, s in before.items():
            if c not in mine:
                rec.check(after.get(c) == s, "records-state", f"{what}: another certificate went from {s} to {after.get(c)}", **art)

    for s in range(steps):
        if not revoked and len(usable) > 4:
            revoke()
        while len(usable) < 4:
            usable.append(enrolled(ec(), cn()))
        r = rng.random()
        (case_added if r < 0.45 else case_batch if r < 0.9 else case_conf)()


def jobs(tier, seed):
    t = tier == "thorough"
    return [Job(f"nested-{i}", job_nested, timeout=2400, steps=500 if t else 40, big=t) for i in range(24 if t else 8)]
