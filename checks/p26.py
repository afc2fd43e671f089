"""P26: general messages: what is asked for is what is answered, and it is the CA's own truth at that moment."""

import datetime

from vlib.core import Job

RULE = ("case = (information types asked for and their values, how the message is protected, what has happened to the CA's certificates "
        "before); answers are read as DER and compared with the harness's own record of the CA")
REQUIRED = {"answered": 30, "values": 60, "refused": 60, "types": 13, "crl answers": 10, "crl entries": 6, "key update answers": 4,
            "several": 12, "bad protection": 12, "advertised keys granted": 8, "passphrases": 4, "passphrases refused": 4, "client accepts": 10,
            "client refuses": 25}
ASSUMPTIONS = ["messages are handled one at a time", "unprotected general messages are answered (the CA asks for no protection here)",
               "the language answered is one of the CA's languages; the CA documents that it always picks en",
               "a CRL thisUpdate within an hour of the CA's 25 hour limit is not generated",
               "passphrases are sent under the shared secret, in messages protected with it", "issuer names of a CRL status list are directory names or this CA's URL in a distribution point"]
NOTE = "the key update is documented as a demonstration: its three certificates are judged, not that the CA changes its key"

IT = "1.3.6.1.5.5.7.4."
KEM_CT = "1.3.6.1.5.5.7.4.24"
SINGLE = (1, 2, 3, 4, 6, 13, 17, 19)
ML_DSA = {"2.16.840.1.101.3.4.3.%d" % (17 + i): n for i, n in enumerate(("ml-dsa-44", "ml-dsa-65", "ml-dsa-87"))}
CURVES = {"1.2.840.10045.3.1.7": "secp256r1", "1.3.132.0.34": "secp384r1", "1.3.132.0.35": "secp521r1"}


def now():
    return datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)


def job_answers(rec, rounds, budget, ca_alg=None):
    from cryptography import x509
    from cryptography.exceptions import InvalidSignature
    from resources import certutils, cmputils, general_msg_utils as g
    from resources.keyutils import generate_key
    from vlib import ca, flows, tlv, x5
    from vlib.msg import M
    from vlib.x5 import oid, seq, text
    rng = rec.rng
    kw = {}
    env = ca.Env(rec, **kw)
    ra = flows.ra_cred()
    types = set()
    people, gone, n = [], set(), [0]

    def cn():
        n[0] += 1
        return f"CN=G{rec.rng.randrange(10 ** 6)} {n[0]}"

    # -- history --------------------------------------------------------------------------------------------------------------
    def enroll():
        c, r = ca.enroll(env, cn())
        if rec.check(c is not None, "history:enroll", f"enrolment refused: {r.text()}"):
            people.append(c)

    def revoke():
        c = rng.choice([p for p in people if serial(p.cert) not in gone] or [None])
        if c is None:
            return
        r = env.send(ca.sig_protect(cmputils.build_cmp_revoke_request(cert=c.cert, reason="superseded", exclude_fields=None), rng.choice((c, ra))))
        if rec.check(r.ok, "history:revoke", f"revocation refused: {r.text()}"):
            gone.add(serial(c.cert))

    def revive():
        c = next((p for p in people if serial(p.cert) in gone), None)
        if c is None:
            return
        r = env.send(ca.sig_protect(cmputils.build_cmp_revive_request(cert=c.cert, exclude_fields=None), ra))
        if rec.check(r.ok, "history:revive", f"revive refused: {r.text()}"):
            gone.discard(serial(c.cert))

    def serial(c):
        return int(c["tbsCertificate"]["serialNumber"])

    # -- requests -------------------------------------------------------------------------------------------------------------
    base = g.prepare_simple_info_types_and_value("current_crl")

    def message(entries, prot):
        who = None
        if prot in ("sig", "sig-person"):
            who = ra if prot == "sig" or not [p for p in people if serial(p.cert) not in gone] else rng.choice([p for p in people if serial(p.cert) not in gone])
        x = M(ca.der(g.build_cmp_general_message(info_values=base, sender="CN=Client", recipient="CN=Mock CA", for_mac=True, exclude_fields=None, pvno=3)))
        x.body = seq(*entries)
        m = ca.parse(x.der())
        if prot == "none":
            return m
        if who is not None:
            return ca.sig_protect(cmputils.patch_sender(m, cert=who.cert), who)
        if prot == "wrong":
            return ca.mac_protect(m, rng.choice(("password_based_mac", "pbmac1")), b"not the password")
        return ca.mac_protect(m, prot)

    def e(n, *v):
        return seq(oid(n if isinstance(n, str) else IT + str(n)), *v)

    # -- what the CA may say --------------------------------------------------------------------------------------------------
    me = tlv.parse(ca.der(env.ca_cert))
    subject = me.kids[0].kids[5]
    ca_key = x509.load_der_x509_certificate(ca.der(env.ca_cert)).public_key()
    prot_enc = ca.der(ca.load_cert("data/unittest/ca_encr_cert_rsa.pem"))

    def signed_by_ca(raw, what):
        try:
            if what == "crl":
                return x509.load_der_x509_crl(raw).is_signature_valid(ca_key)
            t = tlv.parse(raw)
            k = ca_key
            k.verify(t.kids[2].val[1:], tlv.dump(t.kids[0]))
            return True
        except (InvalidSignature, ValueError, TypeError):
            return False

    def crl(raw, art):
        try:
            c = x509.load_der_x509_crl(raw)
        except Exception as ex:  # noqa
            rec.check(False, "crl:parse", f"the CRL of the answer does not parse: {ex!r}", **art)
            return
        rec.count("crl answers")
        got = sorted(r.serial_number for r in c)
        rec.count("crl entries", len(got))
        rec.check(got == sorted(gone), "crl:content", f"the CRL lists {len(got)} certificates, {len(gone)} are revoked; {len(set(got) ^ gone)} differ", **art)
        rec.check(c.issuer.public_bytes() == tlv.dump(subject), "crl:issuer", "the CRL is of another issuer", **art)
        rec.check(signed_by_ca(raw, "crl"), "crl:signature", "the CRL is not signed by the CA", **art)
        rec.check(c.last_update_utc.replace(tzinfo=None) <= now() + datetime.timedelta(seconds=5) and c.next_update_utc.replace(tzinfo=None) > now(),
                  "crl:time", f"the CRL is of {c.last_update_utc} to {c.next_update_utc}", **art)

    def key_update(val, art):
        rec.count("key update answers")
        k = val.kids
        if not rec.check(len(k) == 3 and k[1].tag == b"\xa0" and k[2].tag == b"\xa1", "key update:shape", "not newWithNew, newWithOld, oldWithNew", **art):
            return
        certs = [k[0], k[1].kids[0], k[2].kids[0]]
        nwn, nwo, own = certs
        spki = lambda c: tlv.dump(c.kids[0].kids[6])  # noqa: E731
        rec.check(spki(nwn) == spki(nwo) and spki(own) == spki(me) and spki(nwn) != spki(me), "key update:keys", "the certificates are not of the new and the old key", **art)
        rec.check(all(tlv.dump(c.kids[0].kids[3]) == tlv.dump(c.kids[0].kids[5]) == tlv.dump(subject) for c in certs), "key update:names", "the certificates are not of this CA", **art)
        rec.check(signed_by_ca(tlv.dump(nwo), "cert"), "key update:newWithOld", "newWithOld is not signed by the old key", **art)
        for c, w in ((nwn, "newWithNew"), (own, "oldWithNew")):
            try:
                certutils.verify_cert_signature(_cert(tlv.dump(c)), issuer_pub_key=pub(tlv.dump(nwn)))
                ok = True
            except Exception:  # noqa
                ok = False
            rec.check(ok, f"key update:{w}", f"{w} is not signed by the new key", **art)

    def _cert(raw):
        return certutils.parse_certificate(raw)

    def pub(raw):
        from resources import keyutils
        return keyutils.load_public_key_from_spki(_cert(raw)["tbsCertificate"]["subjectPublicKeyInfo"])

    advertised = {}

    def algs(val, n, art):
        ids = [tlv.dump(k) for k in val.kids]
        rec.check(ids and len(set(ids)) == len(ids), f"algorithms:{n}:twice", "no algorithms, or one of them twice", **art)
        oids = [x5.find_oid(k.kids[0]) for k in val.kids]
        curves = {x5.find_oid(k.kids[1]) for k, o in zip(val.kids, oids) if o == "1.2.840.10045.2.1" and len(k.kids) == 2 and k.kids[1].tag == b"\x06"}
        rec.check(set(CURVES) <= curves, f"algorithms:{n}:curves", f"curves {sorted(curves)}", **art)
        rec.check(all(len(k.kids) == 2 for k, o in zip(val.kids, oids) if o == "1.2.840.10045.2.1"), f"algorithms:{n}:no curve", "EC without its curve", **art)
        want = {"1.2.840.113549.1.1.1", "1.3.101.112", "1.3.101.113", *ML_DSA} if n == 2 else {"1.3.101.110", "1.3.101.111"}
        rec.check(want <= set(oids), f"algorithms:{n}:missing", f"{sorted(want - set(oids))} missing", **art)
        rec.check(not ({"1.3.101.110", "1.3.101.111"} if n == 2 else {"1.3.101.112", "1.3.101.113", *ML_DSA}) & set(oids), f"algorithms:{n}:wrong use",
                  "algorithms of the other use", **art)
        if n == 2:
            advertised.update({x: None for x in [(o, None) for o in oids if o in ML_DSA or o in ("1.2.840.113549.1.1.1", "1.3.101.112", "1.3.101.113")]
                               + [("1.2.840.10045.2.1", c) for c in curves if c in CURVES]})

    def person_cert():
        return tlv.parse(ca.der(rng.choice(people).cert if people and rng.random() < 0.5 else ra.cert))

    def stamp(hours):
        t = now() - datetime.timedelta(hours=hours)
        if rng.random() < 0.5:
            return tlv.Node(b"\x17", False, t.strftime("%y%m%d%H%M%SZ").encode())
        return tlv.Node(b"\x18", False, t.strftime("%Y%m%d%H%M%SZ").encode())

    def ctx(n, *kids):
        return tlv.Node(bytes([0xA0 | n]), True, kids=list(kids))

    def crl_status():
        """(node, is the CA's own CRL asked for, too old or absent time)"""
        mine = rng.random() < 0.6
        name = ctx(4, subject if mine else x5.simple_name("Other %d" % rng.randrange(10 ** 6)))
        others = [ctx(4, x5.simple_name("Else %d" % rng.randrange(99))) for _ in range(rng.choice((0, 0, 1, 2)))]
        names = others + [name]
        rng.shuffle(names)
        how = rng.choice(("issuer", "full", "uri", "relative"))
        if how == "issuer":
            src = ctx(1, *names)
        elif how == "full":
            src = ctx(0, ctx(0, *names))
        elif how == "uri":
            u = env.h.url_data.crl_url if mine else "http://127.0.0.1/other/%d" % rng.randrange(99)
            src = ctx(0, ctx(0, *others, tlv.Node(b"\x86", False, u.encode())))
        else:
            rdn = (subject if mine else x5.simple_name("Other")).kids[-1]
            src = ctx(0, ctx(1, *rdn.kids))
        hours = rng.choice((None, None, -2, 0.1, 3, 20, 23.9, 26.1, 30, 400, 9000))
        return seq(src, *([stamp(hours)] if hours is not None else [])), mine and (hours is None or hours > 25)

    def passphrase(good=True):
        txt = "".join(rng.choice("abcdefgh123456789") for _ in range(rng.randrange(4, 30)))
        iv = g.prepare_revocation_passphrase(txt, password=ca.PASSWORD if good else "another password")
        return txt, tlv.parse(ca.der(iv))

    def good(mac=False):
        """(entry, judge(value node or None, artifacts)) of something the CA answers"""
        n = rng.choice(SINGLE + (6, 22, 22, 20, 20, 16, 10, 7) + ((12, 12, 12) if mac else ()))
        types.add(n)
        if n in SINGLE:
            def judge(o, v, art):
                if n == 1:
                    rec.check(v is not None and tlv.dump(v) == prot_enc, "value:1", "not the CA's encryption certificate", **art)
                elif n in (2, 3):
                    if rec.check(v is not None, f"value:{n}", "no algorithms", **art):
                        algs(v, n, art)
                elif n == 4:
                    rec.check(v is not None and x5.find_oid(v.kids[0]) == "2.16.840.1.101.3.4.1.42" and v.kids[1].tag == b"\x04" and len(v.kids[1].val) == 16,
                              "value:4", "not AES-256-CBC with an IV", **art)
                elif n == 6:
                    if rec.check(v is not None, "value:6", "no CRL", **art):
                        crl(tlv.dump(v), art)
                elif n == 13:
                    rec.check(v is None or tlv.dump(v) == b"\x05\x00", "value:13", "a value that is not NULL", **art)
                elif n == 17:
                    rec.check(v is not None and [tlv.dump(k) for k in v.kids] == [tlv.dump(me)], "value:17", "not the CA's certificates", **art)
                elif n == 19:
                    ok = v is not None and [k.tag for k in v.kids[0].kids if k.tag[0] & 0x1F in (0, 1, 2, 6, 7, 8)] == []
                    rec.check(ok, "value:19", "a template with fields that must be absent", **art)
                    if ok:
                        rec.check([tlv.dump(k) for k in v.kids[1].kids] == [tlv.dump(seq(oid("1.3.6.1.5.5.7.5.1.12"), tlv.Node(b"\x02", False, b"\x08\x00")))],
                                  "value:19:key", "not a 2048 bit RSA key", **art)
            return e(n), n, judge
        if n == 20:
            mode = rng.choice(("absent", "mine", "other"))

            def judge(o, v, art):
                if mode == "other":
                    rec.check(v is None, "value:20:other", "a key update for another root", **art)
                elif rec.check(v is not None, "value:20", f"no key update for {mode}", **art):
                    key_update(v, art)
            return e(20, *([] if mode == "absent" else [me if mode == "mine" else person_cert()])), 18, judge
        if n == 22:
            rows = [crl_status() for _ in range(rng.choice((1, 1, 2, 3)))]
            want = sum(r[1] for r in rows)

            def judge(o, v, art):
                if not want:
                    rec.check(v is None, "value:22:unasked", "a CRL that is not newer, or of another issuer", **art)
                elif rec.check(v is not None and 1 <= len(v.kids) <= want, "value:22", f"{len(v.kids) if v is not None else 0} CRLs for {want} questions", **art):
                    for k in v.kids:
                        crl(tlv.dump(k), art)
            return e(22, seq(*[r[0] for r in rows])), 23, judge
        if n == 12:
            txt, node = passphrase()
            before = list(env.h.genm_handler.state.rev_passphrases)

            def judge(o, v, art):
                rec.count("passphrases")
                rec.check(v is None, "value:12", "a value in the answer", **art)
                rec.check(txt.encode() in env.h.genm_handler.state.rev_passphrases, "passphrase:lost", "the passphrase is not on record", **art)
                rec.check(env.h.genm_handler.state.rev_passphrases[:len(before)] == before, "passphrase:earlier", "earlier passphrases have changed", **art)
            return node, 12, judge
        if n == 16:
            tags = rng.sample(("en", "de", "fr"), rng.randrange(1, 4))
            return e(16, seq(*[text(t) for t in tags])), 16, lambda o, v, art: rec.check(
                v is not None and len(v.kids) == 1 and v.kids[0].val in (b"en", b"de", b"fr"), "value:16", "not one language", **art)
        if n == 10:
            return e(10, oid(rng.choice(("1.2.840.113549.1.1.1", "1.2.840.10045.2.1", "1.3.101.112")))), 10, lambda o, v, art: rec.check(
                v is None or v.tag == b"\x30", "value:10", "not an algorithm identifier", **art)
        oids = ["1.2.%d.%d" % (rng.randrange(1, 900), rng.randrange(10 ** 6)) for _ in range(rng.randrange(1, 4))]
        return e(7, seq(*[oid(o) for o in oids])), 7, lambda o, v, art: rec.check(
            v is not None and [tlv.dump(k) for k in v.kids] == [tlv.dump(oid(o)) for o in oids], "value:7", "not the given OIDs", **art)

    def bad():
        null = tlv.Node(b"\x05", False, b"")
        junk = rng.choice((null, text("x"), seq(), seq(text("a")), tlv.Node(b"\x04", False, bytes(rng.getrandbits(8) for _ in range(9))), me))
        return rng.choice((
            lambda: ("a value where none may be", e(rng.choice(SINGLE), junk)),
            lambda: ("no value", e(rng.choice((12, 16, 22, 10, 7)))),
            lambda: ("wrong value", e(rng.choice((16, 22, 12)), rng.choice((null, text("x"), oid("1.2.3"), seq(null), seq(seq(null)))))),
            lambda: ("wrong value", e(10, rng.choice((null, text("x"), seq(oid("1.2.3")))))),
            lambda: ("wrong value", e(7, rng.choice((null, text("x"), oid("1.2.3"), seq(null))))),
            lambda: ("wrong value", e(20, rng.choice((null, text("x"), oid("1.2.3"), seq(null), seq(oid("1.2.3")))))),
            lambda: ("empty list", e(rng.choice((16, 22)), seq())),
            lambda: ("unknown language", e(16, seq(*rng.sample((text("en"), text("xx"), text("zz-%d" % rng.randrange(99))), 2)))),
            lambda: ("not a request", e(rng.choice((18, 23, 11, 14, 15, 21)), *rng.choice(((), (seq(text("base")),), (null,))))),
            lambda: ("unknown type", e(rng.choice(("1.2.3.4.%d" % rng.randrange(999), IT + str(rng.randrange(60, 900)), "1.3.6.1.5.5.7.48.1", "2.5.29.15")),
                                       *rng.choice(((), (null,), (text("x"),))))),
        ))()

    def good_prot():
        return rng.choice(("none", "password_based_mac", "password_based_mac", "pbmac1", "sig", "sig", "sig-person"))

    # -- the client's own judgement of an answer ----------------------------------------------------------------------------------
    def client(n, resp):
        fn = {17: lambda m: g.validate_get_ca_certs(m), 19: lambda m: g.validate_get_certificate_request_template(m), 6: lambda m: g.validate_current_crl(m),
              2: lambda m: g.validate_signing_key_types(m), 4: lambda m: g.validate_preferred_sym_alg(m)}.get(n)
        if fn is None:
            return
        try:
            fn(resp.msg)
            rec.count("client accepts")
        except Exception as ex:  # noqa
            rec.check(False, f"client:{n}", f"the client's check refuses the CA's answer: {ex!r}", response=resp.raw)
            return
        for what in ("oid", "absent", "twice", "type", "body"):
            x = M(resp.raw)
            row = x.body.kids[0]
            if what == "oid":
                row.kids[0] = oid(IT + "%d" % rng.choice([y for y in (1, 2, 3, 4, 6, 17, 19, 40) if y != n]))
            elif what == "absent":
                if n in (17, 19, 6):
                    continue  # may be absent by the RFC; reported with a log or a refusal
                del row.kids[1:]
            elif what == "twice":
                x.body.kids.append(tlv.copy(row))
            elif what == "type":
                row.kids[1] = rng.choice((tlv.Node(b"\x05", False, b""), text("x"), oid("1.2.3")))
            else:
                x.t.kids[1].tag = b"\xb5"
            try:
                fn(ca.parse(x.der()))
                ok = True
            except Exception:  # noqa
                ok = False
            rec.count("client refuses")
            rec.check(not ok, f"client:{n}:{what}", f"the client's check of {n} accepts an answer with a changed {what}", response=x.der())

    for i in range(rounds):
        if rec.elapsed() > budget:
            break
        rng.choice((enroll, enroll, revoke, revoke, revive, lambda: None))()
        # one good request, alone
        prot = good_prot()
        entry, want, judge = good(prot in ("password_based_mac", "pbmac1"))
        m = message([entry], prot)
        art = {"request": ca.der(m)}
        env.h.genm_handler.enforce_lwcmp = True
        resp = env.send(m)
        art["response"] = resp.raw
        if rec.check(resp.body == "genp", "refused", f"{x5.find_oid(entry.kids[0])} ({prot}) is refused: {resp.text()}", **art):
            rec.count("answered")
            rec.ev("answer", x5.find_oid(entry.kids[0]), prot, counter="values")
            rows = M(resp.raw).body.kids
            if rec.check(len(rows) == 1 and x5.find_oid(rows[0].kids[0]) == IT + str(want), "answer:type", f"answered with {[x5.find_oid(r.kids[0]) for r in rows]}", **art):
                judge(want, rows[0].kids[1] if len(rows[0].kids) > 1 else None, art)
                client(want, resp)
        # several at once
        prot = good_prot()
        parts = [good(prot in ("password_based_mac", "pbmac1")) for _ in range(rng.randrange(2, 5))]
        spoil = rng.random() < 0.35
        entries = [p[0] for p in parts]
        if spoil:
            what, b = bad()
            entries.insert(rng.randrange(len(entries) + 1), b)
        env.h.genm_handler.enforce_lwcmp = False
        m = message(entries, prot)
        resp = env.send(m)
        art = {"request": ca.der(m), "response": resp.raw}
        if spoil:
            rec.ev("several", "bad", what, counter="refused")
            rec.check(resp.body == "error", "accepted", f"several values, one of them bad ({what}): answered {resp.body}", **art)
        elif rec.check(resp.body == "genp", "refused", f"{[x5.find_oid(x.kids[0]) for x in entries]} is refused: {resp.text()}", **art):
            rows = M(resp.raw).body.kids
            rec.count("several")
            ok = [x5.find_oid(r.kids[0]) for r in rows] == [IT + str(p[1]) for p in parts]
            if rec.check(ok, "answer:order", f"{[x5.find_oid(r.kids[0]) for r in rows]} for {[x5.find_oid(x.kids[0]) for x in entries]}", **art):
                for r, p in zip(rows, parts):
                    rec.ev("answer", p[1], "several", counter="values")
                    p[2](p[1], r.kids[1] if len(r.kids) > 1 else None, art)
        # the same in the profile that allows one: refused
        env.h.genm_handler.enforce_lwcmp = True
        if i % 4 == 0:
            m = message(entries, good_prot())
            resp = env.send(m)
            rec.check(resp.body == "error", "accepted", "several values are answered in the profile that allows one", request=ca.der(m), response=resp.raw)
            m = message([], good_prot())
            resp = env.send(m)
            rec.check(resp.body == "error", "accepted", "an empty general message is answered", request=ca.der(m), response=resp.raw)
            rec.count("refused", 2)
        # a bad one
        for _ in range(2):
            what, b = bad()
            p = good_prot()
            m = message([b], p)
            before = len(env.h.genm_handler.state.rev_passphrases)
            resp = env.send(m)
            rec.ev("bad", what, tlv.dump(b)[:40].hex(), p, counter="refused")
            rec.check(resp.body == "error", "accepted", f"{what} ({x5.find_oid(b.kids[0])}, {p}): answered {resp.body}", request=ca.der(m), response=resp.raw)
            rec.check(len(env.h.genm_handler.state.rev_passphrases) == before, "passphrase:bad", "a refused message has left a passphrase", request=ca.der(m))
        # a passphrase that cannot be read
        if i % 3 == 0:
            txt, node = passphrase(False) if rng.random() < 0.5 else passphrase()
            if txt and rng.random() < 0.5:
                txt, node = passphrase(False)
                m = message([node], good_prot())
            else:
                txt, node = passphrase()
                m = message([node], "wrong")
            before = list(env.h.genm_handler.state.rev_passphrases)
            resp = env.send(m)
            rec.count("passphrases refused")
            rec.check(resp.body == "error" and env.h.genm_handler.state.rev_passphrases == before, "passphrase:accepted",
                      f"a passphrase under another password: {resp.body}", request=ca.der(m), response=resp.raw)
        # bad protection
        entry = good()[0]
        if rng.random() < 0.5:
            m = message([entry], "wrong")
            raw, what = ca.der(m), "another password"
        else:
            p = rng.choice(("password_based_mac", "pbmac1", "sig", "sig-person"))
            x = M(ca.der(message([entry], p)))
            what = rng.choice(("value", "entry", "time"))
            if what == "value":
                v = bytearray(x.protection)
                v[rng.randrange(8, len(v))] ^= 1 << rng.randrange(8)
                x.protection = bytes(v)
            elif what == "entry":
                x.body = seq(e(rng.choice([y for y in (6, 17, 19, 4) if x5.find_oid(entry.kids[0]) != IT + str(y)])))
            else:
                x.header.kids = [k for k in x.header.kids if k.tag != b"\xa0"]
            raw = x.der()
            what = f"{p} {what}"
        before = list(env.h.genm_handler.state.rev_passphrases)
        resp = env.send(raw)
        rec.ev("protection", what, counter="bad protection")
        rec.check(resp.body == "error", "unauthentic", f"answered {resp.body} although the protection does not verify ({what})", request=raw, response=resp.raw)
        rec.check(env.h.genm_handler.state.rev_passphrases == before, "unauthentic:passphrase", "an unauthentic message has left a passphrase", request=raw)
    rec.count("types", len(types))

    # -- keys of the advertised kinds are granted ---------------------------------------------------------------------------------
    todo = sorted(advertised, key=str)
    rng.shuffle(todo)
    for o, curve in todo[:8 if rec.tier == "quick" else 40]:
        if curve:
            k = generate_key("ec", curve=CURVES[curve])
        else:
            k = generate_key({"1.2.840.113549.1.1.1": "rsa", "1.3.101.112": "ed25519", "1.3.101.113": "ed448", **ML_DSA}[o])
        c, r = ca.enroll(env, cn(), key=k)
        rec.ev("advertised", o, curve, counter="advertised keys granted")
        rec.check(c is not None, "advertised", f"{o} {curve} is advertised and refused: {r.text()}", response=r.raw)


def jobs(tier, seed):
    n, rounds, budget = (6, 60, 26) if tier == "quick" else (16, 2000, 240)
    return [Job(f"answers-{i}", job_answers, timeout=600, rounds=rounds, budget=budget) for i in range(n)]
