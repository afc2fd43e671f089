"""P12: any bytes posted to /issuing and /ocsp get a well-formed answer and leave the CA's record alone."""

from vlib.core import Job

RULE = ("case = (endpoint, kind of request the bytes were derived from, its protection, mutation, whether the mutant was "
        "protected again with valid credentials, kind of answer); the bytes go through the Flask application")
REQUIRED = {"posts": 400, "raw mutants": 200, "protected mutants": 60, "junk": 40, "ocsp posts": 40, "well-formed": 400,
            "health checks": 8, "open transaction confirmed": 4, "distinct answers": 40, "huge iteration counts": 4,
            **{f"base {k}": 8 for k in ("ir", "cr", "p10cr", "kur", "rr", "genm", "certConf", "ccr", "nested", "body")}}
ASSUMPTIONS = ["the bytes are at most 64 KiB long and the requests come one at a time",
               "an authenticated request that is granted may change the record; whether it may be granted is P02 and P08"]
HANG = 25


def workload(rec, part, budget):
    import signal
    from cryptography.x509 import ocsp
    from cryptography.hazmat.primitives import hashes
    from cryptography import x509
    import mock_ca.ca_handler as mod
    from vlib import ca, flows, tlv, zoo, msg
    from vlib.ca import der, Env
    from vlib.msg import M
    from vlib.world import sign
    from checks.p04 import pbm
    from resources import cmputils
    from resources.general_msg_utils import build_cmp_general_message, prepare_simple_info_types_and_value
    from resources.keyutils import generate_key
    rng = rec.rng
    env = Env(rec)
    mod.handler = env.h
    mod.app.logger.disabled = True
    web = mod.app.test_client()
    ra = flows.ra_cred()
    n = [0]
    answers = set()

    class Hang(BaseException):
        pass

    def alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)

    def cn():
        n[0] += 1
        return f"CN=p12-{part}-{n[0]}"

    def post(path, raw):
        signal.alarm(HANG)
        try:
            return web.post(path, data=raw)
        except Hang:
            rec.violation(f"no-answer:{path}", f"no answer within {HANG} s", request=raw)
        except Exception as e:  # noqa - only with debugging on
            rec.violation(f"raised:{path}:{type(e).__name__}", repr(e), request=raw)
        finally:
            signal.alarm(0)
        return None

    def fingerprint():
        db = env.h.state.certificate_db
        return (len(db.issued_certs), len(db.not_confirmed_certs), len(db.updated_certs), len(db.revoked_certs),
                tuple(env.state(e.cert) for e in ees + [p for p in pending if p]))

    # -- requests to start from -------------------------------------------------------------------
    def enrol(implicit=True, name=None, **kw):
        k = generate_key("ec", curve="secp256r1")
        name = name or cn()
        m = ca.mac_protect(ca.request("ir", k, name, implicit_confirm=implicit, **kw))
        r = post("/issuing", der(m))
        if r is None:
            return None
        resp = ca.Resp(r.data)
        if not resp.ok:
            rec.violation("valid-refused", f"a valid ir was refused: {resp.text()}", request=der(m), response=r.data)
            return None
        c = ca.Cred(k, resp.certs()[0], [env.ca_cert])
        c.cn = name
        c.resp = resp
        return c

    ees, pending = [], []
    ees[:] = [e for e in (enrol() for _ in range(3)) if e]
    if len(ees) < 3:
        return

    def opened():
        e = enrol(implicit=False)
        return e

    pending[:] = [opened()]

    def conf(e, **kw):
        return cmputils.build_cert_conf_from_resp(e.resp.msg, cert=e.cert, for_mac=True, sender=e.cn, **kw)

    def base(kind):
        """(unprotected request, default protection, credential)"""
        e = rng.choice(ees)
        k = generate_key("ec", curve="secp256r1")
        if kind in ("ir", "cr", "p10cr"):
            how = rng.choice(["password_based_mac"] * 4 + ["hmac", "pbmac1", "sig", "sig"])
            m = ca.request(kind, k, cn(), mac=how != "sig", implicit_confirm=rng.random() < 0.5)
            return m, how, ra if kind == "ir" or kind == "p10cr" else e
        if kind == "kur":
            return cmputils.build_key_update_request(k, cert=e.cert, common_name=e.cn, hash_alg="sha256"), "sig", e
        if kind == "rr":
            return cmputils.build_cmp_revive_request(cert=e.cert) if rng.random() < 0.3 else \
                cmputils.build_cmp_revoke_request(cert=e.cert, reason="superseded"), "sig", rng.choice([e, ra])
        if kind == "genm":
            what = rng.choice(["current_crl", "ca_certs", "root_ca_cert", "preferred_symm_alg", "sign_key_types",
                               "ca_prot_enc_cert", "get_root_ca_cert_update"])
            try:
                iv = prepare_simple_info_types_and_value(what)
            except Exception:  # noqa
                iv = prepare_simple_info_types_and_value("current_crl")
            m = build_cmp_general_message(info_values=iv, sender=cn(), recipient="CN=Mock CA")
            return m, rng.choice(["password_based_mac", "sig", None]), ra
        if kind == "certConf":
            return conf(pending[0]), "password_based_mac", None
        if kind == "ccr":
            from checks.p12 import ccr
            return ccr(k, cn()), "sig", ra
        if kind == "nested":
            inner = [ca.mac_protect(ca.request("ir", generate_key("ec", curve="secp256r1"), cn(), implicit_confirm=True))
                     for _ in range(rng.choice((1, 1, 2)))]
            m = cmputils.build_nested_pkimessage(other_messages=inner if len(inner) > 1 else inner[0],
                                                 for_added_protection=len(inner) == 1, exclude_fields=None)
            return m, "sig", ra
        b = rng.choice([b for b in zoo.BODIES if b != "nested"])
        return zoo.body_message(b, rng, e.cert, k), rng.choice(["password_based_mac", "sig", None]), rng.choice([e, ra])

    KINDS = ["ir", "cr", "p10cr", "kur", "rr", "genm", "certConf", "ccr", "nested", "body"]

    def protect(m, how, cred):
        if how is None:
            return m
        return sign(m, cred) if how == "sig" else ca.mac_protect(m, how)

    # -- mutations --------------------------------------------------------------------------------
    POOL = [b"", b"\x00", b"\xff", b"\x05\x00", b"\x30\x00", b"\x80" + b"\xff" * 15, b"a" * 300, b"\x7f\xff\xff\xff", b"\x00" * 64,
            "ü".encode(), b"\xc3\x28", b"99991231235959Z", b"20250229000000Z", b"-1"]

    def oids():
        return rng.choice([b"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b", b"\x2a\x86\x48\x86\xf6\x7d\x07\x42\x0d", b"\x2b\x65\x70",
                           b"\x2a\x86\x48\xce\x3d\x04\x03\x02", b"\x55\x1d\x13", b"\x60\x86\x48\x01\x65\x03\x04\x03\x11",
                           b"\x2a\x86\x48\x86\xf6\x7d\x07\x42\x10", b"\x2a\x86\x48\x86\xf6\x7d\x07\x42\x1e", b"\x2a",
                           b"\x2a\x86\x48\x86\xf7\x0d\x01\x05\x0e", b"\x60\x86\x48\x01\x65\x03\x04\x02\x13"])

    def mutate_tree(t, times):
        kinds = []
        for _ in range(times):
            nodes = [(p, x) for p, x in tlv.walk(t) if p]
            if not nodes:
                break
            path, node = rng.choice(nodes)
            r = rng.random()
            if r < 0.35 and not node.cons:
                k, t = tlv.mutate_leaf(t, path, rng)
            elif r < 0.5:
                par = path[:-1]
                k, t = tlv.mutate_struct(t, par, rng)
            elif r < 0.62:
                t = tlv.copy(t)
                x = tlv.at(t, path)
                x.cons, x.kids, x.val, k = False, None, rng.choice(POOL), "pool"
                x.tag = bytes([x.tag[0] & 0xDF]) + x.tag[1:] if rng.random() < 0.7 else x.tag
            elif r < 0.72:  # a subtree from elsewhere
                t = tlv.copy(t)
                _, src = rng.choice(nodes)
                par = tlv.at(t, path[:-1])
                par.kids[path[-1]] = tlv.copy(src)
                k = "graft"
            elif r < 0.82:
                t = tlv.copy(t)
                x = [y for _, y in tlv.walk(t) if y.tag == b"\x06"]
                if x:
                    rng.choice(x).val = oids()
                k = "oid"
            elif r < 0.9:
                t = tlv.copy(t)
                x = [y for _, y in tlv.walk(t) if y.tag == b"\x02"]
                if x:
                    rng.choice(x).val = rng.choice([b"\x00", b"\xff", b"\x01", b"\x02", b"\x7f" * 20, b"\x80", b"\x03", b""])
                k = "integer"
            elif r < 0.95:
                t = tlv.copy(t)
                par = tlv.at(t, path[:-1])
                del par.kids[path[-1]]
                k = "delete"
            else:
                t = tlv.copy(t)
                x = tlv.at(t, path)
                for _ in range(rng.choice([1, 3, 40])):
                    x = tlv.Node(b"\x30", True, kids=[x])
                tlv.at(t, path[:-1]).kids[path[-1]] = x
                k = "wrap"
            kinds.append(k)
        return kinds, t

    def reprotect(m, how, cred):
        """Valid protection of a mutated header and body, made without the suite."""
        alg = m.get("protectionAlg")
        covered = tlv.tlv(0x30, tlv.dump(m.header) + tlv.dump(m.t.kids[1]))
        if how == "password_based_mac":
            if int.from_bytes(alg.kids[1].kids[2].val, "big") > 10**6:
                raise ValueError("iterations")
            m.protection = pbm(tlv.dump(alg), covered, ca.PASSWORD.encode())
        else:
            from cryptography.hazmat.primitives.asymmetric import ec
            m.protection = cred.key.sign(covered, ec.ECDSA(hashes.SHA256()))
        return m

    def junk(seed):
        r = rng.random()
        if r < 0.2:
            return "random", zoo.rnd_bytes(rng, rng.choice([0, 1, 2, 5, 40, 1000]))
        if r < 0.4:
            return "cut", seed[:rng.randrange(len(seed))]
        if r < 0.55:
            b = bytearray(seed)
            for _ in range(rng.choice([1, 2, 8])):
                b[rng.randrange(len(b))] = rng.randrange(256)
            return "bytes", bytes(b)
        if r < 0.65:
            return "tail", seed + zoo.rnd_bytes(rng, rng.choice([1, 20]))
        if r < 0.72:
            return "deep", b"\x30\x80" * rng.choice([50, 400, 3000])
        if r < 0.79:
            depth = rng.choice([100, 700])
            x = b"\x05\x00"
            for _ in range(depth):
                x = tlv.tlv(0x30, x)
            return "nest", x
        if r < 0.86:
            i, j = sorted(rng.randrange(len(seed)) for _ in range(2))
            return "cutout", seed[:i] + seed[j:]
        if r < 0.93:
            return "text", rng.choice([b"GET / HTTP/1.1\r\n", b"-----BEGIN CERTIFICATE-----\n", b"{}", b"\x00" * 500,
                                       b"\x30\x84\xff\xff\xff\xff", b"\x30\x88" + b"\x7f" * 8, b"\xbf" + b"\xff" * 40 + b"\x01\x00"])
        return "spliced", seed[:len(seed) // 2] + rng.choice(seeds)[len(seed) // 3:]

    # -- the oracle -------------------------------------------------------------------------------
    def judge(what, raw, changed, auth, before):
        """changed: the protected part differs from a valid request; auth: its protection is valid nevertheless."""
        r = post("/issuing", raw)
        rec.count("posts")
        if r is None:
            return
        art = dict(request=raw, response=r.data, status=r.status_code)
        try:
            t = tlv.parse(r.data)
            assert t.tag == b"\x30"
            resp = ca.Resp(r.data)
            assert resp.nonce is not None
        except Exception as e:  # noqa
            rec.violation(f"malformed:/issuing:{r.status_code}:{shape(r.data)}",
                          f"{what}: the answer is not a PKIMessage ({r.status_code} {r.data[:200]!r}): {e!r}", **art)
            return
        rec.count("well-formed")
        text = resp.text()
        answers.add((resp.body, tuple(resp.statuses()), text[:60]))
        rec.ev(*what, resp.body, *resp.statuses())
        granted = resp.ok and resp.body != "error" or resp.body == "nested"
        if not granted:
            after = fingerprint()
            if after != before:
                rec.violation(f"record-changed:{what[0]}", f"{what}: answered with {resp.body} {text}, but the record changed: "
                              f"{before} -> {after}", **art)
        elif changed and not auth and not (resp.body == "genp"):
            rec.violation(f"granted:{what[0]}", f"{what}: a request whose protected part was changed is granted", **art)
        return resp

    def shape(b):
        import re
        return re.sub(r"[^A-Za-z ]+", "", b[:60].decode("latin1")).strip()[:40].replace(" ", "-")

    def protected_part(raw):
        """What is protected, as it is decoded: other encodings of the same values are the same request."""
        try:
            m = M(der(ca.parse(raw)))
            return tlv.dump(m.header) + tlv.dump(m.t.kids[1])
        except Exception:  # noqa
            return None

    def huge_iterations(raw):
        """Iteration counts are a matter of their own: see iterations()."""
        try:
            alg = M(raw).get("protectionAlg")
            return any(x.tag == b"\x02" and int.from_bytes(x.val, "big") > 10**6 for _, x in tlv.walk(alg))
        except Exception:  # noqa
            return False

    def iterations():
        """A request whose (unauthenticated) MAC parameters ask for hours of work."""
        m = M(der(ca.mac_protect(ca.request("ir", generate_key("ec", curve="secp256r1"), cn()))))
        m.get("protectionAlg").kids[1].kids[2] = msg.integer(rng.choice([2**31 - 1, 10**9, 2**40, 2**63]))
        rec.count("huge iteration counts")
        judge(("ir", "password_based_mac", "iterations"), m.der(), True, False, fingerprint())

    def health():
        rec.count("health checks")
        e = enrol()
        if e is None:
            return
        ees.append(e)
        del ees[:-4]
        st = ocsp_state(e.cert)
        rec.check(st == "GOOD", "health:ocsp", f"OCSP says {st} for a certificate just issued")
        p = pending.pop(0) if pending else None
        if p is not None:
            m = ca.mac_protect(conf(p))
            r = post("/issuing", der(m))
            resp = ca.Resp(r.data)
            if rec.check(resp.body == "pkiconf", "open-transaction-lost",
                         f"an open transaction could not be confirmed after hostile messages: {resp.text()}", request=der(m)):
                rec.count("open transaction confirmed")
        pending.append(opened())

    def ocsp_request(cert, alg=None, nonce=False):
        issuer = x509.load_der_x509_certificate(der(env.ca_cert))
        b = ocsp.OCSPRequestBuilder().add_certificate(x509.load_der_x509_certificate(der(cert)), issuer,
                                                      alg or rng.choice([hashes.SHA1(), hashes.SHA256()]))
        if nonce:
            b = b.add_extension(x509.OCSPNonce(zoo.rnd_bytes(rng, 16)), False)
        from cryptography.hazmat.primitives.serialization import Encoding
        return b.build().public_bytes(Encoding.DER)

    def ocsp_state(cert):
        r = post("/ocsp", ocsp_request(cert))
        return ocsp.load_der_ocsp_response(r.data).certificate_status.name

    def ocsp_fuzz():
        raw = ocsp_request(rng.choice(ees).cert, nonce=rng.random() < 0.5)
        how = rng.random()
        if how < 0.15:
            kind = "valid"
        elif how < 0.45:
            kind, raw = junk(raw)
        else:
            k, t = mutate_tree(tlv.parse(raw), rng.choice((1, 1, 2, 4)))
            kind, raw = k[0] if k else "none", tlv.dump(t)
        before = fingerprint()
        r = post("/ocsp", raw)
        rec.count("posts"), rec.count("ocsp posts")
        if r is None:
            return
        try:
            o = ocsp.load_der_ocsp_response(r.data)
            st = o.response_status.name
            tlv.parse(r.data)
        except Exception as e:  # noqa
            rec.violation(f"malformed:/ocsp:{r.status_code}:{shape(r.data)}",
                          f"{kind}: the answer is not an OCSP response ({r.status_code} {r.data[:80]!r}): {e!r}", request=raw)
            return
        rec.count("well-formed")
        rec.ev("ocsp", kind, st)
        answers.add(("ocsp", st))
        rec.check(fingerprint() == before, "record-changed:ocsp", "an OCSP request changed the record", request=raw)

    seeds = []
    i = 0
    iterations()
    full = env.record()
    while rec.elapsed() < budget:
        i += 1
        if i % 40 == 0:
            health()
            now = env.record()
            gone = set(full) - set(now)
            rec.check(not gone, "record-lost", f"{len(gone)} certificates vanished from the record")
            full = now
        kind = KINDS[i % len(KINDS)] if i % 3 else rng.choice(KINDS)
        if rng.random() < 0.12:
            ocsp_fuzz()
            continue
        rec.count(f"base {kind}")
        try:
            m, how, cred = base(kind)
            un = der(m if how != "sig" else cmputils.patch_sender(m, cert=cred.cert))
            p = der(protect(ca.parse(un), how, cred))
        except Exception:  # noqa - the suite's client side refuses to build or protect it
            rec.count("not built")
            continue
        seeds.append(p)
        del seeds[:-20]
        r = rng.random()
        before = fingerprint()
        if r < 0.08:  # unchanged
            judge((kind, str(how), "valid"), p, False, True, before)
            if kind == "certConf":
                pending[0] = opened()
            elif kind in ("rr", "kur"):
                ees[:] = [e for e in (enrol() for _ in range(3)) if e]
        elif r < 0.2:
            k, raw = junk(p)
            if huge_iterations(raw):
                continue
            rec.count("junk")
            a = judge((kind, str(how), k), raw, protected_part(raw) != protected_part(p), False, before)
            if a is not None and a.ok and kind == "certConf":
                pending[0] = opened()
        elif r < 0.6 or how not in ("password_based_mac", "sig"):
            for _ in range(4):
                k, t = mutate_tree(tlv.parse(p), rng.choice((1, 1, 1, 2, 3)))
                raw = tlv.dump(t)
                if huge_iterations(raw):
                    continue
                rec.count("raw mutants")
                a = judge((kind, str(how), k[0] if k else "none"), raw,
                          how is not None and protected_part(raw) != protected_part(p), False, before)
                if a is not None and (a.ok or a.body == "nested"):  # the change was outside the protected part
                    if kind == "certConf":
                        pending[0] = opened()
                    if kind in ("kur", "rr", "body"):
                        ees[:] = [e for e in (enrol() for _ in range(3)) if e]
                    break
        else:
            mm = M(p)
            if rng.random() < 0.8:
                k, t = mutate_tree(mm.body, rng.choice((1, 1, 1, 2)))
                mm.body = t
            else:
                k, t = mutate_tree(mm.header, 1)
                mm.t.kids[0] = t
            if huge_iterations(mm.der()):
                continue
            try:
                raw = reprotect(mm, how, cred).der()
            except Exception:  # noqa - the algorithm identifier itself is broken
                raw = mm.der()
            if huge_iterations(raw):
                continue
            rec.count("protected mutants")
            if kind == "certConf":  # a well-authenticated confirmation may end its transaction
                a = judge((kind, str(how), "p-" + (k[0] if k else "none")), raw, True, True, before)
                pending[0] = opened()
            else:
                a = judge((kind, str(how), "p-" + (k[0] if k else "none")), raw, True, True, before)
            if a is not None and a.ok and kind in ("rr", "kur", "body"):
                ees[:] = [e for e in (enrol() for _ in range(3)) if e]
        if len(env.h.state.certificate_db.issued_certs) > 250:
            env = Env(rec)
            mod.handler = env.h
            full = {}
            ees[:], pending[:] = [], []
            ees[:] = [e for e in (enrol() for _ in range(3)) if e]
            pending[:] = [opened()]
    health()
    rec.count("distinct answers", len(answers))
    rec.sample(answers=sorted(str(a) for a in answers)[:60])


def ccr(key, cn):
    from vlib import zoo
    from resources import certbuildutils, cmputils
    from resources.prepare_alg_ids import prepare_sig_alg_id
    t = certbuildutils.prepare_cert_template(
        key=key.public_key(), subject=cn, issuer="CN=Cross CA", version=2,
        validity=certbuildutils.default_validity(days=90), exclude_fields=None,
        sign_alg=prepare_sig_alg_id(zoo.stored("rsa"), hash_alg="sha256"))
    return cmputils.build_ccr_from_key(key, cert_template=t, hash_alg="sha256")


def jobs(tier, seed):
    n, budget = (8, 24) if tier == "quick" else (32, 150)
    return [Job(f"bytes-{i}", workload, timeout=600, part=i, budget=budget) for i in range(n)]
