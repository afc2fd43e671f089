"""P13: the validators of the test suite against messages of an own DER writer: the conformant ones and ones with a single deviation."""

import base64
import datetime
import functools

from vlib import tlv, x5
from vlib.core import Job
from checks import p20
from checks.p23 import i_, oid, rb, s_, status_der, tl, utf8, utcnow, word

RULE = "a conformant message passes every validator; a message with one deviation fails the validators documented to enforce the rule"
REQUIRED = {"accepted": 200, "rejected": 400, "signed": 20, "nested": 20, "bodies": 40, "chains": 20, "conf": 10, "capubs": 2}
ASSUMPTIONS = ["the rules are those of the validators' documentation and of RFC 9483 section 3 and 4; errors may be of any type"]
TECHNIQUE = "runtime monitoring: generated conformant messages and single deviations, verdicts of the real validators against an own model"

BODY = {"ir": 0, "ip": 1, "cr": 2, "cp": 3, "p10cr": 4, "kur": 7, "kup": 8, "rr": 11, "rp": 12, "ccr": 13, "ccp": 14, "pkiconf": 19, "nested": 20, "genm": 21,
        "genp": 22, "error": 23, "certConf": 24, "pollReq": 25, "pollRep": 26}
ANSWER = {"ir": "ip", "cr": "cp", "kur": "kup", "p10cr": "cp", "genm": "genp", "ccr": "ccp", "rr": "rp"}
IMPLICIT, WAIT, PROFILE = (oid("1.3.6.1.5.5.7.4." + n) for n in ("13", "14", "21"))
NULL = b"\x05\x00"
SIGS = {  # name: (algorithm identifier, families of keys)
    "ecdsa256": (s_(oid("1.2.840.10045.4.3.2")), ("ec",)), "ecdsa384": (s_(oid("1.2.840.10045.4.3.3")), ("ec",)),
    "ecdsa512": (s_(oid("1.2.840.10045.4.3.4")), ("ec",)),
    "rsa256": (s_(oid("1.2.840.113549.1.1.11"), NULL), ("rsa",)), "rsa384": (s_(oid("1.2.840.113549.1.1.12"), NULL), ("rsa",)),
    "rsa512": (s_(oid("1.2.840.113549.1.1.13"), NULL), ("rsa",)),
    "ed25519": (s_(oid("1.3.101.112")), ("ed25519",)), "ed448": (s_(oid("1.3.101.113")), ("ed448",)),
    "mldsa44": (s_(oid("2.16.840.1.101.3.4.3.17")), ("ml-dsa-44",)), "mldsa65": (s_(oid("2.16.840.1.101.3.4.3.18")), ("ml-dsa-65",)),
    "mldsa87": (s_(oid("2.16.840.1.101.3.4.3.19")), ("ml-dsa-87",)),
}


@functools.lru_cache(None)
def pbm(salt=b"s" * 16, rounds=1000, owf="2.16.840.1.101.3.4.2.1", mac="1.2.840.113549.2.9"):
    return s_(oid("1.2.840.113533.7.66.13"), s_(tl(4, salt), s_(oid(owf)), i_(rounds), s_(oid(mac))))


def pbmac1(salt=b"s" * 16, rounds=1000, length=32, null=NULL):
    kdf = s_(oid("1.2.840.113549.1.5.12"), s_(tl(4, salt), i_(rounds), i_(length), s_(oid("1.2.840.113549.2.9"), null)))
    return s_(oid("1.2.840.113549.1.5.14"), s_(kdf, s_(oid("1.2.840.113549.2.9"), null)))


def name(cn, *more):
    rdn = [tl(0x31, s_(oid("2.5.4.3"), utf8(cn)))] if cn is not None else []
    return s_(*[tl(0x31, s_(oid(o), utf8(v))) for o, v in more], *rdn)


def gn(name_der):
    return tl(0xA4, name_der)


def gtime(t):
    return tl(0x18, t.strftime("%Y%m%d%H%M%SZ").encode())


def itav(o, value=b""):
    return s_(o, value)


class H:
    """A header; the fields are DER values or None."""

    def __init__(self, **kw):
        self.pvno = 2
        self.sender = self.recipient = gn(name("x"))
        self.time = self.alg = self.skid = self.rkid = self.tx = self.snonce = self.rnonce = self.text = self.info = None
        self.__dict__.update(kw)

    def but(self, **kw):
        return H(**{**self.__dict__, **kw})

    def der(self):
        f = lambda n, v: b"" if v is None else tl(0xA0 | n, v)  # noqa: E731
        o = lambda n, v: b"" if v is None else tl(0xA0 | n, tl(4, v))  # noqa: E731
        return s_(i_(self.pvno), self.sender, self.recipient, b"" if self.time is None else f(0, gtime(self.time)), f(1, self.alg), o(2, self.skid), o(3, self.rkid),
                  o(4, self.tx), o(5, self.snonce), o(6, self.rnonce), f(7, self.text), b"" if self.info is None else f(8, s_(*self.info)))


def body(kind, rng=None, inner=None, ids=None):
    """A minimal body."""
    n = BODY[kind]
    if inner is None:
        ids = ids or [0]
        tmpl = lambda: s_(tl(0xA5, name("t")))  # noqa: E731
        if kind in ("ir", "cr", "kur", "ccr"):
            inner = s_(*[s_(s_(i_(i), tmpl())) for i in ids])
        elif kind in ("ip", "cp", "kup", "ccp"):
            inner = s_(s_(*[s_(i_(i), status_der("rejection", ["badPOP"], ["no"])) for i in ids]))
        elif kind == "p10cr":
            inner = P10()
        elif kind == "rr":
            inner = s_(s_(tmpl()))
        elif kind == "rp":
            inner = s_(s_(status_der("accepted", None, None)))
        elif kind == "pkiconf":
            inner = NULL
        elif kind in ("genm", "genp"):
            inner = s_(*[itav(oid("1.3.6.1.5.5.7.4.2")) for _ in ids])
        elif kind == "error":
            inner = s_(status_der("rejection", ["badRequest"], ["no"]))
        elif kind == "certConf":
            inner = s_(s_(tl(4, b"h" * 32), i_(0)))
        elif kind == "pollReq":
            inner = s_(s_(i_(0)))
        elif kind == "pollRep":
            inner = s_(s_(i_(0), i_(5)))
    return tl(0xA0 | n, inner)


@functools.lru_cache(None)
def P10():
    import random
    k = p20.key("ec", random.Random(1))
    tbs = s_(i_(0), name("csr"), tlv.dump(k.spki), tl(0xA0, b""))
    sig, alg = k.sign(lambda a: tbs, random.Random(1))
    return s_(tbs, tlv.dump(alg), tl(3, b"\0" + sig))


def message(h, bd, prot=None, certs=()):
    return s_(h.der(), bd, b"" if prot is None else tl(0xA0, tl(3, b"\0" + prot)), tl(0xA1, s_(*certs)) if certs else b"")


def signed(rng, h, bd, key, certs, spoil=False):
    """A message signed for real."""
    def data(alg):
        h.alg = tlv.dump(alg)
        return s_(h.der(), bd)
    sig, alg = key.sign(data, rng)
    h.alg = tlv.dump(alg)
    if spoil:
        sig = p20.broken(sig, rng)
    return message(h, bd, sig, certs)


def p(der):
    from vlib.ca import parse
    return parse(der)


class Judge:
    def __init__(self, rec, what, **art):
        self.rec, self.what, self.art = rec, what, art

    def _run(self, fn, args, kw):
        try:
            return fn(*args, **kw), None
        except Exception as e:  # noqa
            return None, e

    def ok(self, case, fn, *args, ret=None, **kw):
        val, err = self._run(fn, args, kw)
        good = err is None and (ret is None or val == ret)
        self.rec.ev("ok", self.what, case, fn.__name__, counter="accepted", nontrivial=True)
        self.rec.check(good, f"refused/{fn.__name__}/{case}", f"{fn.__name__} refuses a conformant message ({case}): {type(err).__name__}: {str(err)[:200]}" if err else
                       f"{fn.__name__} says {val!r} ({case})", **self.dump(args, kw))

    def bad(self, case, fn, *args, ret=None, **kw):
        val, err = self._run(fn, args, kw)
        good = val == ret and err is None if ret is not None else err is not None
        self.rec.ev("bad", self.what, case, fn.__name__, counter="rejected", nontrivial=True)
        self.rec.check(good, f"missed/{fn.__name__}/{case}", f"{fn.__name__} does not notice: {case}" + (f" ({type(err).__name__}: {str(err)[:150]})" if err else ""), **self.dump(args, kw))

    def dump(self, args, kw):
        out = dict(self.art)
        for i, a in enumerate(list(args) + list(kw.values())):
            if hasattr(a, "prettyPrint"):
                try:
                    from vlib.ca import der
                    out[f"arg{i}"] = der(a).hex()
                except Exception:  # noqa
                    out[f"arg{i}"] = "?"
            else:
                out[f"arg{i}"] = str(a)[:100]
        return out


def rnd_cn(rng):
    if rng.random() < 0.5:
        return word(rng)
    return rng.choice(["Doe, John", "a+b", "a=b", "back\\slash", 'quo"te', "#hash", "semi;colon", "ä ö 漢字", "a/b", "<x>", "two  spaces", "O=x,CN=y", "trailing\\"]) + word(rng)


SKI = x5.SKI


def end(rng, alg=None, cn=None, ski="rnd", more=(), but=None):
    """An issued end-entity certificate, its chain and its key (not the key `but`)."""
    alg = alg or rng.choice(("ec", "ec", "rsa", "ed25519", "ed448"))
    k, rk = p20.key(alg, rng), p20.key(rng.choice(("ec", "rsa")), rng)
    while k is but:
        k = p20.key(alg, rng)
    rn = "Root " + word(rng)
    root = p20.make(rng, rn, rk, rn, rk, ski=rb(rng, 20))
    nm = name(cn or rnd_cn(rng), *more)
    ski = rb(rng, rng.choice((20, 20, 8, 32))) if ski == "rnd" else ski
    c = p20.make(rng, "x", k, rn, rk, ca=False, ku=None, ski=ski, name=tlv.parse(nm))
    return k, c, nm, ski, root


def flip(rng, b):
    b = bytearray(b)
    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)


# -- headers ----------------------------------------------------------------------------------------------
def job_header(rec, rounds, budget):
    from resources import checkutils as cu
    rng = rec.rng
    sec = lambda n: datetime.timedelta(seconds=n)  # noqa: E731
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        kind = rng.choice(("mac", "mac", "sig", "sig", "none"))
        req = rng.choice(tuple(ANSWER))
        res = rng.choice((ANSWER[req], ANSWER[req], "error"))
        tx, n1, n2 = rb(rng, 16), rb(rng, rng.choice((16, 16, 24, 32))), rb(rng, rng.choice((16, 16, 20, 32)))
        dt = rng.randrange(0, 80)
        t = utcnow().replace(microsecond=0) - sec(dt + rng.randrange(2, 60))
        client = gn(name(word(rng)))
        hq = H(sender=client, time=t, tx=tx, snonce=n1)
        h = H(pvno=rng.choice((2, 3)), recipient=client, time=t + sec(dt), tx=tx, snonce=n2, rnonce=n1)
        certs, prot, cn = [], None, rnd_cn(rng)
        if kind == "mac":
            h.sender, h.skid, h.alg, prot = gn(name(cn, *([("2.5.4.10", "Org")] if rng.random() < 0.3 else []))), cn.encode(), rng.choice((pbm, pbmac1))(), rb(rng, 32)
        elif kind == "sig":
            key, cert, nm, ski, root = end(rng)
            h.sender, h.skid, prot, certs = gn(nm), ski, rb(rng, 64), [cert.raw, root.raw][:rng.choice((1, 2))]
            h.alg = next(a for a, f in SIGS.values() if key.alg in f)
        info = []
        wait = tl(0x18, (utcnow() + sec(rng.randrange(100, 5000))).strftime("%Y%m%d%H%M%SZ").encode())
        if res in ("ip", "cp", "kup"):
            how = rng.random()
            info = [itav(IMPLICIT, NULL)] if how < 0.4 else [itav(WAIT, wait)] if how < 0.8 else []
        if rng.random() < 0.3:
            info.insert(rng.randrange(len(info) + 1), itav(oid("1.3.6.1.5.5.7.4.99"), utf8("x")))
        h.info = info or None
        bd = body(res)
        j = Judge(rec, (kind, res), kind=kind, res=res, req=req, cn=cn)
        Q = p(message(hq, body(req)))
        mk = lambda hh, b=bd, pr=prot, cc=certs: p(message(hh, b, pr, cc))  # noqa: E731
        R = mk(h)
        must = kind != "none"
        # the documented default is lenient towards senders; the strict form has to pass as well
        strict = dict(protection=must, allow_failure_sender=False)
        HEAD = cu.validate_pkimessage_header
        j.ok("header", HEAD, R, Q, **strict)
        j.ok("header", HEAD, R, None, **strict)
        j.ok("pair", cu.validate_sender_and_recipient, R, Q, must_be_eq=True)
        j.ok("generalInfo", cu.check_generalinfo_field, R)
        j.ok("protected", cu.check_is_protection_present, R, must_be_protected=must, ret=must)
        j.ok("messageTime", cu.check_message_time_field, R, allowed_interval=dt, request_time=t.replace(tzinfo=datetime.timezone.utc))
        j.ok("messageTime", cu.check_message_time_field, R, allowed_interval=None)
        if must:
            j.ok("protectionAlg", cu.check_protection_alg_field, R, expected_type=kind)
            j.bad("other type", cu.check_protection_alg_field, R, expected_type="mac" if kind == "sig" else "sig")
        if rng.random() < 0.3:
            j.ok("nonce_sec", cu.validate_sender_and_recipient_nonce, R, Q, min(len(n1), len(n2)) * 8)
        j.bad("nonce_sec", cu.validate_sender_and_recipient_nonce, R, Q, str(min(len(n1), len(n2)) * 8 + 8))

        def dev(case, hh, *fns, req=Q, b=bd, pr=prot, cc=certs, head=True):
            m = mk(hh, b, pr, cc)
            if head:
                j.bad(case, HEAD, m, req, **strict)
            for fn, kw in fns:
                j.bad(case, fn, m, **kw)
        both = lambda f: (f, {"request": Q})  # noqa: E731
        NON, TX, PAIR = both(cu.validate_sender_and_recipient_nonce), both(cu.validate_transaction_id), both(cu.validate_sender_and_recipient)
        dev("pvno", h.but(pvno=rng.choice((0, 1, 4, 255))))
        dev("no transactionID", h.but(tx=None), TX, PAIR)
        dev("other transactionID", h.but(tx=flip(rng, tx)), TX, PAIR)
        n = rng.choice((0, 8, 15, 17, 32))
        short = (tx * 2)[:n]
        dev("length of transactionID", h.but(tx=short), (cu.validate_transaction_id, {"request": None}), (cu.validate_transaction_id, {"request": p(message(hq.but(tx=short), body(req)))}))
        dev("no recipNonce", h.but(rnonce=None), NON, PAIR)
        dev("other recipNonce", h.but(rnonce=flip(rng, n1)), NON, PAIR)
        dev("part of the recipNonce", h.but(rnonce=n1[:-1] if rng.random() < 0.5 else n1 + b"\0"), NON, PAIR)
        dev("no senderNonce", h.but(snonce=None), NON, PAIR)
        dev("short senderNonce", h.but(snonce=n2[:rng.choice((0, 1, 15))]), NON, PAIR)
        s = n1[:rng.choice((0, 8, 15))]
        q = p(message(hq.but(snonce=s), body(req)))
        dev("short recipNonce", h.but(rnonce=s), (cu.validate_sender_and_recipient_nonce, {"request": q}), req=q)
        dev("other recipient", h.but(recipient=gn(name(word(rng, 11, 12)))), (cu.validate_sender_and_recipient, {"request": Q, "must_be_eq": True}), head=False)
        # times
        tz = t.replace(tzinfo=datetime.timezone.utc)
        lim = rng.randrange(5, 300)
        late = rng.choice((1, 5, 3600, 90000))
        rt = {"allowed_interval": lim, "request_time": tz}
        j.bad("late", HEAD, mk(h.but(time=t + sec(lim + late))), Q, time_interval=lim, **strict)
        dev("late", h.but(time=t + sec(lim + late)), (cu.check_message_time_field, rt), head=False)
        dev("long before the request", h.but(time=t - sec(lim + late)), (cu.check_message_time_field, rt), head=False)
        j.ok("in time", HEAD, mk(h.but(time=t + sec(lim - rng.randrange(5)))), Q, time_interval=str(lim), **strict)
        dev("no messageTime", h.but(time=None), (cu.check_message_time_field, rt))
        now = utcnow().replace(microsecond=0)
        j.ok("recent", cu.check_message_time_field, mk(h.but(time=now - sec(rng.randrange(1, 100)))), allowed_interval=200)
        dev("future", h.but(time=now + sec(rng.choice((30, 3600)))), (cu.check_message_time_field, {"allowed_interval": 200}), req=None)
        dev("old", h.but(time=now - sec(rng.choice((230, 3600)))), (cu.check_message_time_field, {"allowed_interval": 200}), req=None)
        # generalInfo
        GI, CI, CW, CP = ((f, {}) for f in (cu.check_generalinfo_field, cu.check_implicitconfirm_in_generalinfo, cu.check_confirmwaittime_in_generalinfo,
                                            cu.check_certprofile_in_generalinfo))
        other = rng.choice(("rp", "error", "pkiconf", "genp", "rr", "genm", "pollReq", "pollRep", "certConf"))
        imp, w = itav(IMPLICIT, NULL), itav(WAIT, wait)
        dev(f"implicitConfirm in {other}", h.but(info=[imp]), GI, CI, b=body(other))
        good = rng.choice(("ip", "cp", "kup", "ir", "cr", "kur", "p10cr"))
        dev("value of implicitConfirm", h.but(info=[itav(IMPLICIT, rng.choice((i_(1), utf8("x"), s_(), tl(1, b"\xff"))))]), GI, CI, b=body(good))
        both_ = [imp, w]
        rng.shuffle(both_)
        dev("both confirmations", h.but(info=both_), GI, CW, b=body(rng.choice(("ip", "cp", "kup"))))
        past = utcnow() - sec(rng.choice((2, 60, 86400, 10**8)))
        dev("past confirmWaitTime", h.but(info=[itav(WAIT, gtime(past))]), GI, CW, b=body(rng.choice(("ip", "cp", "kup"))))
        dev("type of confirmWaitTime", h.but(info=[itav(WAIT, rng.choice((i_(10), utf8("20300101000000Z"), NULL)))]), GI, CW, b=body(rng.choice(("ip", "cp", "kup"))))
        dev("confirmWaitTime without messageTime", h.but(info=[w], time=None), (cu.check_message_time_field, {}), b=body(rng.choice(("ip", "cp", "kup"))))
        prof = itav(PROFILE, s_(*[utf8(x) for x in (["base"])]))
        resp = rng.choice(("ip", "cp", "kup", "rp", "error", "pkiconf", "genp", "certConf", "rr", "pollReq"))
        dev(f"certProfile in {resp}", h.but(info=[prof]), GI, CP, b=body(resp))
        r_ = rng.choice(("ir", "cr", "kur", "p10cr", "genm"))
        j.ok("certProfile", cu.check_generalinfo_field, mk(h.but(info=[prof]), body(r_)))
        j.ok("implicitConfirm", cu.check_generalinfo_field, mk(h.but(info=[imp]), body(good)))
        # certProfile for a CA
        n = 1 if r_ == "p10cr" else rng.randrange(1, 4)
        known = ["base", word(rng, 6, 9)]
        VP = cu.validate_cert_profile_for_ca
        mp = lambda names: mk(h.but(info=[itav(PROFILE, s_(*map(utf8, names)))]), body(r_, ids=list(range(n))))  # noqa: E731
        names = [rng.choice(known + [""]) for _ in range(n)]
        j.ok("profiles", VP, mp(names), cert_profiles=list(known))
        j.ok("profiles", VP, mp(names))
        j.bad("unknown profile", VP, mp(names[:-1] + ["Q" + word(rng, 11, 14)]), cert_profiles=list(known))
        j.bad("number of profiles", VP, mp(names + ["base"]), cert_profiles=list(known))
        j.bad("no profile", VP, mp([]), cert_profiles=list(known))
        if n > 1:
            j.bad("number of profiles", VP, mp(names[:-1]), cert_profiles=list(known))
        # protection
        if must:
            PP = (cu.check_is_protection_present, {"must_be_protected": rng.random() < 0.5})
            dev("no protection", h, PP, (cu.check_protection_alg_field, {}), pr=None)
            dev("no protectionAlg", h.but(alg=None), PP, (cu.check_protection_alg_field, {}))
            dev("unprotected", h.but(alg=None), (cu.check_is_protection_present, {"must_be_protected": True}), (cu.check_protection_alg_field, {}), pr=None)
            j.ok("unprotected", cu.check_is_protection_present, mk(h.but(alg=None), bd, None), must_be_protected=False, ret=False)
            SE = (cu.check_sender_cmp_protection, {"allow_failure": False})
            SK = (cu.validate_senderkid_for_cmp_protection, {"must_be_protected": True})
            j.ok("sender", SE[0], R, **SE[1])
            j.ok("senderKID", SK[0], R, **SK[1])
            dev("no senderKID", h.but(skid=None), SK)
            odd = rng.choice((tl(0x81, b"a@example.com"), tl(0x86, b"https://x"), tl(0x82, b"x.example")))
            dev("kind of sender", h.but(sender=odd), SE)
            if kind == "mac":
                dev("sender without CN", h.but(sender=gn(name(None, ("2.5.4.10", "Org")))), SE, SK)
                dev("empty sender", h.but(sender=gn(name(None))), SE, SK)
                dev("other senderKID", h.but(skid=rng.choice((cn + "x", cn[:-1], cn.swapcase(), "x" + cn, "")).encode()), SK)
                dev("senderKID not UTF-8", h.but(skid=b"\xff\xfe" + cn.encode()), SK)
                j.ok("lenient", SK[0], mk(h.but(skid=b"other")), allow_mac_failure=True)
            else:
                wrong = rng.choice((name(cn + "y"), name(cn, ("2.5.4.10", "Org")), name(None), name(None, ("2.5.4.11", cn))))
                if wrong != nm:
                    dev("other sender", h.but(sender=gn(wrong)), SE)
                dev("other senderKID", h.but(skid=rng.choice((flip(rng, ski), ski[:-1], ski + b"\0"))), SK)
                dev("other senderKID", h.but(skid=flip(rng, ski)), (SK[0], {"protection_cert": cert.asn1}), head=False)
                dev("no certificate", h, SE, (cu.check_protection_alg_field, {}), cc=[])
                j.ok("given certificate", SK[0], mk(h, cc=[root.raw]), protection_cert=cert.asn1)
        else:
            dev("unprotected", h, (cu.check_is_protection_present, {"must_be_protected": True}), head=False)
            j.bad("unprotected", HEAD, R, Q, protection=True)
            j.ok("unprotected", cu.validate_senderkid_for_cmp_protection, R)
            j.bad("unprotected", cu.validate_senderkid_for_cmp_protection, R, must_be_protected=True)
            j.ok("unprotected", cu.check_protection_alg_field, R, must_be_protected=False)


# -- requests ---------------------------------------------------------------------------------------------
def job_requests(rec, rounds, budget):
    from resources import checkutils as cu, cmputils
    rng = rec.rng
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        kind = rng.choice(("ir", "cr", "kur", "p10cr", "rr", "genm", "ccr"))
        tx, n1, n2 = rb(rng, 16), rb(rng, 16), rb(rng, 16)
        h = H(tx=tx, snonce=n1)
        j = Judge(rec, kind, kind=kind)
        mk = lambda hh, k=kind: p(message(hh, body(k)))  # noqa: E731
        V = cu.validate_request_message_nonces_and_tx_id
        j.ok("request", V, mk(h))
        n = rng.choice((0, 15, 17, 32))
        for case, hh in (("no senderNonce", h.but(snonce=None)), ("no transactionID", h.but(tx=None)), ("recipNonce", h.but(rnonce=rb(rng, 16))),
                         ("length of senderNonce", h.but(snonce=rb(rng, n))), ("length of transactionID", h.but(tx=rb(rng, n)))):
            j.bad(case, V, mk(hh))
        # certConf
        resp = p(message(H(tx=tx, snonce=n2, rnonce=n1), body("ip")))
        hc = H(tx=tx, snonce=n1, rnonce=n2)
        mc = lambda hh: mk(hh, "certConf")  # noqa: E731
        j.ok("certConf", V, mc(hc), resp)
        j.bad("certConf without response", V, mc(hc))
        for f in ("tx", "snonce", "rnonce"):
            v = getattr(hc, f)
            j.bad(f"certConf: no {f}", V, mc(hc.but(**{f: None})), resp)
            j.bad(f"certConf: other {f}", V, mc(hc.but(**{f: flip(rng, v)})), resp)
            j.bad(f"certConf: length of {f}", V, mc(hc.but(**{f: (v * 2)[:n]})), resp)
            other = {"tx": "tx", "snonce": "rnonce", "rnonce": "snonce"}[f]
            s = (v * 2)[:n]
            j.bad(f"certConf: length of {f} on both sides", V, mc(hc.but(**{f: s})), p(message(H(tx=tx, snonce=n2, rnonce=n1).but(**{other: s}), body("ip"))))
        # body types
        T = cu.validate_cmp_body_types
        for res in rng.sample(sorted(BODY), 5) + [ANSWER[kind], "error"]:
            if res == "nested":
                continue
            m = p(message(H(tx=tx, snonce=n2, rnonce=n1), body(res)))
            q = mk(h)
            for err, good in ((None, res in (ANSWER[kind], "error")), (False, res == ANSWER[kind]), (True, res == "error")):
                (j.ok if good else j.bad)(f"{kind} - {res} error={err}", T, m, q, error=err)
        bad = rng.choice(("ip", "cp", "pkiconf", "certConf", "error", "genp", "pollReq"))
        j.bad(f"{bad} as request", T, p(message(h, body("ip"))), mk(h, bad))
        # a MAC where a signature is needed
        W = cu.validate_wrong_integrity
        k = rng.choice(sorted(BODY))
        bd = body(k) if k != "nested" else tl(0xA0 | 20, s_(message(h, body("ir"))))
        m = p(message(h.but(alg=rng.choice((pbm(), pbmac1()))), bd, rb(rng, 32)))
        (j.bad if k in ("ccr", "kur", "rr", "nested") else j.ok)(f"MAC: {k}", W, m)
        m = p(message(h.but(alg=rng.choice([a for a, _ in SIGS.values()])), bd, rb(rng, 64)))
        j.ok(f"signature: {k}", W, m)
        # PKIStatusInfo
        V = cmputils.verify_pkistatusinfo
        from checks.p23 import FAIL, STATUS
        st = rng.choice(STATUS)
        fails = rng.sample(FAIL, rng.randrange(1, 4)) if rng.random() < 0.7 else []
        k = rng.choice(("ip", "cp", "kup", "error", "rp"))
        si = status_der(st, fails, ["x"] if rng.random() < 0.5 else None)
        inner = s_(si) if k == "error" else s_(s_(si)) if k == "rp" else s_(s_(s_(i_(0), si)))
        m = p(message(h, body(k, inner=inner)))
        a = ",".join(fails) if rng.random() < 0.5 else ", ".join(fails)
        j.ok("status", V, m, status=st)
        j.ok("status", V, m, status=st, body_type=k)
        j.bad("other status", V, m, status=rng.choice([x for x in STATUS if x != st]))
        j.bad("other body", V, m, status=st, body_type=rng.choice([x for x in ("ip", "cp", "kup", "error", "rp") if x != k]))
        j.bad("nothing asked", V, m)
        if fails:
            # several names are alternatives; exclusive: no other bit is set
            no = [x for x in FAIL if x not in fails]
            rng.shuffle(no)
            j.ok("failInfo", V, m, status=st, failinfos=rng.choice(fails), exclusive=len(fails) == 1, must_be_present=True, allow_failure_info=False)
            j.bad("failInfo missing", V, m, status=st, failinfos=no[0], exclusive=rng.random() < 0.5, allow_failure_info=False)
            j.bad("failInfo none of them", V, m, status=st, failinfos=",".join(no[:rng.randrange(2, 4)]), exclusive=rng.random() < 0.5, allow_failure_info=False)
            j.ok("failInfo one of them", V, m, status=st, failinfos=",".join([*no[:rng.randrange(2)], *fails]), exclusive=len(fails) == 1, allow_failure_info=False)
            if len(fails) > 1:
                j.bad("failInfo more than asked", V, m, status=st, failinfos=rng.choice(fails), exclusive=True, allow_failure_info=False)
            if st == "rejection":
                j.ok("failInfo", V, m, failinfos=a, exclusive=len(fails) == 1, allow_failure_info=False)
            else:
                j.bad("rejection implied", V, m, failinfos=a)
        else:
            j.bad("no failInfo", V, m, status=st, must_be_present=True)
        # added protection
        A = cu.validate_add_protection_tx_id_and_nonces
        k = rng.choice(("ir", "cr", "p10cr", "kur", "certConf", "rr", "genm"))
        rn = rb(rng, 16) if k == "certConf" else None
        hi = H(tx=tx, snonce=n1, rnonce=rn)
        nest = lambda ho, *inn: p(message(ho, tl(0xA0 | 20, s_(*inn))))  # noqa: E731
        inn = lambda hh: message(hh, body(k))  # noqa: E731
        j.ok("added protection", A, nest(hi, inn(hi)))
        rec.count("nested")
        for f in ("tx", "snonce") + (("rnonce",) if rn else ()):
            v = getattr(hi, f)
            for side in (0, 1):
                for case, val in (("none", None), ("other", flip(rng, v)), ("longer", v + b"\0")):
                    d = hi.but(**{f: val})
                    j.bad(f"added protection: {f} {case} {side}", A, nest(d, inn(hi)) if side else nest(hi, inn(d)))
            d = hi.but(**{f: (v * 2)[:n]})
            j.bad(f"added protection: length of {f}", A, nest(d, inn(d)))
            j.ok(f"added protection: length of {f} ignored", A, nest(d, inn(d)), check_length=False)
        if not rn:
            d = hi.but(rnonce=rb(rng, 16))
            for pair in ((d, hi), (hi, d), (d, d)):
                j.bad("added protection: recipNonce", A, nest(pair[0], inn(pair[1])))
        j.bad("added protection: two messages", A, nest(hi, inn(hi), inn(hi)))
        # batches
        cnt = rng.randrange(2, 5)
        kinds = [rng.choice(tuple(ANSWER)) for _ in range(cnt)]
        hs = [H(tx=rb(rng, 16), snonce=rb(rng, 16)) for _ in kinds]
        ho = H(tx=tx, snonce=n1)
        req = nest(ho, *[message(a, body(b)) for a, b in zip(hs, kinds)])
        ans = [(H(tx=a.tx, snonce=rb(rng, 16), rnonce=a.snonce), ANSWER[b] if rng.random() < 0.8 else "error") for a, b in zip(hs, kinds)]
        hr = H(tx=tx, snonce=n2, rnonce=n1)
        rsp = lambda items, hh=hr: nest(hh, *[message(a, body(b)) for a, b in items])  # noqa: E731
        I = cu.validate_ids_and_nonces_for_nested_response  # noqa: E741
        U = cu.validate_nested_message_unique_nonces_and_ids
        rec.count("nested")
        art = dict(kinds=kinds, answers=[b for _, b in ans])
        j = Judge(rec, "batch", **art)
        j.ok("batch", I, req, rsp(ans))
        mixed = list(ans)
        rng.shuffle(mixed)
        j.ok("batch in another order", I, req, rsp(mixed))
        x = rng.randrange(cnt)

        def with_(i, hh=None, kind=None):
            out = list(ans)
            out[i] = (hh or ans[i][0], kind or ans[i][1])
            return out
        j.bad("batch: other recipNonce", I, req, rsp(with_(x, ans[x][0].but(rnonce=flip(rng, ans[x][0].rnonce)))))
        j.bad("batch: other transactionID", I, req, rsp(with_(x, ans[x][0].but(tx=flip(rng, ans[x][0].tx)))))
        j.bad("batch: an answer twice", I, req, rsp(with_(x, *ans[(x + 1) % cnt])))
        wk = rng.choice([k for k in ("ip", "cp", "kup", "genp", "rp", "ccp") if k != ANSWER[kinds[x]]])
        j.bad("batch: body of an answer", I, req, rsp(with_(x, kind=wk)))
        j.bad("batch: one less", I, req, rsp(ans[:-1]))
        j.bad("batch: one more", I, req, rsp(ans + [ans[0]]))
        j.bad("batch: outer transactionID", I, req, rsp(ans, hr.but(tx=flip(rng, tx))))
        j.bad("batch: outer nonce", I, req, rsp(ans, hr.but(rnonce=flip(rng, n1))))
        j.bad("batch: not nested", I, req, p(message(hr, body("ip"))))
        j.ok("batch types", T, rsp(ans), req)
        j.bad("batch types", T, rsp(with_(x, kind=wk)), req)
        j.bad("batch types: one less", T, rsp(ans[:-1]), req)
        j.bad("batch types: not nested", T, p(message(hr, body("ip"))), req)
        j.ok("batch types: error", T, p(message(hr, body("error"))), req)
        j.bad("batch types: error", T, p(message(hr, body("error"))), req, error=False)
        one = nest(ho, message(ho, body(kinds[0])))
        j.ok("added protection types", T, p(message(hr, body(ANSWER[kinds[0]]))), one)
        j.bad("added protection types", T, rsp(ans[:1]), one)
        # uniqueness
        rs = [a for a, _ in ans]
        j.ok("unique", U, rsp(ans), check_length=True)
        for f in ("tx", "snonce", "rnonce"):
            arg = {"tx": "check_transaction_id", "snonce": "check_sender_nonce", "rnonce": "check_recip_nonce"}[f]
            y = (x + 1) % cnt
            same = with_(x, rs[x].but(**{f: getattr(rng.choice((rs[y], hr)), f)}))
            j.bad(f"unique: {f} twice", U, rsp(same))
            j.ok(f"unique: {f} not looked at", U, rsp(same), **{arg: False})
            j.bad(f"unique: no {f}", U, rsp(with_(x, rs[x].but(**{f: None}))))
            j.bad(f"unique: no outer {f}", U, rsp(ans, hr.but(**{f: None})))
            j.bad(f"unique: length of {f}", U, rsp(with_(x, rs[x].but(**{f: rb(rng, 17)}))), check_length=True)
        j.ok("unique: no recipNonce", U, req, check_recip_nonce=False, check_length=True)
        j.bad("unique: not nested", U, p(message(hr, body("ip"))))


# -- signatures and chains --------------------------------------------------------------------------------
def job_signed(rec, rounds, budget):
    from resources import checkutils as cu
    rng = rec.rng
    C = cu.check_pkimessage_signature_protection
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        key, cert, nm, ski, root = end(rng)
        h = H(sender=gn(nm), skid=ski, tx=rb(rng, 16), snonce=rb(rng, 16), time=utcnow())
        kind = rng.choice(("ir", "cr", "ip", "error", "genm", "pkiconf"))
        bd = body(kind)
        extra = [root.raw] if rng.random() < 0.7 else []
        others = [end(rng, but=key)[1].raw for _ in range(rng.randrange(3))]
        j = Judge(rec, (key.alg, kind), alg=key.alg)
        strict = dict(allow_sender_failure=False)
        rec.count("signed")
        j.ok("signed", C, p(signed(rng, h.but(), bd, key, [cert.raw] + extra + others)), **strict)
        j.bad("spoiled signature", C, p(signed(rng, h.but(), bd, key, [cert.raw] + extra + others, spoil=True)), **strict)
        h2 = h.but()
        good = signed(rng, h2, bd, key, [cert.raw])
        sig = tlv.parse(good).kids[2].kids[0].val[1:]
        j.bad("header changed", C, p(message(h2.but(snonce=flip(rng, h2.snonce)), bd, sig, [cert.raw])), **strict)
        j.bad("body changed", C, p(message(h2, body("error" if kind != "error" else "genm"), sig, [cert.raw])), **strict)
        j.bad("no certificates", C, p(message(h2, bd, sig)), **strict)
        rest = ([] if root.key is key else extra) + others or [end(rng, but=key)[1].raw]
        at = rng.randrange(1, len(rest) + 1)
        j.bad("certificate not first", C, p(signed(rng, h.but(), bd, key, rest[:at] + [cert.raw] + rest[at:])), allow_sender_failure=True, check_sender_kid=False)
        j.bad("certificate missing", C, p(signed(rng, h.but(), bd, key, rest)), allow_sender_failure=True, check_sender_kid=False)
        bad = p(signed(rng, h.but(skid=flip(rng, ski)), bd, key, [cert.raw]))
        j.bad("senderKID", C, bad, **strict)
        j.ok("senderKID not looked at", C, bad, check_sender_kid=False, **strict)
        bad = p(signed(rng, h.but(sender=gn(name("z" + word(rng, 11, 12)))), bd, key, [cert.raw]))
        j.bad("sender", C, bad, **strict)
        j.ok("sender not looked at", C, bad)
        j.bad("not signed", C, p(message(h.but(alg=pbm()), bd, rb(rng, 32), [cert.raw])), **strict)
        # the key of another certificate of the same name
        k2 = p20.fresh()
        fake = p20.make(rng, "x", k2, "Other", k2, ca=False, ku=None, ski=ski, name=tlv.parse(nm))
        j.bad("other key", C, p(signed(rng, h.but(), bd, k2, [cert.raw, fake.raw])), **strict)
        # algorithm and key
        F = cu.check_protection_alg_conform_to_spki
        from pyasn1.codec.der import decoder
        from pyasn1_alt_modules import rfc9480
        k = p20.key(rng.choice(("ec", "rsa", "ed25519", "ed448", "ml-dsa-44")), rng)
        ck = p20.make(rng, "x", k, "y", p20.key("ec", rng), ca=False)
        for nm_, (alg, fam) in SIGS.items():
            a = decoder.decode(alg, asn1Spec=rfc9480.AlgorithmIdentifier())[0]
            want = k.alg in fam
            (j.ok if want else j.bad)(f"{nm_} with {k.alg}", F, a, ck.asn1, ret=want)
            hh = h.but(alg=alg)
            if k.alg != "ml-dsa-44" and nm_[:5] != "mldsa":
                (j.ok if want else j.bad)(f"{nm_} with {k.alg}", cu.check_protection_alg_field, p(message(hh, bd, rb(rng, 64), [ck.raw])), expected_type="sig")
        # where the certificate is
        cs = [end(rng) for _ in range(rng.randrange(1, 5))]
        x = rng.randrange(len(cs))
        data = rb(rng, 50)
        hh = rng.choice(("sha256", "sha384", "sha512"))
        kx = cs[x][0]
        import random

        class Fixed(random.Random):
            def choice(self, seq_):
                return hh
        sig, _a = kx.sign(lambda a: data, Fixed())
        ids = [id(c[0]) for c in cs]
        rec.count("chains")
        pos = cu.find_right_cert_pos([c[1].asn1 for c in cs], data, sig, hh)
        j.ok("position", lambda: pos, ret=ids.index(id(kx)))
        j.ok("position", cu.find_right_cert_pos, [c[1].asn1 for c in cs], data + b"x", sig, hh, ret=-1)
        # order
        n = rng.randrange(1, 5)
        nodes, chain = [(word(rng), p20.key("ec", rng)) for _ in range(n)], []
        for i, (cn, kk) in enumerate(nodes):
            iss = nodes[min(i + 1, n - 1)]
            chain.append(p20.make(rng, cn, kk, *iss, ca=i > 0 or n == 1))
        junk = [end(rng)[1] for _ in range(rng.randrange(3))]
        issued = rng.random() < 0.5 and n > 1
        part = chain[1:] if issued else chain
        ec = part + junk
        if rng.random() < 0.7:
            rng.shuffle(ec)
        pos = [ec.index(c) for c in part]
        want = all(b == a + 1 or b < a for a, b in zip(pos, pos[1:]))
        O = cu.check_single_chain_is_ordered  # noqa: E741
        (j.ok if want else j.bad)(f"order {pos}"[:30], O, [c.asn1 for c in ec], [c.asn1 for c in chain], check_for_issued=issued, ret=want)
        if len(part) > 1 or not issued:
            gone = rng.choice(part)
            j.bad("chain incomplete", O, [c.asn1 for c in ec if c is not gone] or [junk_.asn1 for junk_ in [end(rng)[1]]], [c.asn1 for c in chain], check_for_issued=issued)


# -- bodies -----------------------------------------------------------------------------------------------
def job_bodies(rec, rounds, budget):
    from resources import checkutils as cu
    rng = rec.rng
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        h = H(tx=rb(rng, 16), snonce=rb(rng, 16))
        key, cert, nm, ski, root = end(rng)
        env = enveloped(rng)
        old = enc_value(rng)
        V = cu.validate_ca_message_body
        kind = rng.choice(("ip", "cp", "kup", "ccp"))
        p10 = kind == "cp" and rng.random() < 0.5
        rid = -1 if p10 else 0
        j = Judge(rec, kind, kind=kind, p10=p10)
        rec.count("bodies")
        plain = tl(0xA0, cert.raw)

        def mk(entries, pvno=2, pubs=(), k=kind):
            return p(message(h.but(pvno=pvno), body(k, inner=s_(tl(0xA1, s_(*pubs)) if pubs else b"", s_(*entries)))))

        def ent(i=rid, st="accepted", fail=None, ckp=None):
            return s_(i_(i), status_der(st, fail, None), ckp or b"")
        pair = lambda c=plain, priv=None: s_(c, tl(0xA0, priv) if priv else b"")  # noqa: E731
        kw = dict(used_p10cr=p10)
        st = rng.choice(("accepted", "grantedWithMods"))
        ok = ent(st=st, ckp=pair())
        j.ok("granted", V, mk([ok]), **kw)
        j.ok("rejected", V, mk([ent(st="rejection", fail=["badPOP"])]), **kw)
        for wrong in rng.sample([-1, 0, 1, 2, 255], 3):
            if wrong != rid:
                j.bad("certReqId", V, mk([ent(wrong, st=st, ckp=pair())]), **kw)
                j.bad("certReqId", cu.validate_certReqId, mk([ent(wrong, st=st, ckp=pair())]), **kw)
        j.ok("certReqId", cu.validate_certReqId, mk([ok]), **kw)
        j.bad("granted with failInfo", V, mk([ent(st=st, fail=["badAlg"], ckp=pair())]), **kw)
        j.bad("granted without certificate", V, mk([ent(st=st)]), **kw)
        j.bad("rejected with certificate", V, mk([ent(st="rejection", ckp=pair())]), **kw)
        j.bad("rejected with caPubs", V, mk([ent(st="rejection")], pubs=[root.raw]), **kw)
        j.bad("other status", V, mk([ent(st=rng.choice(("waiting", "revocationWarning", "revocationNotification", "keyUpdateWarning")), ckp=pair())]), **kw)
        n = rng.randrange(2, 4)
        j.bad("more responses", V, mk([ok] * n), **kw)
        j.bad("fewer responses", V, mk([ok]), expected_size=n, **kw)
        j.bad("body type", V, p(message(h, body(rng.choice(("error", "rp", "ir", "cr", "genp", "pkiconf"))))), **kw)
        # one of several
        x = rng.randrange(n)
        goods = [ent(7 + i, st=rng.choice(("accepted", "grantedWithMods")), ckp=pair()) for i in range(n)]
        goods[x] = ok
        j.ok("one of several", V, mk(goods), expected_size=n, response_index=x, **kw)
        rej = list(goods)
        rej[x] = ent(st="rejection", fail=["badPOP"])
        j.ok("one of several rejected", V, mk(rej), expected_size=n, response_index=x, **kw)
        goods[x] = ent(st="rejection", ckp=pair())
        j.bad("one of several rejected with certificate", V, mk(goods), expected_size=n, response_index=x, **kw)
        goods[x] = ent(st=st, fail=["badAlg"], ckp=pair())
        j.bad("one of several with failInfo", V, mk(goods), expected_size=n, response_index=x, **kw)
        goods[x] = ent(st="waiting")
        j.bad("one of several waits", V, mk(goods), expected_size=n, response_index=x, **kw)
        # central key generation
        K = cu.validate_certified_key_pair_structure
        priv = tl(0xA0, env)
        central = ent(st=st, ckp=pair(priv=priv))
        j.ok("central key", V, mk([central], 3), local_key_gen=False, **kw)
        j.ok("central key", K, mk([central], 3), local_key_gen=False)
        j.ok("local key", K, mk([ok], rng.choice((2, 3))), local_key_gen=True)
        for fn, k2 in ((V, kw), (K, {})):
            j.bad("central key in pvno 2", fn, mk([central], 2), local_key_gen=False, **k2)
            j.bad("unexpected private key", fn, mk([central], 3), local_key_gen=True, **k2)
            j.bad("no private key", fn, mk([ok], 3), local_key_gen=False, **k2)
        j.ok("contains private key", cu.check_if_response_contains_private_key, mk([central], 3), ret=True)
        j.ok("contains no private key", cu.check_if_response_contains_private_key, mk([ok]), ret=False)
        j.ok("contains no private key", cu.check_if_response_contains_private_key, mk([ent(st="rejection")]), ret=False)
        es = tl(0xA1, tl(0xA0, env))
        encd = ent(st=st, ckp=pair(es))
        j.ok("encrypted certificate", K, mk([encd], 3))
        j.bad("encrypted certificate in pvno 2", K, mk([encd], 2))
        j.ok("encrypted certificate, old form", K, mk([ent(st=st, ckp=pair(tl(0xA1, old)))], 2))
        E_ = cu.check_if_response_contains_encrypted_cert
        j.ok("contains encrypted certificate", E_, mk([encd], 3), ret=True)
        j.ok("contains encrypted certificate", E_, mk([ok, encd], 3), 1, ret=True)
        j.ok("contains plain certificate", E_, mk([ok]), ret=False)
        j.ok("contains no certificate", E_, mk([ent(st="rejection")]), ret=False)
        # caPubs where they may not be, certificate or not
        j.bad("caPubs without key pair", cu.validate_ca_msg_ca_pubs_field, mk([ent(st="rejection")], pubs=[root.raw]), allow_os_store=False)
        if kind in ("cp", "kup") and not p10:
            j.bad(f"caPubs in {kind}", cu.validate_ca_msg_ca_pubs_field, mk([ok], pubs=[root.raw]), used_p10cr=False, allow_os_store=False)
        j.bad("caPubs not trusted", cu.validate_ca_msg_ca_pubs_field, mk([ok], pubs=[root.raw]), used_p10cr=True, allow_os_store=False)
        j.ok("no caPubs", cu.validate_ca_msg_ca_pubs_field, mk([ok]), used_p10cr=p10, allow_os_store=False)
        # revocation responses
        RP = cu.check_rp_cmp_message_body
        rp = lambda *sts: p(message(h, body("rp", inner=s_(s_(*sts)))))  # noqa: E731
        good, rejd = status_der("accepted", None, None), status_der("rejection", ["badCertId"], None)
        j.ok("rp accepted", RP, rp(good))
        j.ok("rp rejected", RP, rp(rejd))
        j.ok("rp second", RP, rp(status_der("waiting", None, None), rng.choice((good, rejd))), 1)
        j.bad("rp accepted with failInfo", RP, rp(status_der("accepted", ["badCertId"], None)))
        j.bad("rp second accepted with failInfo", RP, rp(good, status_der("accepted", ["badCertId"], None)), "1")
        j.bad("rp status", RP, rp(status_der(rng.choice(("grantedWithMods", "waiting", "keyUpdateWarning", "revocationWarning")), None, None)))
        j.bad("rp body", RP, mk([ok]))
        # cross-certification
        if kind == "ccp":
            X = cu.validate_cross_certification_response
            cmd = s_(s_(ent(st="accepted", ckp=pair())))
            k2, c2, nm2, ski2, root2 = end(rng)
            base = h.but(sender=gn(nm2), skid=ski2, alg=next(a for a, f in SIGS.values() if k2.alg in f))
            j.ok("ccp", X, p(message(base, body("ccp", inner=cmd), rb(rng, 64), [c2.raw])))
            j.bad("ccp without extraCerts", X, p(message(base, body("ccp", inner=cmd), rb(rng, 64))))
            j.bad("ccp with a MAC", X, p(message(base.but(alg=rng.choice((pbm(), pbmac1()))), body("ccp", inner=cmd), rb(rng, 32), [c2.raw])))
            j.bad("ccp with two certificates", X, p(message(base, body("ccp", inner=s_(s_(*[ent(st="accepted", ckp=pair())] * 2))), rb(rng, 64), [c2.raw])))
        # grantedWithMods
        if kind in ("ip", "cp", "kup") and not p10:
            G = cu.check_for_granted_with_mods
            rk = {"ip": "ir", "cp": "cr", "kup": "kur"}[kind]
            spki = tlv.dump(key.spki)

            def rq(subject, sp, k=rk):
                inner = s_(s_(s_(i_(0), s_(tl(0xA5, subject), tl(0xA6, sp[header_len(sp):])))))
                return p(message(h, body(k, inner=inner)))
            same = rq(nm, spki)
            j.ok("as asked", G, mk([ent(st="accepted", ckp=pair())]), same)
            okey = p20.fresh()
            for case, r in (("other subject", rq(name("q" + word(rng, 11, 12)), spki)), ("other key", rq(nm, tlv.dump(okey.spki)))):
                j.bad(f"modified but accepted: {case}", G, mk([ent(st="accepted", ckp=pair())]), r)
                j.ok(f"modified and told so: {case}", G, mk([ent(st="grantedWithMods", ckp=pair())]), r)
            two = p(message(h, body(rk, inner=s_(s_(s_(i_(0), s_(tl(0xA5, name("first"))))), s_(s_(i_(1), s_(tl(0xA5, nm), tl(0xA6, spki[header_len(spki):]))))))))
            first = ent(st="accepted", ckp=pair(tl(0xA0, root.raw)))
            j.ok("second as asked", G, mk([first, ent(1, st="accepted", ckp=pair())]), two, response_index=1)
            j.bad("second modified but accepted", G, mk([ent(st="grantedWithMods", ckp=pair()), ent(1, st="accepted", ckp=pair(tl(0xA0, root.raw)))]), two, response_index=1)
            j.bad("no certificate response", G, p(message(h, body("error"))), same)
            j.bad("no certificate request", G, mk([ent(st="accepted", ckp=pair())]), p(message(h, body("p10cr"))))


def header_len(der):
    return 2 if der[1] < 0x80 else 2 + (der[1] & 0x7F)


def enveloped(rng):
    """The content of an EnvelopedData with a password recipient (implicitly tagged by the caller)."""
    kek = s_(oid("1.2.840.113549.1.9.16.3.9"), s_(oid("2.16.840.1.101.3.4.1.45")))
    pwri = tl(0xA3, i_(0) + tl(0xA0, oid("1.2.840.113549.1.5.12") + s_(tl(4, rb(rng, 8)), i_(1000), i_(32), s_(oid("1.2.840.113549.2.9"), NULL))) + kek + tl(4, rb(rng, 40)))
    eci = s_(oid("1.2.840.113549.1.7.2"), s_(oid("2.16.840.1.101.3.4.1.42"), tl(4, rb(rng, 16))), tl(0x80, rb(rng, 64)))
    return i_(0) + tl(0x31, pwri) + eci


def enc_value(rng):
    """EncryptedKey with the deprecated EncryptedValue."""
    return s_(tl(0xA1, oid("2.16.840.1.101.3.4.1.42") + tl(4, rb(rng, 16))), tl(0x82, b"\0" + rb(rng, 32)), tl(3, b"\0" + rb(rng, 32)))


# -- confirmations ----------------------------------------------------------------------------------------
def job_conf(rec, rounds, budget):
    from resources import checkutils as cu
    rng = rec.rng
    V = cu.validate_pki_confirmation_message
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        j = Judge(rec, "pkiconf")
        tx = rb(rng, 16)
        kind = rng.choice(("ip", "cp", "kup", "rp"))
        rec.count("conf")
        # signed
        key, cert, nm, ski, root = end(rng)
        h = lambda: H(sender=gn(nm), skid=ski, tx=tx, snonce=rb(rng, 16))  # noqa: E731
        import random
        seed = rng.random()
        same = lambda: random.Random(seed)  # noqa: E731
        ca = p(signed(same(), h(), body(kind), key, [cert.raw, root.raw]))
        pc = lambda k=key, certs=(cert.raw, root.raw), hh=None, r=None, **kw: p(signed(r or same(), hh or h(), body("pkiconf"), k, certs, **kw))  # noqa: E731
        j.ok("signed", V, pc(), ca)
        j.bad("spoiled signature", V, pc(spoil=True), ca)
        j.bad("no extraCerts", V, pc(certs=()), ca, allow_caching_certs=False)
        j.bad("not a confirmation", V, ca, ca)
        j.bad("not a CA message", V, pc(), p(signed(same(), h(), body(rng.choice(("error", "genp"))), key, [cert.raw])))
        k2, c2, nm2, ski2, root2 = end(rng, alg=key.alg, but=key)
        j.bad("other certificate", V, pc(k2, (c2.raw, root2.raw), H(sender=gn(nm2), skid=ski2, tx=tx, snonce=rb(rng, 16))), ca)
        # MAC
        from resources import protectionutils
        cn = word(rng)
        hm = lambda: H(sender=gn(name(cn)), skid=cn.encode(), tx=tx, snonce=rb(rng, 16))  # noqa: E731
        alg = rng.choice(("pbmac1", "password_based_mac"))
        oth = "pbmac1" if alg != "pbmac1" else "password_based_mac"
        from vlib.ca import der
        n = rng.choice((100, 200))

        def mac(k, a=alg, n=n, dec=True, salt=None):
            m = protectionutils.protect_pkimessage(p(message(hm(), body(k))), a, password="pw", salt=salt or rb(rng, 16), iterations=n)
            return p(der(m)) if dec else m
        j.art.update(alg=alg)
        rq = "ir" if kind in ("ip", "rp") else "cr"
        pk = "ip" if rq == "ir" else "cp"
        j.ok("MAC", V, mac("pkiconf"), mac(pk), mac(rq, dec=rng.random() < 0.5))
        j.bad("MAC with other rounds in the confirmation", V, mac("pkiconf", n=n + 1), mac(pk), mac(rq))
        j.bad("MAC with other rounds in the response", V, mac("pkiconf"), mac(pk, n=n + 1), mac(rq))
        M = protectionutils.mac_protection_algorithms_must_match
        salt = rb(rng, 16)
        s = lambda k, **kw: mac(k, salt=salt, **kw)  # noqa: E731
        j.ok("same salt", M, s(rq), s(pk), s("pkiconf"), same_salt=True)
        j.bad("same salt", M, s(rq), mac(pk), s("pkiconf"), same_salt=True)
        j.bad("same salt", M, s(rq), s(pk), mac("pkiconf"), same_salt=True)
        j.bad("fresh salt", M, s(rq), s(pk))
        j.bad("fresh salt", M, s(rq), mac(pk), s("pkiconf"))
        j.ok("not strict", M, mac(rq), mac(pk, oth), mac("pkiconf", oth), strict=False)
        sg = p(signed(same(), h(), body(pk), key, [cert.raw]))
        j.bad("signed response", M, mac(rq), sg)
        j.bad("signed response", M, mac(rq), sg, strict=False)
        null = p(message(hm().but(alg=pbmac1(rb(rng, 16), 300)), body(rq), rb(rng, 32)))
        absent = p(message(hm().but(alg=pbmac1(rb(rng, 16), 300, null=b"")), body(pk), rb(rng, 32)))
        j.ok("NULL or absent", M, null, absent)
        j.ok("NULL or absent", M, absent, null)
        j.ok("absent", M, absent, p(message(hm().but(alg=pbmac1(rb(rng, 16), 300, null=b"")), body(pk), rb(rng, 32))), allow_null=False)
        j.bad("NULL", M, absent, null, allow_null=False)
        # the signed confirmation: what it has to share with the response
        alone = p(signed(same(), h(), body(kind), key, [cert.raw]))
        j.bad("certificate of another", V, pc(certs=(c2.raw,)), alone)
        j.bad("chain of another", V, pc(certs=(cert.raw,)), ca)
        j.ok("no certificates", V, pc(certs=()), ca)
        j.bad("MAC without request", V, mac("pkiconf"), mac(pk))
        j.bad("other MAC", V, mac("pkiconf", oth), mac(pk), mac(rq))
        j.bad("other MAC of the response", V, mac("pkiconf"), mac(pk, oth), mac(rq))
        j.bad("other MAC everywhere", V, mac("pkiconf", oth), mac(pk, oth), mac(rq))


def job_capubs(rec, rounds, budget):
    """caPubs with real trust anchors; the validator runs openssl in a fixed directory: one worker only."""
    import os
    from resources import checkutils as cu
    rng = rec.rng
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        h = H(tx=rb(rng, 16), snonce=rb(rng, 16))
        k, rk, ik = (p20.key(a, rng) for a in ("ec", rng.choice(("ec", "rsa")), "ec"))
        rn, im = "Root " + word(rng), "Inter " + word(rng)
        days = datetime.timedelta(days=1)
        t = (p20.now() - days, p20.now() + days * 50)
        kws = dict(times=t, ku=["keyCertSign", "cRLSign", "digitalSignature"])
        root = p20.make(rng, rn, rk, rn, rk, ski=b"r" * 20, **kws)
        inter = p20.make(rng, im, ik, rn, rk, ski=b"i" * 20, aki=b"r" * 20, **kws)
        ees = [p20.make(rng, word(rng), k, im, ik, ca=False, ku=["digitalSignature"], times=t, ski=b"e" * 20, aki=b"i" * 20) for _ in range(2)]
        ee = ees[0]
        d = f"anchors{rng.randrange(10**9)}"
        os.mkdir(d)
        with open(f"{d}/root.pem", "w") as f:
            f.write("-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(root.raw).decode() + "-----END CERTIFICATE-----\n")
        V = cu.validate_ca_msg_ca_pubs_field
        B = cu.validate_ca_message_body
        kw = dict(trustanchors=d, allow_os_store=False, verbose=False)
        rec.count("capubs")

        def mk(kind, pubs, extra, certs=(ee,)):
            ents = [s_(i_(i and 7), status_der("accepted", None, None), s_(tl(0xA0, c.raw))) for i, c in enumerate(certs)]
            return p(message(h, body(kind, inner=s_(tl(0xA1, s_(*[c.raw for c in pubs])) if pubs else b"", s_(*ents))), None, [c.raw for c in extra]))
        j = Judge(rec, "caPubs")
        j.ok("caPubs of an ip", V, mk("ip", [root], [inter]), used_p10cr=False, **kw)
        j.ok("caPubs of an ip", B, mk("ip", [root], [inter]), **kw)
        j.bad("caPubs of an ip used as cr", V, mk("ip", [root], [inter]), used_p10cr=False, used_ir_as_cr=True, **kw)
        j.bad("caPubs of an ip used as cr", B, mk("ip", [root], [inter]), used_ir_as_cr=True, **kw)
        j.bad("caPubs of a kup", B, mk("kup", [root], [inter]), **kw)
        j.bad("caPubs of a cp", B, mk("cp", [root], [inter]), used_p10cr=False, **kw)
        j.bad("caPubs not a trust anchor", V, mk("ip", [inter], [root]), used_p10cr=False, **kw)
        j.bad("caPubs one not a trust anchor", V, mk("ip", [root, inter], [inter]), used_p10cr=False, **kw)
        j.bad("chain of the certificate missing", V, mk("ip", [root], []), used_p10cr=False, **kw)
        fake = p20.make(rng, word(rng), k, im, ik, ca=False, ku=["digitalSignature"], times=t, valid=False)
        j.bad("certificate not signed by the CA", V, mk("ip", [root], [inter], (fake,)), used_p10cr=False, **kw)
        j.bad("second certificate not signed by the CA", V, mk("ip", [root], [inter], (ee, fake)), used_p10cr=False, response_index=1, **kw)
        j.ok("second certificate", V, mk("ip", [root], [inter], (fake, ee)), used_p10cr=False, response_index=1, **kw)


def jobs(tier, seed):
    f, b = (1, 22) if tier == "quick" else (30, 300)
    out = [Job(f"header-{i}", job_header, rounds=60 * f, budget=b) for i in range(2)]
    out += [Job(f"requests-{i}", job_requests, rounds=60 * f, budget=b) for i in range(2)]
    out += [Job("signed", job_signed, rounds=60 * f, budget=b), Job("bodies", job_bodies, rounds=60 * f, budget=b),
            Job("conf", job_conf, rounds=60 * f, budget=b), Job("capubs", job_capubs, rounds=10 * f, budget=b)]
    return out
