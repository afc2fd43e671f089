"""Generated histories against one CA, with a reference model of what it should have on record.

Every action is either *valid* (the model says it is granted) or *hostile* (the model says it is
refused). After each message the CA's records are compared with the model. Deviations are
attributed to properties; a check reports those of its own property only.
"""

import ctypes
import os
import time

from vlib import ca, zoo
from vlib.ca import Cred, Env, der

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.x509 import ocsp
from pyasn1.codec.der import decoder
from pyasn1_alt_modules import rfc5280
from resources import cmputils, protectionutils
from resources.certbuildutils import build_certificate
from resources.keyutils import generate_key

N, C, U, V, R, L = ("NOT_CONFIRMED", "CONFIRMED", "UPDATED_BUT_NOT_CONFIRMED", "UPDATED", "REVOKED", "REVIVED")
LEGAL = {
    (None, N), (None, C), (N, C), (C, U), (C, V), (L, U), (L, V), (U, V), (C, R), (L, R), (R, L),
}
USABLE = (C, L)
REASONS = ["unspecified", "keyCompromise", "affiliationChanged", "superseded", "cessationOfOperation",
           "certificateHold", "privilegeWithdrawn"]


def advance(seconds):
    """Move this process, and the processes it starts from now on, forward in time."""
    fn = getattr(ctypes.CDLL(None), "vp_clock_advance", None)
    if fn is None:
        return False
    fn(ctypes.c_long(seconds))
    os.environ["VP_CLOCK_OFFSET"] = str(int(os.environ.get("VP_CLOCK_OFFSET", "0")) + seconds)  # for its child processes
    return True


def sign(msg, cred, **kw):
    """Signature protection with all header fields that go with it."""
    msg = cmputils.patch_sender(msg, cert=cred.cert)
    msg = cmputils.patch_senderkid(msg, cred.cert)
    msg = protectionutils.protect_pkimessage(
        msg, "signature", private_key=cred.key, cert=cred.cert, exclude_certs=True, **kw)
    return cmputils.patch_extra_certs(msg, [cred.cert] + list(cred.chain))


def subject(cert):
    return der(cert["tbsCertificate"]["subject"])


def serial(cert):
    return int(cert["tbsCertificate"]["serialNumber"])


def x509_of(cert):
    return x509.load_der_x509_certificate(der(cert))


class Ent(Cred):
    """An issued certificate, its owner's key, and the state the model gives it."""

    def __init__(self, key, cert, chain, cn, st, via):
        super().__init__(key, cert, chain)
        self.cn, self.st, self.via = cn, st, via
        self.reason = None
        self.pending = None  # Pending transaction that would confirm it

    @property
    def id(self):
        return der(self.cert)


class Pending:
    """An open transaction: the certificate waits for its confirmation."""

    def __init__(self, req, resp, mech, signer=None, old=None, cn="CN=x", alg=None):
        self.req, self.resp, self.mech, self.signer, self.old = req, resp, mech, signer, old
        self.cn, self.alg = cn, alg
        self.done = False
        self.t0 = time.time()

    def fresh(self):
        """A key update waits 10 s for its confirmation. True/False, None if too close to tell."""
        if self.old is None:
            return True
        if self.old.updated_by.pending is not self and self.old.st == U:
            return None  # superseded by a second attempt, which also restarts the clock
        age = time.time() - self.t0
        return True if age < 8.5 else False if age > 12 else None


class World:
    def __init__(self, rec, props, weights=None, mac_pool=None, ca_alg=None, **kw):
        if ca_alg:
            kw["ca_key"] = generate_key("ec", curve="secp256r1") if ca_alg == "ec" else zoo.stored(ca_alg)
            kw["ca_cert"], _ = build_certificate(private_key=kw["ca_key"], common_name="CN=Other CA", is_ca=True,
                                                 include_ski=True)
        self.rec, self.rng, self.props = rec, rec.rng, set(props)
        self.env = Env(rec, **kw)
        self.ents = []
        self.outsiders = []
        self.sent = []  # (raw, kind) of granted requests, for replays
        self.history = []
        self.crl_numbers = []
        self.closed = []  # Pending objects that are done
        self.weights = weights or {}
        self.n = 0
        self.mac_pool = mac_pool or ["password_based_mac"]
        self.ra = None
        # a CA key that signs without a hash algorithm: the client names one in its confirmations
        self.no_hash = type(self.env.h.ca_key).__name__.lower().startswith(("ed", "_ed"))

    # -- reporting ------------------------------------------------------------------------------
    def flag(self, props, key, msg, **art):
        if self.props & set(props):
            self.rec.violation(key, msg, history=self.history[-25:], **art)
            return True
        self.rec.count("other_property_deviation")
        return False

    def model(self):
        return {e.id: e.st for e in self.ents}

    def compare(self, props, what, before):
        """The CA's records against the model; the lifecycle of every change."""
        after = self.env.record()
        for k in set(before) | set(after):
            a, b = before.get(k), after.get(k)
            if a != b:
                self.rec.count(f"transition {a}->{b}")
                if (a, b) not in LEGAL:
                    self.flag({"P05"}, f"illegal-transition:{a}->{b}", f"{what}: {a} -> {b}")
        want = self.model()
        if want != after:
            diff = [(want.get(k), after.get(k)) for k in set(want) | set(after) if want.get(k) != after.get(k)]
            self.flag(set(props) | {"P05"}, f"record-differs:{what.split('/')[0]}:{sorted(map(str, diff))[0]}",
                      f"after {what} the CA's record differs from the model (model, CA): {diff}")
            for e in self.ents:  # resynchronise
                if e.id in after:
                    e.st = after[e.id]
            self.ents = [e for e in self.ents if e.id in after]
            known = {e.id for e in self.ents}
            for k in after:
                if k not in known:
                    e = Ent(None, ca.recode_cert(decoder.decode(k, asn1Spec=rfc5280.Certificate())[0]),
                            [], "?", after[k], "?")
                    self.ents.append(e)
        return after

    def send(self, msg, what, grant, props, note=""):
        """One exchange. grant True/False/None (either). Returns Resp."""
        before = self.env.record()
        raw = msg if isinstance(msg, bytes) else der(msg)
        resp = self.env.send(raw)
        self.history.append(f"{what} -> {resp.body} {resp.statuses()} {resp.text()[:90]}")
        self.before = before
        if grant is not None and resp.ok != grant:
            word = "refused" if grant else "granted"
            self.flag(props, f"{word}:{what}", f"{what} was {word}: {resp.body} {resp.statuses()} {resp.text()} {note}",
                      request=raw, response=resp.raw)
        self.rec.count("granted" if resp.ok else "refused")
        self.rec.ev(what, resp.ok, tuple(sorted(set(self.model().values()))), counter="exchanges")
        return resp

    def settle(self, what, props, resp=None):
        self.compare(props, what, self.before)

    # -- picking --------------------------------------------------------------------------------
    def pick(self, *states, **kw):
        pool = [e for e in self.ents if e.key is not None and (not states or e.st in states)
                and all(getattr(e, k) == v for k, v in kw.items())]
        return self.rng.choice(pool) if pool else None

    def newkey(self):
        r = self.rng.random()
        if r < 0.75:
            return generate_key("ec", curve=self.rng.choice(["secp256r1", "secp384r1"]))
        return generate_key("ed25519")

    def newcn(self):
        self.n += 1
        return f"CN=user{self.n}-{self.rng.randrange(10**6)}"

    def outsider(self, like=None):
        """A signer that has nothing to do with this CA; `like` copies a victim's subject."""
        cakey = generate_key("ec", curve="secp256r1")
        root, _ = build_certificate(private_key=cakey, common_name="CN=Rogue Root", is_ca=True, include_ski=True)
        key = generate_key("ec", curve="secp256r1")
        cn = like.cn if like else "CN=Rogue"
        cert, _ = build_certificate(private_key=key, common_name=cn, ca_key=cakey, ca_cert=root, include_ski=True)
        return Cred(key, cert, [root])

    def twin(self, victim):
        """A certificate by another CA with the victim's subject, serial number and issuer name, for another key."""
        cakey = generate_key("ec", curve="secp256r1")
        key = generate_key("ec", curve="secp256r1")
        cert, _ = build_certificate(private_key=key, common_name=victim.cn, ca_key=cakey, ca_cert=self.env.ca_cert,
                                    serial_number=serial(victim.cert), include_ski=True)
        return Cred(key, cert, [self.env.ca_cert])

    def get_ra(self):
        if self.ra is None:
            root = ca.load_cert("data/unittest/root_cert_ed25519.pem")
            r = ca.trusted_ra()
            self.ra = Cred(r.key, r.cert, [root])
        return self.ra

    # -- enrolment ------------------------------------------------------------------------------
    def act_enroll(self, kind=None, implicit=None, key=None, cn=None):
        kind = kind or self.rng.choice(["ir", "cr", "p10cr"])
        implicit = self.rng.random() < 0.5 if implicit is None else implicit
        key, cn = key or self.newkey(), cn or self.newcn()
        alg = self.rng.choice(self.mac_pool)
        msg = ca.mac_protect(ca.request(kind, key, cn, implicit_confirm=implicit), alg)
        resp = self.send(msg, f"enroll-{kind}", True, {"P05", "P02", "P03"})
        return self._issued(resp, msg, key, cn, implicit, "mac", f"enroll-{kind}", alg=alg)

    def _issued(self, resp, msg, key, cn, implicit, mech, what, signer=None, old=None, alg=None):
        if not resp.ok:
            self.settle(what, {"P02"})
            return None
        certs = resp.certs()
        if len(certs) != 1:
            self.flag({"P03"}, "cert-count", f"{what}: {len(certs)} certificates")
            self.settle(what, {"P02"})
            return None
        e = Ent(key, certs[0], [self.env.ca_cert], cn, C if implicit else N, what)
        self.ents.append(e)
        if implicit:
            self.rec.count("issued_confirmed")
            if old is not None:
                old.st = V
        else:
            self.rec.count("issued_unconfirmed")
            e.pending = Pending(der(msg), resp, mech, signer, old, cn, alg)
            if old is not None:
                old.st = U
                old.updated_by = e
        self.settle(what, {"P02"})
        self.sent.append((der(msg), what))
        return e

    def act_cr_signed(self):
        """cr signed with an issued certificate: granted for usable ones only."""
        s = self.pick(*(self.rng.choice([USABLE, USABLE, (N,), (U,), (V,), (R,)])))
        if s is None:
            return
        key, cn = self.newkey(), self.newcn()
        kind = self.rng.choice(["cr", "p10cr"])
        implicit = self.rng.random() < 0.5
        msg = sign(ca.request(kind, key, cn, mac=False, implicit_confirm=implicit), s)
        good = s.st in USABLE
        resp = self.send(msg, f"signed-{kind}-by-{s.st}", good, {"P05", "P02"})
        if not good:
            self.rec.count("unusable_signer_refused")
        if resp.ok and good:
            self._issued(resp, msg, key, cn, implicit, "sig", f"signed-{kind}", signer=s)
        else:
            self.settle(f"signed-{kind}-by-{s.st}", {"P02"})

    def act_ir_signed_unusable(self):
        s = self.pick(N, U, V, R)
        if s is None:
            return
        msg = sign(ca.request("ir", self.newkey(), self.newcn(), mac=False), s)
        self.send(msg, f"signed-ir-by-{s.st}", False, {"P05", "P02"})
        self.rec.count("unusable_signer_refused")
        self.settle(f"signed-ir-by-{s.st}", {"P02"})

    def act_genm_unusable(self):
        """General messages signed with revoked or superseded certificates are refused."""
        from resources import general_msg_utils as g
        s = self.pick(R, V)
        if s is None:
            return
        m = g.build_cmp_general_message(info_values=g.prepare_simple_info_types_and_value("ca_certs"),
                                        exclude_fields="sender,senderKID")
        before = self.env.record()
        resp = self.env.send(sign(m, s))
        self.rec.ev("genm-signed", s.st, resp.body, counter="exchanges")
        self.history.append(f"genm-by-{s.st} -> {resp.body} {resp.text()[:80]}")
        if resp.body != "error":
            self.flag({"P05"}, f"granted:genm-by-{s.st}", f"general message signed by a {s.st} certificate answered")
        else:
            self.rec.count("unusable_signer_refused")
        self.compare({"P26"}, f"genm-by-{s.st}", before)

    def act_same_key(self):
        """A second request for the same subject and key is refused."""
        e = self.pick()
        if e is None:
            return
        msg = ca.mac_protect(ca.request(self.rng.choice(["ir", "cr"]), e.key, e.cn))
        self.send(msg, f"same-key-{e.st}", False, {"P27"})
        self.settle("same-key", {"P27"})

    def act_compromised_key(self):
        """A key revoked for compromise is never certified again, whatever the subject."""
        e = self.pick(R, reason="keyCompromise")
        if e is None:
            return
        kind = self.rng.choice(["ir", "cr", "p10cr", "kur"])
        if kind == "kur":
            s = self.pick(C, L)
            if s is None:
                return
            m = sign(cmputils.build_key_update_request(e.key, cert=s.cert, common_name=s.cn), s)
        else:
            m = ca.mac_protect(ca.request(kind, e.key, self.newcn()))
        self.send(m, f"compromised-key-{kind}", False, {"P27"})
        self.rec.count("compromised_key_refused")
        self.settle(f"compromised-key-{kind}", {"P27"})

    # -- key update -----------------------------------------------------------------------------
    def act_kur(self):
        old = self.pick(*USABLE)
        retry = self.pick(U)
        if retry is not None and retry.updated_by.pending.fresh() is False:
            old = retry  # its first update was never confirmed
            self.rec.count("update_retried")
        if old is None:
            return
        key = self.newkey()
        implicit = self.rng.random() < 0.4
        msg = sign(cmputils.build_key_update_request(
            key, cert=old.cert, common_name=old.cn, implicit_confirm=implicit,
            use_controls=self.rng.random() < 0.5), old)
        resp = self.send(msg, "kur", True, {"P05"})
        self._issued(resp, msg, key, old.cn, implicit, "sig", "kur", signer=old, old=old)

    def act_kur_hostile(self):
        kind = self.rng.choice(["unusable", "unusable", "outsider", "twin", "mac", "other-signer", "bad-pop"])
        e = self.pick(N, U, V, R) if kind == "unusable" else self.pick(*USABLE)
        if e is None or e.st == U and e.updated_by.pending.fresh() is not True:
            return
        key = self.newkey()
        kw = {"use_controls": self.rng.random() < 0.5}
        if kind == "bad-pop":
            kw["bad_pop"] = True
        m = cmputils.build_key_update_request(key, cert=e.cert, common_name=e.cn, **kw)
        if kind in ("unusable", "bad-pop"):
            m = sign(m, e)
        elif kind == "outsider":
            m = sign(m, self.outsider(like=e))
        elif kind == "twin":
            m = sign(m, self.twin(e))
        elif kind == "other-signer":
            # signed by somebody else's key, but shown with the victim's certificate
            m = sign(m, Cred(self.newkey_ec(), e.cert, e.chain))
        else:
            m = cmputils.build_key_update_request(key, cert=e.cert, common_name=e.cn, exclude_fields=None,
                                                  sender=e.cn, for_mac=True)
            m = ca.mac_protect(m)
        what = f"kur-{kind}" + (f"-{e.st}" if kind == "unusable" else "")
        self.send(m, what, False, {"P05", "P02"})
        self.rec.count("hostile_kur_refused")
        self.settle(what, {"P02"})

    def newkey_ec(self):
        return generate_key("ec", curve="secp256r1")

    def act_timeout(self):
        """The confirmation of an update is late: the update may be tried again, a late one is refused."""
        e = self.pick(U)
        if e is None or not advance(self.timeout() + 3):
            return
        self.history.append("time passes")
        self.rec.count("timeouts")
        late = getattr(e, "updated_by", None)
        if late is not None and late.pending and self.rng.random() < 0.6:
            m = self._conf(late)
            self.send(m, "certConf-late-kur", False, {"P06", "P05"})
            self.settle("certConf-late-kur", {"P06"})

    def timeout(self):
        return 10

    # -- confirmation ---------------------------------------------------------------------------
    def _conf_msg(self, e, p, drop="", **over):
        """An unprotected certConf for e in its transaction, with some fields changed."""
        kw = dict(cert=e.cert, cert_req_id=self._req_id(p.resp), transaction_id=p.resp.tx, recip_nonce=p.resp.nonce,
                  sender_nonce=zoo.rnd_bytes(self.rng, 16), recipient="CN=CA", pvno=3, sender=p.cn)
        if self.no_hash:
            kw["hash_alg"] = "sha512"
        kw["exclude_fields"] = ",".join(([drop] if drop else []) + (["sender", "senderKID"] if p.mech == "sig" else []))
        kw["for_mac"] = p.mech != "sig"
        kw.update(over)
        kw["exclude_fields"] = kw["exclude_fields"] or None
        return cmputils.build_cert_conf(**kw)

    def _conf(self, e, **over):
        p = e.pending
        if not over and self.rng.random() < 0.4:
            kw = dict(exclude_fields="sender,senderKID") if p.mech == "sig" else dict(sender=p.cn, for_mac=True)
            m = cmputils.build_cert_conf_from_resp(p.resp.msg, recipient="CN=CA", pvno=3,
                                                   sender_nonce=zoo.rnd_bytes(self.rng, 16),
                                                   hash_alg="sha256" if self.no_hash else None, **kw)
            return self._prot_conf(m, p)
        return self._prot_conf(self._conf_msg(e, e.pending, **over), e.pending)

    def _prot_conf(self, m, p, cred=None, mech=None, password=ca.PASSWORD, alg=None):
        if (mech or p.mech) == "sig":
            return sign(m, cred or p.signer)
        return protectionutils.protect_pkimessage(m, alg or p.alg or "password_based_mac", password=password)

    def act_confirm(self):
        e = self.pick(N)
        if e is None or e.pending is None or e.pending.done:
            return
        p = e.pending
        good = p.fresh()
        if good is None:
            return
        if p.signer is not None and p.old is None and p.signer.st == U:
            return  # may still confirm its other transactions for a while
        if p.signer is not None and p.old is None and p.signer.st not in USABLE:
            good = False  # the signer was revoked or superseded meanwhile
        if p.old is not None and p.old.st != U:
            good = False
        m = self._conf(e)
        resp = self.send(m, "certConf" if good else "certConf-too-late", good, {"P06"})
        if good and resp.ok:
            e.st = C
            p.done = True
            self.closed.append((e, p, der(m)))
            if p.old is not None:
                p.old.st = V
            self.rec.count("confirmed")
        self.settle("certConf", {"P06"})
        return good

    def act_conf_reject(self):
        """The client rejects the certificate: it stays unusable."""
        e = self.pick(N)
        if e is None or e.pending is None or e.pending.done or not e.pending.fresh() or self.rng.random() < 0.5:
            return
        p = e.pending
        if p.signer is not None and p.old is None and p.signer.st not in USABLE:
            return
        if p.old is not None and p.old.st != U:
            return
        m = self._conf_msg(e, p, status="rejection")
        resp = self.send(self._prot_conf(m, p), "certConf-reject", None, {"P06"})
        p.done = True
        self.rec.count("client_rejections")
        self.settle("certConf-reject", {"P06"})
        if self.rng.random() < 0.7:
            # what was turned down cannot be taken back by a later acceptance
            self.send(self._conf(e), "certConf-after-reject", False, {"P06"})
            self.rec.count("acceptances_after_rejection")
            self.settle("certConf-after-reject", {"P06"})

    def _req_id(self, resp):
        try:
            return max(0, int(resp.msg["body"][resp.body]["response"][0]["certReqId"]))
        except Exception:  # noqa
            return 0

    BAD_CONF = ["hash", "hash-empty", "hash-other", "txid", "txid-other", "recipNonce", "recipNonce-missing",
                "recipNonce-request", "senderNonce-reused", "senderNonce-short", "senderNonce-missing", "unprotected",
                "wrong-password", "other-mac-alg", "mech-switch", "other-signer", "two-entries", "no-entry", "req-id",
                "tampered"]

    def act_conf_hostile(self, kind=None):
        e = self.pick(N)
        if e is None or e.pending is None or e.pending.done:
            return
        p = e.pending
        kind = kind or ("other-signer" if p.mech == "sig" and self.rng.random() < 0.15 else self.rng.choice(self.BAD_CONF))
        args, drop = {}, ""
        prot = {}
        other = self.pick(N, C, L)
        req = ca.parse(p.req)
        if kind == "hash":
            args = dict(cert_hash=zoo.rnd_bytes(self.rng, 32))
        elif kind == "hash-empty":
            args = dict(cert_hash=b"")
        elif kind == "hash-other":
            if other is None or other is e:
                return
            args["cert"] = other.cert
        elif kind == "txid":
            args["transaction_id"] = zoo.rnd_bytes(self.rng, 16)
        elif kind == "txid-other":
            o = self.pick(N)
            if o is None or o is e or o.pending is None or o.pending.done:
                return
            args["transaction_id"] = o.pending.resp.tx
        elif kind == "recipNonce":
            args["recip_nonce"] = self.rng.choice([zoo.rnd_bytes(self.rng, 16), p.resp.nonce[:-1],
                                                   p.resp.nonce + b"\0", b""])
        elif kind == "recipNonce-missing":
            drop = "recipNonce"
        elif kind == "recipNonce-request":
            args["recip_nonce"] = req["header"]["senderNonce"].asOctets()
        elif kind == "senderNonce-reused":
            args["sender_nonce"] = req["header"]["senderNonce"].asOctets()
        elif kind == "senderNonce-short":
            args["sender_nonce"] = zoo.rnd_bytes(self.rng, self.rng.choice([1, 8, 15]))
        elif kind == "senderNonce-missing":
            drop = "senderNonce"
        elif kind == "wrong-password":
            if p.mech == "sig":
                return
            prot["password"] = self.rng.choice(["siemensit", "SiemensI", "SiemensIT2", "x"])
        elif kind == "other-mac-alg":
            if p.mech == "sig":
                return
            prot["alg"] = self.rng.choice(["pbmac1", "hmac"])
        elif kind == "mech-switch":
            if p.mech == "sig":
                prot["mech"] = "mac"
            else:
                s = self.pick(C, L)
                if s is None:
                    return
                prot.update(mech="sig", cred=s)
        elif kind == "other-signer":
            s = self.pick(C, L)
            if p.mech != "sig" or s is None or s is p.signer:
                return
            subject = lambda x: ca.der(x.cert["tbsCertificate"]["subject"])  # noqa: E731
            same = [x for x in self.ents if x.key is not None and x is not p.signer and x.st in (N, C, L) and subject(x) == subject(p.signer)]
            if same and self.rng.random() < 0.7:
                prot["cred"] = self.rng.choice(same)
                self.rec.count("bad_conf_namesake")
            else:
                prot["cred"] = self.rng.choice([s, e, Cred(self.newkey_ec(), p.signer.cert, p.signer.chain)])
        elif kind == "req-id":
            args["cert_req_id"] = self.rng.choice([1, 5, -1])
        m = self._conf_msg(e, p, drop, **args)
        if kind in ("two-entries", "no-entry"):
            content = m["body"]["certConf"]
            if kind == "two-entries":
                content.append(content[0])
            else:
                m = self._empty_conf(m)
                if m is None:
                    return
        if p.mech == "sig" and (kind == "unprotected" or prot.get("mech") == "mac"):
            m = cmputils.patch_sender(m, sender_name=p.cn)
        if kind != "unprotected":
            m = self._prot_conf(m, p, **prot)
            if kind == "tampered":
                m["header"]["senderNonce"] = m["header"]["senderNonce"].clone(zoo.rnd_bytes(self.rng, 16))
        resp = self.send(m, f"certConf-bad-{kind}/{p.mech}", False, {"P06"})
        self.rec.count(f"bad_conf_{kind}")
        self.rec.count("bad_confirmations_refused", 0 if resp.ok else 1)
        self.settle(f"certConf-bad-{kind}", {"P06"})

    def _empty_conf(self, m):
        try:
            m["body"]["certConf"].clear()
            return m
        except Exception:  # noqa
            return None

    def act_conf_replay(self):
        """A confirmation sent again, or a second one for a finished transaction."""
        if not self.closed:
            return
        e, p, raw = self.rng.choice(self.closed)
        m = raw if self.rng.random() < 0.5 else self._conf(e)
        self.send(m, "certConf-again", False, {"P06"})
        self.rec.count("replayed_confirmations_refused")
        self.settle("certConf-again", {"P06"})

    def act_request_replay(self):
        """A granted request sent again is refused: its transaction is known."""
        if not self.sent:
            return
        raw, what = self.rng.choice(self.sent)
        self.send(raw, f"replay-{what}", False, {"P04", "P02"})
        self.rec.count("replayed_requests_refused")
        self.settle(f"replay-{what}", {"P02"})

    # -- revocation -----------------------------------------------------------------------------
    def _rr(self, e, reason, signer, **kw):
        kw.setdefault("exclude_fields", "sender,senderKID")
        m = cmputils.build_cmp_revoke_request(cert=e.cert, reason=reason, **kw)
        return sign(m, signer)

    def act_revoke(self):
        e = self.pick(*USABLE)
        if e is None:
            return
        by_ra = self.rng.random() < 0.35
        reason = self.rng.choice(REASONS)
        what = f"rr-{'ra' if by_ra else 'owner'}"
        resp = self.send(self._rr(e, reason, self.get_ra() if by_ra else e), what, True, {"P08"})
        if resp.ok:
            e.st, e.reason = R, reason
            self.rec.count("revoked")
        self.settle(what, {"P08"})

    def act_revive(self):
        e = self.pick(R)
        if e is None:
            return
        by_ra = self.rng.random() < 0.5
        what = f"revive-{'ra' if by_ra else 'owner'}"
        resp = self.send(self._rr(e, "removeFromCRL", self.get_ra() if by_ra else e), what, True, {"P08"})
        if resp.ok:
            e.st, e.reason = L, None
            self.rec.count("revived")
        self.settle(what, {"P08"})

    def act_state_table(self):
        """Every state against every revocation or revival by its owner or the RA, in random order."""
        table = [(st, by_ra, revive) for st in (N, C, U, V, R, L) for by_ra in (True, False) for revive in (True, False)]
        self.rng.shuffle(table)
        for st, by_ra, revive in table:
            e = self.pick(st)
            if e is None:
                continue
            reason = "removeFromCRL" if revive else self.rng.choice(REASONS)
            good = st == R if revive else st in USABLE
            what = f"{'revive' if revive else 'rr'}-{st}-by-{'ra' if by_ra else 'owner'}"
            resp = self.send(self._rr(e, reason, self.get_ra() if by_ra else e), what, good, {"P05", "P08"})
            if resp.ok and good:
                e.st, e.reason = (L, None) if revive else (R, reason)
            self.rec.count(f"table {what}")
            self.rec.count("state_table")
            self.settle(what, {"P08"})

    BAD_RR = ["outsider", "other-owner", "other-key", "mac", "unprotected", "serial", "issuer", "no-serial",
              "no-issuer", "no-reason", "revoked-again", "superseded", "unconfirmed", "revive-valid", "revive-other",
              "two-entries", "tampered", "revoke-by-revoked", "twin", "ra-unknown", "ra-twin"]

    def act_rr_hostile(self, kind=None):
        kind = kind or self.rng.choice(self.BAD_RR)
        e = self.pick(*USABLE)
        reason = self.rng.choice(REASONS)
        o = self.pick(*USABLE)
        if kind in ("revoked-again", "revoke-by-revoked", "revive-other"):
            e = self.pick(R)
        elif kind == "superseded":
            e = self.pick(U, V)
        elif kind == "unconfirmed":
            e = self.pick(N)
        if e is None:
            return
        if kind == "outsider":
            m = self._rr(e, reason, self.outsider(like=e))
        elif kind == "twin":
            m = self._rr(e, reason, self.twin(e))
        elif kind == "other-owner":
            if o is None or o is e:
                return
            m = self._rr(e, reason, o)
        elif kind == "other-key":
            m = self._rr(e, reason, Cred(self.newkey_ec(), e.cert, e.chain))
        elif kind == "mac":
            m = ca.mac_protect(cmputils.build_cmp_revoke_request(cert=e.cert, reason=reason, exclude_fields=None,
                                                                 sender=e.cn, for_mac=True))
        elif kind == "unprotected":
            m = cmputils.build_cmp_revoke_request(cert=e.cert, reason=reason, exclude_fields="senderKID")
            m = cmputils.patch_extra_certs(m, [e.cert, self.env.ca_cert])
        elif kind == "serial":
            m = cmputils.build_cmp_revoke_request(cert=e.cert, reason=reason, exclude_fields="sender,senderKID",
                                                  serial_number=serial(e.cert) + self.rng.choice([1, -1, 2**64]))
            m = sign(m, e if self.rng.random() < 0.5 else self.get_ra())
        elif kind == "issuer":
            from resources.certbuildutils import prepare_cert_template
            t = prepare_cert_template(serial_number=serial(e.cert), issuer="CN=Somebody Else",
                                      exclude_fields="extensions,validity,publicKey,subject,version")
            m = sign(cmputils.build_cmp_revoke_request(cert_template=t, reason=reason,
                                                       exclude_fields="sender,senderKID"),
                     e if self.rng.random() < 0.5 else self.get_ra())
        elif kind in ("no-serial", "no-issuer"):
            drop = "serialNumber" if kind == "no-serial" else "issuer"
            m = sign(cmputils.build_cmp_revoke_request(
                cert=e.cert, reason=reason, exclude_fields="sender,senderKID",
                exclude_cert_temp_vals=f"extensions,validity,publicKey,subject,{drop}"), e)
        elif kind == "no-reason":
            m = sign(cmputils.build_cmp_revoke_request(cert=e.cert, exclude_crl_entry=True,
                                                       exclude_fields="sender,senderKID"), e)
        elif kind == "revoked-again":
            m = self._rr(e, reason, self.get_ra())
        elif kind == "revoke-by-revoked":
            if o is None:
                return
            m = self._rr(o, reason, e)
        elif kind == "superseded":
            # any: the model says superseded certificates change no more
            m = self._rr(e, reason, self.rng.choice([e, self.get_ra()]) if e.st == V else e)
            if e.st == V and m is not None:
                pass
        elif kind == "unconfirmed":
            m = self._rr(e, reason, self.rng.choice([e, self.get_ra()]))
        elif kind == "revive-valid":
            m = self._rr(e, "removeFromCRL", self.rng.choice([e, self.get_ra()]))
        elif kind == "revive-other":
            if o is None:
                return
            r2 = self.pick(R)
            m = self._rr(e, "removeFromCRL", o if r2 is e else self.rng.choice([o, r2]))
        elif kind == "two-entries":
            if o is None or o is e:
                return
            m = cmputils.build_cmp_revoke_request(cert=e.cert, reason=reason, exclude_fields="sender,senderKID")
            m2 = cmputils.build_cmp_revoke_request(cert=o.cert, reason=reason, exclude_fields="sender,senderKID")
            m["body"]["rr"].append(m2["body"]["rr"][0])
            m = sign(m, self.rng.choice([e, self.get_ra()]))
        elif kind == "tampered":
            m = self._rr(e, reason, self.rng.choice([e, self.get_ra()]))
            m["header"]["senderNonce"] = m["header"]["senderNonce"].clone(zoo.rnd_bytes(self.rng, 16))
        elif kind == "ra-unknown":
            key = generate_key("ec", curve="secp256r1")
            cert, _ = build_certificate(private_key=key, common_name="CN=RA", include_ski=True, is_ca=True)
            m = self._rr(e, reason, Cred(key, cert, [cert]))
        elif kind == "ra-twin":
            ra = self.get_ra()
            m = self._rr(e, reason, Cred(self.newkey_ec(), ra.cert, ra.chain))
        else:
            return
        resp = self.send(m, f"rr-bad-{kind}", False, {"P08"})
        self.rec.count(f"bad_rr_{kind}")
        self.rec.count("bad_revocations_refused", 0 if resp.ok else 1)
        self.settle(f"rr-bad-{kind}", {"P08"})

    # -- published status -----------------------------------------------------------------------
    def revoked_now(self):
        return {serial(e.cert) for e in self.ents if e.st in (R, V, U)}

    def check_crl(self):
        ok, raw = self.rec.must("no-crl", self.env.h.get_current_crl)
        if not ok:
            return
        crl = x509.load_der_x509_crl(raw)
        got = {r.serial_number for r in crl}
        n = len(list(crl))
        self.rec.ev("crl", len(got), tuple(sorted(e.st for e in self.ents)), counter="crl_checks")
        want = self.revoked_now()
        if got != want or n != len(got):
            self.flag({"P07"}, "crl-entries", f"CRL lists {len(got)} of {len(want)} certificates; "
                      f"missing {len(want - got)}, extra {len(got - want)}", crl=raw)
        else:
            self.rec.count("crl_entries_agreed", len(got))
        num = crl.extensions.get_extension_for_class(x509.CRLNumber).value.crl_number
        if self.crl_numbers and num <= self.crl_numbers[-1]:
            self.flag({"P07"}, "crl-number", f"CRL number {num} after {self.crl_numbers[-1]}", crl=raw)
        self.crl_numbers.append(num)
        ca_x = x509_of(self.env.ca_cert)
        if crl.issuer != ca_x.subject or not crl.is_signature_valid(ca_x.public_key()):
            self.flag({"P07"}, "crl-signature", "the CRL does not verify under the CA's key", crl=raw)

    def check_ocsp(self, e=None, unknown=False):
        ca_x = x509_of(self.env.ca_cert)
        hash_alg = self.rng.choice([hashes.SHA1(), hashes.SHA256()])
        e = e or self.pick()
        if e is None:
            return
        b = ocsp.OCSPRequestBuilder()
        if unknown:
            key = generate_key("ec", curve="secp256r1")
            c, _ = build_certificate(private_key=key, common_name="CN=Never issued", ca_key=self.env.h.ca_key,
                                     ca_cert=self.env.ca_cert)
            b = b.add_certificate(x509_of(c), ca_x, hash_alg)
        else:
            b = b.add_certificate(x509_of(e.cert), ca_x, hash_alg)
        nonce = zoo.rnd_bytes(self.rng, 16) if self.rng.random() < 0.6 else None
        if nonce:
            b = b.add_extension(x509.OCSPNonce(nonce), critical=False)
        req = b.build().public_bytes(serialization.Encoding.DER)
        ok, raw = self.rec.must("ocsp-exception", self.env.h.process_ocsp_request, req)
        if not ok:
            return
        resp = ocsp.load_der_ocsp_response(raw)
        st = "unknown" if unknown else e.st
        got = resp.response_status.name if resp.response_status != ocsp.OCSPResponseStatus.SUCCESSFUL else \
            resp.certificate_status.name
        self.rec.ev("ocsp", st, got, hash_alg.name, bool(nonce), counter="ocsp_checks")
        self.rec.count(f"ocsp {st}={got}")
        want = {C: {"GOOD"}, L: {"GOOD"}, R: {"REVOKED"}, V: {"REVOKED"}, U: {"REVOKED"},
                N: {"UNAUTHORIZED", "UNKNOWN", "GOOD"}, "unknown": {"UNAUTHORIZED", "UNKNOWN"}}[st]
        if got not in want:
            self.flag({"P07"}, f"ocsp:{st}:{got}", f"OCSP says {got} for a certificate that is {st}", response=raw)
        if got in ("GOOD", "REVOKED"):
            if resp.serial_number != serial(e.cert):
                self.flag({"P07"}, "ocsp-serial", "OCSP answers for another serial number", response=raw)
            if nonce:
                try:
                    back = resp.extensions.get_extension_for_class(x509.OCSPNonce).value.nonce
                except x509.ExtensionNotFound:
                    back = None
                if back != nonce:
                    self.flag({"P07"}, "ocsp-nonce", f"OCSP nonce {nonce.hex()} answered with {back}", response=raw)
            self._ocsp_signature(resp, ca_x, raw)

    def _ocsp_signature(self, resp, ca_x, raw):
        from cryptography.exceptions import InvalidSignature
        from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa
        k = ca_x.public_key()
        try:
            if isinstance(k, ec.EllipticCurvePublicKey):
                k.verify(resp.signature, resp.tbs_response_bytes, ec.ECDSA(resp.signature_hash_algorithm))
            elif isinstance(k, rsa.RSAPublicKey):
                k.verify(resp.signature, resp.tbs_response_bytes, padding.PKCS1v15(), resp.signature_hash_algorithm)
            else:
                k.verify(resp.signature, resp.tbs_response_bytes)
            self.rec.count("ocsp_signatures")
        except InvalidSignature:
            self.flag({"P07"}, "ocsp-signature", "the OCSP response does not verify under the CA's key", response=raw)

    def act_status(self):
        if "P07" not in self.props:
            return
        self.check_crl()
        for e in self.rng.sample(self.ents, min(4, len(self.ents))):
            if e.cert is not None:
                self.check_ocsp(e)
        if self.rng.random() < 0.5:
            self.check_ocsp(unknown=True)

    # -- noise ----------------------------------------------------------------------------------
    BAD_REQ = ["wrong-password", "unprotected", "tampered", "bad-pop", "no-pop", "outsider"]

    def act_request_hostile(self, kind=None):
        kind = kind or self.rng.choice(self.BAD_REQ)
        body = self.rng.choice(["ir", "cr", "p10cr"])
        key, cn = self.newkey(), self.newcn()
        kw = {}
        if kind == "bad-pop":
            kw["bad_pop"] = True
        if kind == "no-pop":
            if body == "p10cr":
                return
            from resources.cmputils import prepare_cert_req_msg
            kw["cert_req_msg"] = prepare_cert_req_msg(private_key=key, common_name=cn, exclude_popo=True)
        m = ca.request(body, key, cn, mac=kind != "outsider", **kw)
        if kind == "outsider":
            m = sign(m, self.outsider())
        elif kind != "unprotected":
            m = ca.mac_protect(m, password="wrong" if kind == "wrong-password" else ca.PASSWORD)
        if kind == "tampered":
            m["header"]["senderNonce"] = m["header"]["senderNonce"].clone(zoo.rnd_bytes(self.rng, 16))
        self.send(m, f"{body}-bad-{kind}", False, {"P02"})
        self.rec.count("hostile_requests_refused")
        self.settle(f"{body}-bad-{kind}", {"P02"})

    # -- the schedule ---------------------------------------------------------------------------
    DEFAULT = {"enroll": 4, "confirm": 4, "conf_hostile": 3, "conf_reject": 0.7, "conf_replay": 1, "kur": 2,
               "kur_hostile": 2, "cr_signed": 2, "ir_signed_unusable": 1, "genm_unusable": 0.7, "revoke": 2,
               "revive": 1.5, "rr_hostile": 3, "same_key": 0.7, "compromised_key": 0.7, "request_replay": 0.7,
               "request_hostile": 1.5, "status": 1, "timeout": 0.5, "state_table": 0}

    def run(self, steps, budget=None):
        w = {**self.DEFAULT, **self.weights}
        names = [k for k, v in w.items() if v > 0]
        vals = [w[k] for k in names]
        for i in range(3):
            self.act_enroll(implicit=i % 2 == 0)
        for _ in range(steps):
            if budget and self.rec.elapsed() > budget:
                break
            getattr(self, "act_" + self.rng.choices(names, vals)[0])()
            self.rec.count("steps")
        self.act_status()
        # for the record: the reach of this history
        self.rec.count("histories")
        self.rec.sample(history=self.history[:12])
