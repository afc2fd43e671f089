"""Client side of the mock CA: builds requests, exchanges them as DER, records what comes back."""

import functools
import logging

logging.disable(logging.CRITICAL)

from pyasn1.codec.der import decoder, encoder  # noqa: E402
from pyasn1_alt_modules import rfc9480  # noqa: E402

from mock_ca.ca_handler import CAHandler  # noqa: E402
from mock_ca.mock_fun import CertStateEnum  # noqa: E402
from resources import certutils, cmputils, keyutils, protectionutils  # noqa: E402
from resources.certutils import parse_certificate  # noqa: E402
from resources.keyutils import generate_key, load_private_key_from_file  # noqa: E402
from resources.utils import load_and_decode_pem_file  # noqa: E402

PASSWORD = "SiemensIT"

# The certificates of the operating system's trust store are parsed for every signed request. They do not
# change during a run: parse them once.
if hasattr(certutils, "load_os_truststore"):
    certutils.load_os_truststore = functools.lru_cache(maxsize=1)(certutils.load_os_truststore)
ISSUE_BODIES = ("ip", "cp", "kup", "ccp")


def der(obj):
    return encoder.encode(obj)


def parse(data):
    return cmputils.parse_pkimessage(data)


class Resp:
    """A parsed response with the few fields the oracles need."""

    def __init__(self, raw):
        self.raw = raw
        self.msg = parse(raw)
        self.body = self.msg["body"].getName()

    def opt(self, name):
        f = self.msg["header"][name]
        return f.asOctets() if f.isValue else None

    @property
    def tx(self):
        return self.opt("transactionID")

    @property
    def nonce(self):
        return self.opt("senderNonce")

    def statuses(self):
        b = self.msg["body"][self.body]
        if self.body == "error":
            return [str(b["pKIStatusInfo"]["status"])]
        if self.body in ISSUE_BODIES:
            return [str(r["status"]["status"]) for r in b["response"]]
        if self.body == "rp":
            return [str(s["status"]) for s in b["status"]]
        if self.body == "pkiconf":
            return ["accepted"]
        return []

    @property
    def ok(self):
        s = self.statuses()
        return bool(s) and all(x in ("accepted", "grantedWithMods") for x in s)

    def certs(self):
        """Certificates carried in the body (plain ones)."""
        out = []
        if self.body in ISSUE_BODIES:
            for r in self.msg["body"][self.body]["response"]:
                ckp = r["certifiedKeyPair"]
                if ckp.isValue and ckp["certOrEncCert"].isValue and ckp["certOrEncCert"].getName() == "certificate":
                    out.append(recode_cert(ckp["certOrEncCert"]["certificate"]))
        return out

    def text(self):
        try:
            if self.body == "error":
                info = self.msg["body"]["error"]["pKIStatusInfo"]
            elif self.body == "rp":
                info = self.msg["body"]["rp"]["status"][0]
            else:
                info = self.msg["body"][self.body]["response"][0]["status"]
            return " | ".join(str(x) for x in info["statusString"])[:300] if info["statusString"].isValue else ""
        except Exception:  # noqa
            return ""


def recode_cert(cert):
    """A plain CMPCertificate, free of the tags of the place it was found in."""
    raw = encoder.encode(cert)
    if raw[0] != 0x30:  # context tag of CertOrEncCert
        # skip tag and length
        n = 2 if raw[1] < 0x80 else 2 + (raw[1] & 0x7F)
        raw = raw[n:]
    return parse_certificate(raw)


class Cred:
    """An end entity: name, key and (once issued) certificate and its chain."""

    def __init__(self, key, cert=None, chain=()):
        self.key, self.cert, self.chain = key, cert, list(chain)


class Env:
    """One CA under observation."""

    def __init__(self, rec=None, **kw):
        self.rec = rec
        self.h = CAHandler(**kw)
        self.ca_cert = self.h.ca_cert
        self.log = []  # (request der, response der)
        self.monitors = []

    # -- the boundary -----------------------------------------------------------------------------
    def send(self, msg):
        """Exchange one message the way the HTTP endpoint does. Returns Resp."""
        raw = msg if isinstance(msg, bytes) else der(msg)
        out = self.h.process_normal_request(parse(raw))
        resp = Resp(der(out))
        self.log.append((raw, resp.raw))
        for m in self.monitors:
            m(self, raw, resp)
        return resp

    # -- what the CA has on record --------------------------------------------------------------
    def record(self):
        """{sha-less key: DER of certificate -> state name} of every certificate on record."""
        db = self.h.state.certificate_db
        out = {}
        for cert in list(db.issued_certs) + list(db.not_confirmed_certs) + list(db.updated_certs):
            out[der(cert)] = db.get_cert_state(cert).name
        return out

    def state(self, cert):
        return self.h.state.certificate_db.get_cert_state(cert).name

    def n_records(self):
        db = self.h.state.certificate_db
        ids = {der(c) for c in list(db.issued_certs) + list(db.not_confirmed_certs) + list(db.updated_certs)}
        return len(ids)


# -- building requests -----------------------------------------------------------------------------

def mac_protect(msg, alg="password_based_mac", password=PASSWORD):
    return protectionutils.protect_pkimessage(msg, alg, password=password)


def sig_protect(msg, cred, **kw):
    chain = kw.pop("chain", None)
    if chain is None:
        chain = cred.chain
    if chain:
        extra = [cred.cert] + [c for c in chain]
        return protectionutils.protect_pkimessage(
            msg, "signature", private_key=cred.key, cert=cred.cert, extra_certs=None, cert_chain=extra, **kw
        ) if False else _sig_chain(msg, cred, extra, **kw)
    return protectionutils.protect_pkimessage(
        msg, "signature", private_key=cred.key, cert=cred.cert, exclude_certs=True, **kw
    )


def _sig_chain(msg, cred, extra, **kw):
    msg = cmputils.patch_extra_certs(msg, extra)
    return protectionutils.protect_pkimessage(
        msg, "signature", private_key=cred.key, cert=cred.cert, exclude_certs=True, **kw
    )


def request(kind, key, cn="CN=Hans the Tester", mac=True, **kw):
    """An unprotected ir / cr / p10cr."""
    fn = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key,
          "p10cr": cmputils.build_p10cr_from_key}[kind]
    if mac:
        kw.setdefault("sender", cn)
        kw["for_mac"] = True
    else:
        kw.setdefault("exclude_fields", "sender,senderKID")
    return fn(key, common_name=cn, **kw)


def enroll(env, cn, kind="ir", key=None, implicit=True, alg="password_based_mac", **kw):
    """Enrol by password. Returns (Cred or None, Resp)."""
    key = key or generate_key("ec", curve="secp256r1")
    msg = request(kind, key, cn, implicit_confirm=implicit, **kw)
    resp = env.send(mac_protect(msg, alg))
    certs = resp.certs()
    return (Cred(key, certs[0], [env.ca_cert]) if certs else None), resp


def cert_conf(resp, cert=None, **kw):
    """An unprotected certConf for a response."""
    return cmputils.build_cert_conf_from_resp(resp.msg, cert=cert, **kw)


def load_cert(path):
    return parse_certificate(load_and_decode_pem_file(path))


def trusted_ra():
    return Cred(load_private_key_from_file("data/keys/private-key-ecdsa.pem"),
                load_cert("data/trusted_ras/ra_cms_cert_ecdsa.pem"))
