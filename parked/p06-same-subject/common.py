"""Helpers of the demonstration: a CA in a scratch directory and a few client messages."""
import os
import sys

sys.path.insert(0, os.getcwd() if os.path.isdir("mock_ca") else os.environ["DEMO_REPO"])

from pyasn1.codec.der import decoder, encoder  # noqa: E402

from pq_logic.keys.abstract_pq import PQPublicKey  # noqa: F401,E402
from resources import certutils, cmputils, keyutils, protectionutils, utils  # noqa: F401,E402
from resources.asn1_structures import PKIMessageTMP  # noqa: E402
from resources.asn1utils import try_decode_pyasn1  # noqa: E402

PASSWORD = b"SiemensIT"
ALWAYS = []


def new_ca(**kw):
    """Create a CA handler with the defaults of the test CA."""
    from mock_ca.ca_handler import CAHandler

    return CAHandler(**kw)


def parse(raw):
    """Decode a PKIMessage from DER."""
    msg, rest = decoder.decode(raw, asn1Spec=PKIMessageTMP())
    assert not rest
    return msg


def send(ca, msg):
    """Send a message through its encoding and return the decoded answer."""
    return parse(encoder.encode(ca.process_normal_request(parse(encoder.encode(msg)))))


def body(msg):
    """Return the name of the body."""
    return msg["body"].getName()


def key(name="ec", **kw):
    """Generate a key."""
    return keyutils.generate_key(name, **kw)


def mac(msg, password=PASSWORD, protection="password_based_mac"):
    """Protect a message with a password."""
    return protectionutils.protect_pkimessage(msg, protection, password=password)


def sign(msg, who):
    """Protect a message with the signature of (key, cert, chain)."""
    k, cert, chain_ = who
    msg = cmputils.patch_sender(msg, cert=cert)
    msg = cmputils.patch_senderkid(msg, cert)
    msg = protectionutils.protect_pkimessage(msg, "signature", private_key=k, cert=cert, exclude_certs=True)
    return cmputils.patch_extra_certs(msg, [cert] + list(chain_))


def request(k, cn, kind="ir", by_mac=True, **kw):
    """Build an unprotected certificate request."""
    build = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "p10cr": cmputils.build_p10cr_from_key}
    if by_mac:
        kw.setdefault("sender", cn)
        kw["for_mac"] = True
    else:
        kw.setdefault("exclude_fields", "sender,senderKID")
    kw.setdefault("implicit_confirm", True)
    return build[kind](k, common_name=cn, **kw)


def kur(k, who, **kw):
    """Build and sign a key update request."""
    kw.setdefault("implicit_confirm", True)
    msg = cmputils.build_key_update_request(k, cert=who[1], **kw)
    return sign(msg, who)


def rr(cert, who, reason="keyCompromise", **kw):
    """Build and sign a revocation request."""
    return sign(cmputils.build_cmp_revoke_request(cert=cert, reason=reason, exclude_fields="sender,senderKID", **kw), who)


def conf(answer, cert, by_mac=True, **kw):
    """Build an unprotected certificate confirmation."""
    if by_mac:
        kw.setdefault("sender", "CN=Client")
        kw["for_mac"] = True
    return cmputils.build_cert_conf_from_resp(answer, cert=cert, **kw)


def ra():
    """Return the trusted RA."""
    from resources.utils import load_and_decode_pem_file

    return (
        keyutils.load_private_key_from_file("data/keys/private-key-ecdsa.pem"),
        certutils.parse_certificate(load_and_decode_pem_file("data/trusted_ras/ra_cms_cert_ecdsa.pem")),
        [certutils.parse_certificate(load_and_decode_pem_file("data/unittest/root_cert_ed25519.pem"))],
    )


def cert_of(answer, index=0):
    """Return an issued certificate (through its encoding)."""
    cert = cmputils.get_cert_from_pkimessage(answer, cert_number=index)
    return certutils.parse_certificate(encoder.encode(cert))


def enroll(ca, cn, k=None, implicit=True, **kw):
    """Enroll a certificate by password; return ((key, cert, chain), request, answer)."""
    k = k or key()
    req = mac(request(k, cn, implicit_confirm=implicit, **kw))
    ans = send(ca, req)
    expect(body(ans) == "ip", "enrolment refused")
    return (k, cert_of(ans), [ca.ca_cert]), req, ans


def granted(answer):
    """Tell whether a certificate response or rp grants what was asked."""
    return body(answer) != "error" and status(answer) in ("accepted", "grantedWithMods")


def status(answer):
    """Return the status of the first entry."""
    return str(cmputils.get_pkistatusinfo(answer)["status"])


def state(ca, cert):
    """Return the state of a certificate in the database of the CA."""
    return ca.state.certificate_db.get_cert_state(cert)


def expect(cond, text):
    """Fail the demonstration with a message."""
    if not cond:
        print("DEMO FAILED:", text)
        sys.exit(1)


def done():
    """End the demonstration."""
    print("demo ok")
    sys.exit(0)
