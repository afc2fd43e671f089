"""Message bodies, keys and certificates the workloads draw from."""

import os

from vlib.ca import der, load_cert, parse  # noqa: F401
from pyasn1.type import univ
from resources import certbuildutils, cmputils, keyutils
from resources.certbuildutils import build_certificate
from resources.keyutils import generate_key, load_private_key_from_file

# fast stored keys (key generation of RSA and of the PQ algorithms is slow in pure Python)
STORED = {
    "rsa": "data/keys/private-key-rsa.pem",
    "ecdsa": "data/keys/private-key-ecdsa.pem",
    "ed25519": "data/keys/private-key-ed25519.pem",
    "ed448": "data/keys/private-key-ed448.pem",
    "ml-dsa-44": "data/keys/private-key-ml-dsa-44-seed.pem",
    "ml-dsa-65": "data/keys/private-key-ml-dsa-65-seed.pem",
    "ml-dsa-87": "data/keys/private-key-ml-dsa-87-seed.pem",
}


def stored(name):
    return load_private_key_from_file(STORED[name], password=None if name == "rsa" else "11111")


def named(name, **kw):
    """A key by its full algorithm name."""
    if name in STORED:
        return stored(name)
    if name.startswith(("composite", "chempat")):
        return generate_key(name, by_name=True)
    return generate_key(name, **kw)


def rnd_bytes(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def rnd_cn(rng, prefix="CN="):
    alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789"
    return prefix + "".join(rng.choice(alpha) for _ in range(rng.randrange(3, 14)))


def is_pq(key):
    from pq_logic.keys.abstract_pq import PQSignaturePrivateKey
    return isinstance(key, PQSignaturePrivateKey)


BODIES = ("ir", "cr", "p10cr", "kur", "rr", "genm", "certConf", "error", "pollReq", "pollRep", "nested")


def body_message(kind, rng, cert, key, **kw):
    """An unprotected message of the given body type with random header fields."""
    hdr = dict(
        sender=kw.pop("sender", "CN=" + rnd_cn(rng, "")),
        recipient="CN=" + rnd_cn(rng, ""),
        transaction_id=rnd_bytes(rng, 16),
        sender_nonce=rnd_bytes(rng, 16),
    )
    if rng.random() < 0.7:
        hdr["recip_nonce"] = rnd_bytes(rng, 16)
    hdr["exclude_fields"] = None
    hdr.update(kw)
    cn = rnd_cn(rng)
    if kind == "ir":
        return cmputils.build_ir_from_key(key, common_name=cn, implicit_confirm=rng.random() < 0.5, **hdr)
    if kind == "cr":
        return cmputils.build_cr_from_key(key, common_name=cn, **hdr)
    if kind == "p10cr":
        # the default hash algorithm of the CSR is not one a post-quantum key can use
        h = {"hash_alg": None} if is_pq(key) else {}
        return cmputils.build_p10cr_from_key(key, common_name=cn, **h, **hdr)
    if kind == "kur":
        return cmputils.build_key_update_request(key, cert=cert, **hdr)
    if kind == "rr":
        return cmputils.build_cmp_revoke_request(cert=cert, reason="keyCompromise", **hdr)
    if kind == "genm":
        from resources import general_msg_utils
        return general_msg_utils.build_cmp_general_message(
            info_values=general_msg_utils.prepare_simple_info_types_and_value("ca_certs"), **hdr)
    if kind == "certConf":
        h = {"hash_alg": "sha256"}
        return cmputils.build_cert_conf(cert=cert, cert_req_id=0, **h, **hdr)
    if kind == "error":
        return cmputils.build_cmp_error_message(failinfo="badRequest", texts="boom", status="rejection", **hdr)
    if kind == "pollReq":
        return cmputils.build_polling_request(cert_req_id=rng.randrange(3), **hdr)
    if kind == "pollRep":
        return cmputils.build_polling_response(check_after=rng.randrange(1, 300), **hdr)
    if kind == "nested":
        inner = [body_message(rng.choice(("ir", "rr", "certConf")), rng, cert, key) for _ in range(2)]
        return cmputils.build_nested_pkimessage(other_messages=inner, **hdr)
    raise ValueError(kind)

