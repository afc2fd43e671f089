"""Multi-step client flows: KEM enrolment and KEM-based MAC, challenges, nested messages."""

from vlib import ca
from vlib.ca import Cred, der
from vlib.world import sign

from resources import cmputils
from resources.extra_issuing_logic import get_enc_cert_from_pkimessage, process_pkimessage_with_popdecc
from resources.general_msg_utils import build_cmp_general_message, validate_genp_kem_ct_info
from resources.keyutils import generate_key
from resources.protectionutils import prepare_kem_ciphertextinfo, protect_pkimessage_kem_based_mac

POP_ENC = dict(use_encr_cert=True, use_key_enc=True)


def ra_cred():
    r = ca.trusted_ra()
    return Cred(r.key, r.cert, [ca.load_cert("data/unittest/root_cert_ed25519.pem")])


def kem_request(key, cn, kind="ir", **kw):
    return ca.request(kind, key, cn, pvno=3, **kw)


def kem_enroll(env, cn, alg="ml-kem-512", key=None, kind="ir", confirm=True, **kw):
    """A KEM certificate, delivered encrypted. (Cred or None, Resp)"""
    key = key or generate_key(alg)
    resp = env.send(ca.mac_protect(kem_request(key, cn, kind, implicit_confirm=False, **kw)))
    if not resp.ok:
        return None, resp
    cert = ca.recode_cert(get_enc_cert_from_pkimessage(resp.msg, ee_private_key=key, exclude_rid_check=True,
                                                       server_cert=env.ca_cert))
    cred = Cred(key, cert, [env.ca_cert])
    cred.cn = cn
    if confirm:
        m = kem_conf(resp, cert, cn)
        r2 = env.send(ca.mac_protect(m))
        if r2.body != "pkiconf":
            return None, r2
    return cred, resp


def kem_conf(resp, cert, cn):
    kid = resp.opt("senderKID")
    return cmputils.build_cert_conf(
        cert=cert, hash_alg="sha512", transaction_id=resp.tx, recip_nonce=resp.nonce, sender=cn, recipient="CN=Mock CA",
        for_mac=True, **({"recip_kid": kid} if kid else {}))


def kem_genm(cred, tx, cn=None, chain=None):
    m = build_cmp_general_message(info_values=prepare_kem_ciphertextinfo(key=cred.key), transaction_id=tx,
                                  sender=cn or cred.cn, recipient="CN=Mock CA")
    return cmputils.patch_extra_certs(m, chain if chain is not None else [cred.cert] + list(cred.chain))


def kem_secret(env, cred, tx, cn=None):
    """Establish a shared secret for the transaction. (secret or None, Resp)"""
    resp = env.send(kem_genm(cred, tx, cn))
    if resp.body != "genp":
        return None, resp
    return validate_genp_kem_ct_info(resp.msg, client_private_key=cred.key), resp


def kem_protect(msg, ss, cred=None):
    if cred is not None:
        msg = cmputils.patch_extra_certs(msg, [cred.cert] + list(cred.chain))
    return protect_pkimessage_kem_based_mac(msg, shared_secret=ss)


def challenge_request(key, cn, cred, kind="ir", key_enc=False, protect=None, **kw):
    """A request that asks for a challenge, signed by cred."""
    popo = cmputils.prepare_popo_challenge_for_non_signing_key(use_encr_cert=False, use_key_enc=key_enc)
    m = ca.request(kind, key, cn, mac=cred is None, popo=popo, pvno=3, **kw)
    return sign(m, cred) if cred is not None else ca.mac_protect(m)


def challenge_answer(resp, key, cred, kari=None):
    m = process_pkimessage_with_popdecc(resp.msg, ee_key=key, **({"kari_cert": kari} if kari is not None else {}))
    return m


def added_protection(inner, ra, **kw):
    """The RA's protection around one request."""
    n = cmputils.build_nested_pkimessage(other_messages=inner, for_added_protection=True, exclude_fields=None, **kw)
    return sign(n, ra)


def batch(inners, ra, rng=None, **kw):
    n = cmputils.build_nested_pkimessage(other_messages=list(inners), exclude_fields=None, **kw)
    return sign(n, ra)
