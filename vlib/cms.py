"""EnvelopedData and SignedData read and written without the suite: DER tree, RFC 3394, RFC 5753, RFC 9629, RFC 8018.

Only the KEM operation itself (encapsulate, decapsulate) is the suite's; it has its own properties.
"""

import hashlib
import hmac

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding, x448, x25519
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from vlib import tlv
from vlib.msg import integer, octets
from vlib.tlv import Node
from vlib.x5 import oid, seq, set_, tagged

CBC = {16: "2.16.840.1.101.3.4.1.2", 24: "2.16.840.1.101.3.4.1.22", 32: "2.16.840.1.101.3.4.1.42"}
WRAP = {16: "2.16.840.1.101.3.4.1.5", 24: "2.16.840.1.101.3.4.1.25", 32: "2.16.840.1.101.3.4.1.45"}
DATA, SIGNED = "1.2.840.113549.1.7.1", "1.2.840.113549.1.7.2"
STD_DH = {"sha224": "1.3.132.1.11.0", "sha256": "1.3.132.1.11.1", "sha384": "1.3.132.1.11.2", "sha512": "1.3.132.1.11.3"}
COF_DH = {"sha224": "1.3.132.1.14.0", "sha256": "1.3.132.1.14.1", "sha384": "1.3.132.1.14.2", "sha512": "1.3.132.1.14.3"}
MQV = {"sha224": "1.3.132.1.15.0", "sha256": "1.3.132.1.15.1", "sha384": "1.3.132.1.15.2", "sha512": "1.3.132.1.15.3"}
HKDF = {"sha256": "1.2.840.113549.1.9.16.3.28", "sha384": "1.2.840.113549.1.9.16.3.29", "sha512": "1.2.840.113549.1.9.16.3.30"}
HASHES = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha256": "2.16.840.1.101.3.4.2.1",
          "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}
PRF = {"sha1": "1.2.840.113549.2.7", "sha224": "1.2.840.113549.2.8", "sha256": "1.2.840.113549.2.9",
       "sha384": "1.2.840.113549.2.10", "sha512": "1.2.840.113549.2.11"}
KDF2, KDF3 = "1.3.133.16.840.9.44.1.1", "1.3.133.16.840.9.44.1.2"
PBKDF2 = "1.2.840.113549.1.5.12"
OAEP, RSA = "1.2.840.113549.1.1.7", "1.2.840.113549.1.1.1"
X25519, X448, ESDH = "1.3.101.110", "1.3.101.111", "1.2.840.113549.1.9.16.3.5"
ORI_KEM = "1.2.840.113549.1.9.16.13.3"


class Refused(Exception):
    pass


def name_of(table, node):
    for k, v in table.items():
        if tlv.dump(oid(v)) == tlv.dump(node):
            return k
    raise Refused(f"unknown OID {node.val.hex()}")


def is_oid(node, dotted):
    return tlv.dump(node) == tlv.dump(oid(dotted))


# -- primitives ---------------------------------------------------------------------------------
def aes_ecb(key, block, dec=False):
    c = Cipher(algorithms.AES(key), modes.ECB())
    o = c.decryptor() if dec else c.encryptor()
    return o.update(block) + o.finalize()


def wrap(kek, data):
    """RFC 3394."""
    n = len(data) // 8
    a, r = b"\xa6" * 8, [data[8 * i:8 * i + 8] for i in range(n)]
    for j in range(6):
        for i in range(n):
            b = aes_ecb(kek, a + r[i])
            a = (int.from_bytes(b[:8], "big") ^ (n * j + i + 1)).to_bytes(8, "big")
            r[i] = b[8:]
    return a + b"".join(r)


def unwrap(kek, data):
    n = len(data) // 8 - 1
    if len(data) % 8 or n < 2:
        raise Refused("length of the wrapped key")
    a, r = data[:8], [data[8 * i + 8:8 * i + 16] for i in range(n)]
    for j in range(5, -1, -1):
        for i in range(n - 1, -1, -1):
            b = aes_ecb(kek, (int.from_bytes(a, "big") ^ (n * j + i + 1)).to_bytes(8, "big") + r[i], True)
            a, r[i] = b[:8], b[8:]
    if a != b"\xa6" * 8:
        raise Refused("wrapped key")
    return b"".join(r)


def cbc(key, iv, data):
    data += bytes([16 - len(data) % 16]) * (16 - len(data) % 16)
    o = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
    return o.update(data) + o.finalize()


def uncbc(key, iv, data):
    if len(data) % 16 or not data or len(iv) != 16:
        raise Refused("ciphertext")
    o = Cipher(algorithms.AES(key), modes.CBC(iv)).decryptor()
    out = o.update(data) + o.finalize()
    n = out[-1]
    if not 1 <= n <= 16 or out[-n:] != bytes([n]) * n:
        raise Refused("padding")
    return out[:-n]


def x963(z, length, info, hname, first=False):
    out, i = b"", 1
    while len(out) < length:
        c = i.to_bytes(4, "big")
        out += hashlib.new(hname, (c + z if first else z + c) + info).digest()
        i += 1
    return out[:length]


def hkdf(ikm, length, info, hname):
    prk = hmac.new(b"\0" * hashlib.new(hname).digest_size, ikm, hname).digest()
    out, t, i = b"", b"", 1
    while len(out) < length:
        t = hmac.new(prk, t + info + bytes([i]), hname).digest()
        out += t
        i += 1
    return out[:length]


# -- elliptic curves for MQV ----------------------------------------------------------------------
CURVES = {  # p, a, n
    "secp224r1": (2**224 - 2**96 + 1, -3, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF16A2E0B8F03E13DD29455C5C2A3D),
    "secp256r1": (2**256 - 2**224 + 2**192 + 2**96 - 1, -3,
                  0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551),
    "secp256k1": (2**256 - 2**32 - 977, 0, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141),
    "secp384r1": (2**384 - 2**128 - 2**96 + 2**32 - 1, -3,
                  0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973),
    "secp521r1": (2**521 - 1, -3,
                  int("1" + 65 * "F" + "A51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409", 16)),
}


def padd(c, P, Q):
    p, a, _ = c
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        s = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
    else:
        s = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
    x = (s * s - P[0] - Q[0]) % p
    return x, (s * (P[0] - x) - P[1]) % p


def pmul(c, k, P):
    R = None
    while k:
        if k & 1:
            R = padd(c, R, P)
        P = padd(c, P, P)
        k >>= 1
    return R


def point(pub):
    n = pub.public_numbers()
    return n.x, n.y


def mqv(curve, mine, theirs_static, theirs_eph):
    """mine = [(private, public point)] static, ephemeral; the other side's points.  SEC 1, 3.4."""
    c = CURVES[curve]
    n = c[2]
    half = (n.bit_length() + 1) // 2

    def avf(P):
        return P[0] % 2**half + 2**half
    (ds, _), (de, Qe) = mine
    s = (de + avf(Qe) * ds) % n
    P = pmul(c, s, padd(c, theirs_eph, pmul(c, avf(theirs_eph), theirs_static)))
    return P[0].to_bytes((c[0].bit_length() + 7) // 8, "big")


# -- key encryption keys ----------------------------------------------------------------------------
def ecc_info(wrap_len, ukm):
    kids = [seq(oid(WRAP[wrap_len]))]
    if ukm is not None:
        kids.append(tagged(0, octets(ukm)))
    kids.append(tagged(2, octets((8 * wrap_len).to_bytes(4, "big"))))
    return tlv.dump(seq(*kids))


def dh(priv, pub):
    if isinstance(priv, ec.EllipticCurvePrivateKey):
        return priv.exchange(ec.ECDH(), pub)
    return priv.exchange(pub)


def kari_kek(alg, wrap_len, priv, peer, ukm, eph=None):
    """The key encryption key; for MQV eph is the sender's ephemeral private key (sending side)."""
    if alg[0] == "mqv":
        curve = priv.curve.name
        d = priv.private_numbers().private_value
        Q = point(priv.public_key())
        if eph is not None:
            e = (eph.private_numbers().private_value, point(eph.public_key()))
            z = mqv(curve, [(d, Q), e], point(peer), point(peer))
            inner = ukm
        else:
            u = tlv.parse(ukm)
            spk = u.kids[0].kids[1].val[1:]
            ep = ec.EllipticCurvePublicKey.from_encoded_point(priv.curve, spk)
            inner = u.kids[1].kids[0].val if len(u.kids) > 1 else None
            z = mqv(curve, [(d, Q), (d, Q)], point(peer), point(ep))
        return x963(z, wrap_len, ecc_info(wrap_len, inner), alg[1])
    return x963(dh(priv, peer), wrap_len, ecc_info(wrap_len, ukm), alg[1])


def mqv_ukm(eph, added):
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    # id-ecPublicKey with the parameters of the curve, as in the key's SubjectPublicKeyInfo
    spki = tlv.parse(eph.public_key().public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo))
    kids = [spki]
    if added is not None:
        kids.append(tagged(0, octets(added)))
    return tlv.dump(seq(*kids))


def kari_alg(o, key):
    for kind, table in (("std", STD_DH), ("cof", COF_DH), ("mqv", MQV)):
        for h, d in table.items():
            if is_oid(o, d):
                return kind, h
    if is_oid(o, X25519) and isinstance(key, x25519.X25519PrivateKey) or is_oid(o, X448) and isinstance(key, x448.X448PrivateKey):
        return "x", "sha256"
    raise Refused("key agreement algorithm")


def kem_kek(ss, kdf, wrap_alg, length, ukm):
    kids = [wrap_alg, integer(length)]
    if ukm is not None:
        kids.append(tagged(0, octets(ukm)))
    info = tlv.dump(seq(*kids))
    o = kdf.kids[0]
    for h, d in HKDF.items():
        if is_oid(o, d):
            return hkdf(ss, length, info, h)
    if is_oid(o, KDF2) or is_oid(o, KDF3):
        h = name_of(HASHES, kdf.kids[1].kids[0])
        return x963(ss, length, info, h, first=is_oid(o, KDF3))
    if is_oid(o, PBKDF2):
        return pbkdf2(kdf, ss)
    raise Refused("kdf")


def pbkdf2(alg, password):
    """alg: Node of the AlgorithmIdentifier (any tag)."""
    if not is_oid(alg.kids[0], PBKDF2):
        raise Refused("kdf")
    p = alg.kids[1].kids
    salt, it = p[0].val, int.from_bytes(p[1].val, "big")
    length, h = None, "sha1"
    for k in p[2:]:
        if k.tag == b"\x02":
            length = int.from_bytes(k.val, "big")
        else:
            h = name_of(PRF, k.kids[0])
    return hashlib.pbkdf2_hmac(h, password, salt, it, length or hashlib.new(h).digest_size)


# -- recipients ---------------------------------------------------------------------------------------
def integer_val(n):
    return int.from_bytes(n.val, "big", signed=True)


def content_key(info, key, peer=None, decaps=None):
    """The content encryption key for the holder of key (private key or password bytes)."""
    tag = info.tag[0]
    if tag == 0x30:  # KeyTransRecipientInfo
        alg = info.kids[2]
        ct = info.kids[3].val
        if is_oid(alg.kids[0], RSA):
            return key.decrypt(ct, padding.PKCS1v15())
        if not is_oid(alg.kids[0], OAEP):
            raise Refused("key transport algorithm")
        h, m = "sha1", "sha1"
        for k in alg.kids[1].kids:
            if k.tag == b"\xa0":
                h = name_of(HASHES, k.kids[0].kids[0])
            elif k.tag == b"\xa1":
                p = k.kids[0].kids[1]
                m = name_of(HASHES, p.kids[0] if p.cons else p)
        return key.decrypt(ct, padding.OAEP(padding.MGF1(getattr(hashes, m.upper())()), getattr(hashes, h.upper())(), None))
    if tag == 0xA1:
        kids = list(info.kids)
        ukm = None
        if kids[2].tag == b"\xa1":
            ukm = kids.pop(2).kids[0].val
        alg = kids[2]
        wl = name_of(WRAP, alg.kids[1].kids[0])
        kek = kari_kek(kari_alg(alg.kids[0], key), wl, key, peer, ukm)
        return unwrap(kek, kids[3].kids[0].kids[1].val)
    if tag == 0xA3:
        kids = info.kids
        if kids[1].tag != b"\xa0":
            raise Refused("no key derivation algorithm")
        wl = name_of(WRAP, kids[2].kids[0])
        kek = pbkdf2(kids[1], key)
        if len(kek) != wl:
            raise Refused("length")
        return unwrap(kek, kids[3].val)
    if tag == 0xA4:
        if not is_oid(info.kids[0], ORI_KEM):
            raise Refused("other recipient info")
        k = list(info.kids[1].kids)
        ct = k[3].val
        ukm = k.pop(6).kids[0].val if k[6].tag == b"\xa0" else None
        length = integer_val(k[5])
        w = k[6]
        if name_of(WRAP, w.kids[0]) != length:
            raise Refused("length")
        kek = kem_kek(decaps(ct, length), k[4], w, length, ukm)
        return unwrap(kek, k[7].val)
    raise Refused("recipient info")


def open_envelope(raw, key, peer=None, index=0, decaps=None):
    """(content type, content) of a DER EnvelopedData with any outer tag."""
    env = tlv.parse(raw)
    infos, eci = env.kids[1], env.kids[2]
    cek = content_key(infos.kids[index], key, peer, decaps)
    alg = eci.kids[1]
    if name_of(CBC, alg.kids[0]) != len(cek):
        raise Refused("length of the content key")
    ctype = "data" if is_oid(eci.kids[0], DATA) else "signed" if is_oid(eci.kids[0], SIGNED) else None
    return ctype, uncbc(cek, alg.kids[1].val, eci.kids[2].val)


def envelope(infos, cek, content, rng, version=2, signed=True, outer=b"\x30"):
    from vlib.zoo import rnd_bytes
    iv = rnd_bytes(rng, 16)
    env = seq(integer(version), Node(b"\x31", True, kids=sorted(infos, key=tlv.dump)),
              seq(oid(SIGNED if signed else DATA), seq(oid(CBC[len(cek)]), octets(iv)),
                  Node(b"\x80", False, cbc(cek, iv, content))))
    env.tag = outer
    return env


def rid_of(cert):
    """RecipientIdentifier of a certificate (vlib.x5.Cert): the key identifier where there is one."""
    ski = ski_of(cert)
    if ski is not None:
        return Node(b"\x80", False, ski)
    return seq(tlv.copy(cert.issuer), integer(cert.serial))


def ski_of(cert):
    e = cert.extension("2.5.29.14")
    return None if e is None else tlv.parse(e.kids[-1].val).val


def ktri(pub, cek, rid, pkcs1=False, h="sha256", m="sha256"):
    if pkcs1:
        alg = seq(oid(RSA))
        ct = pub.encrypt(cek, padding.PKCS1v15())
    else:
        alg = seq(oid(OAEP), seq(tagged(0, seq(oid(HASHES[h]))), tagged(1, seq(oid("1.2.840.113549.1.1.8"), m_param(m)))))
        ct = pub.encrypt(cek, padding.OAEP(padding.MGF1(getattr(hashes, m.upper())()), getattr(hashes, h.upper())(), None))
    return seq(integer(2), rid, alg, octets(ct))


def m_param(m):
    return seq(oid(HASHES[m]), Node(b"\x05", False, b""))


def kari(kind, h, wrap_len, sender, recip_pub, cek, rid, ukm, rng, eph=None):
    table = {"std": STD_DH, "cof": COF_DH, "mqv": MQV}
    o = X25519 if kind == "x25519" else X448 if kind == "x448" else table[kind][h]
    alg = ("x", "sha256") if kind in ("x25519", "x448") else (kind, h)
    kek = kari_kek(alg, wrap_len, sender, recip_pub, ukm, eph)
    written = mqv_ukm(eph, ukm) if kind == "mqv" else ukm
    orig = tagged(0, rid if rid.tag == b"\x30" else Node(b"\x80", False, rid.val))
    krid = tagged(0, octets(rid.val)) if rid.tag == b"\x80" else rid
    kids = [integer(3), orig]
    if written is not None:
        kids.append(tagged(1, octets(written)))
    kids += [seq(oid(o), seq(oid(WRAP[wrap_len]))), seq(seq(krid, octets(wrap(kek, cek))))]
    return tagged(1, *kids)


def kemri(kem_oid, ss, ct, cek, rid, wrap_len, kdf, ukm):
    """kdf: Node of the AlgorithmIdentifier."""
    w = seq(oid(WRAP[wrap_len]))
    kek = kem_kek(ss, kdf, w, wrap_len, ukm)
    kids = [integer(0), rid, seq(kem_oid), octets(ct), kdf, integer(wrap_len)]
    if ukm is not None:
        kids.append(tagged(0, octets(ukm)))
    kids += [w, octets(wrap(kek, cek))]
    return tagged(4, oid(ORI_KEM), seq(*kids))


def kdf_alg(name, h):
    if name == "hkdf":
        return seq(oid(HKDF[h]))
    return seq(oid(KDF2 if name == "kdf2" else KDF3), seq(oid(HASHES[h])))


def pwri(password, cek, salt, iterations, h="sha256", kek_len=32, with_len=True):
    kids = [octets(salt), integer(iterations)]
    if with_len:
        kids.append(integer(kek_len))
    if h != "sha1":
        kids.append(seq(oid(PRF[h]), Node(b"\x05", False, b"")))
    kek = hashlib.pbkdf2_hmac(h, password, salt, iterations, kek_len)
    return tagged(3, integer(3), Node(b"\xa0", True, kids=[oid(PBKDF2), seq(*kids)]),
                  seq(oid(WRAP[kek_len])), octets(wrap(kek, cek)))
