"""P17: keys survive every serialisation; inconsistent encodings are refused."""

import os
import re

from vlib import tlv
from vlib.core import Job
from vlib.tlv import Node

RULE = ("case = (algorithm, encoding, way of loading) for keys written by the suite, which must load as the same key, and "
        "(algorithm, encoding, change) for changed encodings, which must be refused with an error the suite defines "
        "(never KeyError, IndexError, AttributeError and the like)")
REQUIRED = {"roundtrip": 250, "public": 150, "refused": 600, "mismatch": 120, "encrypted": 60, "wrong_password": 60, "export_type": 60,
            "derived": 30}
ASSUMPTIONS = ["keys that need liboqs (falcon, McEliece, sntrup761, XMSS, XMSS^MT) are not generated",
               "composite keys have one private form (PQ seed and traditional key), as in the drafts",
               "the encrypted PEM form has no integrity protection: only wrong passwords are tried, not altered ciphertext",
               "a raw SLH-DSA private key whose stored root does not belong to the seeds is not checked"]
NOTE = "encodings rebuilt with an independent DER tree; key material compared byte by byte"

UNDEFINED = (KeyError, IndexError, AttributeError, AssertionError, UnboundLocalError, NameError, ZeroDivisionError, RecursionError,
             MemoryError, UnicodeError)
CURVES = ["secp192r1", "secp224r1", "secp256r1", "secp384r1", "secp521r1", "secp256k1", "brainpoolP256r1", "brainpoolP384r1", "brainpoolP512r1"]
HSS = ["hss_lms_sha256_m32_h5_lmots_sha256_n32_w8", "hss_lms_sha256_m24_h5_lmots_sha256_n24_w4"]


SLH_LEN = {f"slh-dsa-{h}-{n}{x}": (3 * n // 8, 4 * n // 8) for h in ("sha2", "shake") for n in (128, 192, 256) for x in "sf"}


def load_der(b):
    from pq_logic.combined_factory import CombinedKeyFactory
    return CombinedKeyFactory.load_private_key_from_one_asym_key(b)


def load_file(b, password=None):
    from resources import keyutils
    with open("k.pem", "wb") as f:
        f.write(b)
    try:
        return keyutils.load_private_key_from_file("k.pem", password)
    finally:
        os.unlink("k.pem")


def save(key, **kw):
    from pq_logic.combined_factory import CombinedKeyFactory
    kw.setdefault("password", None)
    return CombinedKeyFactory.save_private_key_one_asym_key(key, **kw)


def save_file(key, **kw):
    from resources import keyutils
    keyutils.save_key(key, "s.pem", **kw)
    with open("s.pem", "rb") as f:
        b = f.read()
    os.unlink("s.pem")
    return b


def material(key):
    """The private part as comparable data."""
    from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat
    from pq_logic.keys.abstract_stateful_hash_sig import PQHashStatefulSigPrivateKey
    from pq_logic.keys.abstract_wrapper_keys import HybridPrivateKey, PQPrivateKey, TradKEMPrivateKey
    if isinstance(key, HybridPrivateKey):
        return type(key).__name__, material(key.pq_key), material(key.trad_key)
    if isinstance(key, PQHashStatefulSigPrivateKey):
        return key.name, key._export_private_key()
    if isinstance(key, PQPrivateKey):
        return key.name, key.private_bytes_raw()
    if isinstance(key, TradKEMPrivateKey):
        return material(key._private_key)
    return "trad", key.private_bytes(Encoding.DER, PrivateFormat.PKCS8, NoEncryption())


def spki(key):
    """The public key as DER."""
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    from pq_logic.keys.composite_sig import CompositeSigPublicKey
    from pyasn1.codec.der import encoder
    if isinstance(key, CompositeSigPublicKey):
        return encoder.encode(key.to_spki(use_pss=True)) if "rsa" in key.name else key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
    return key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


def seed_of(key):
    from pq_logic.keys.abstract_wrapper_keys import PQPrivateKey
    from pq_logic.keys.xwing import XWingPrivateKey
    if isinstance(key, (PQPrivateKey, XWingPrivateKey)) and hasattr(key, "private_numbers"):
        return key.private_numbers()
    return None


def same(rec, key, k, what, seed=False, **art):
    ok = rec.check(type(k) is type(key) and material(k) == material(key), "private-differs", f"{what}: another private key", **art)
    ok = rec.check(spki(k.public_key()) == spki(key.public_key()), "public-differs", f"{what}: another public key", **art) and ok
    if ok and seed and seed_of(key) is not None:
        s, e = rec.must("seed-lost", lambda: seed_of(k))
        if s:
            rec.check(e == seed_of(key), "seed-differs", f"{what}: another seed", **art)
    rec.check(k.public_key() == key.public_key(), "public-unequal", f"{what}: == of equal public keys", **art)
    return ok


def refused(rec, what, fn, art, key="accepted", counter="refused", admissible=None):
    rec.ev(*what, counter=counter)
    try:
        got = fn()
    except UNDEFINED as e:
        import traceback
        rec.violation("undefined-error", f"{what}: {type(e).__name__}: {str(e)[:200]}", tb="".join(traceback.format_tb(e.__traceback__)[-3:]), **art)
        return
    except Exception as e:  # noqa
        rec.count("error-" + type(e).__name__)
        return
    if admissible is not None and admissible(got):
        rec.count("other_key")
        return
    rec.violation(key, f"{what}: accepted", **art)


def family(alg):
    for f in ("ml-kem", "ml-dsa", "slh-dsa", "frodo", "composite", "chempat", "xwing", "hss", "rsa-kem"):
        if alg.startswith(f):
            return f
    return "dh" if alg in ("dh", "dsa") else "trad"


def forms(alg, key):
    """(label, keeps the seed, writer, reader) of the forms supported for the algorithm."""
    from cryptography.hazmat.primitives.serialization import BestAvailableEncryption, Encoding, NoEncryption, PrivateFormat
    fam = family(alg)
    out = []
    types = ["seed", "raw", "seed_and_raw"] if fam in ("ml-kem", "ml-dsa", "frodo", "chempat", "xwing") else \
        ["seed", "raw"] if fam == "slh-dsa" else ["seed"]
    if fam != "dh":
        for st in types:
            keep = st != "raw" and fam != "chempat"
            vs = ((None, None), (1, None), (1, True)) if fam in ("frodo", "hss") else ((None, None), (0, None), (0, False), (1, None), (1, True), (1, False))
            for v, inc in vs:
                out.append((f"der-{st}-{v}-{inc}", keep, lambda st=st, v=v, inc=inc: save(key, version=v, save_type=st, include_public_key=inc), load_der))
            if fam != "trad":
                out.append((f"pem-{st}", keep, lambda st=st: save(key, save_type=st, encoding=Encoding.PEM), load_file))
                out.append((f"pem-{st}-enc", keep, lambda st=st: save(key, save_type=st, encoding=Encoding.PEM, password="pass word"),
                            lambda b: load_file(b, "pass word")))
            for pw in (None, "11111", "pä\u20acß 1", "x" * 70):
                out.append((f"file-{st}-{'plain' if pw is None else len(pw)}", keep, lambda st=st, pw=pw: save_file(key, save_type=st, password=pw),
                            lambda b, pw=pw: load_file(b, pw)))
    if fam in ("trad", "dh"):
        for pw in (None, "secret"):
            out.append((f"file-{pw}", False, lambda pw=pw: save_file(key, password=pw), lambda b, pw=pw: load_file(b, pw)))
        return out
    if fam in ("ml-kem", "ml-dsa"):
        out.append(("file-old", True, lambda: save_file(key, save_old=True, password=None), lambda b: load_file(b, None)))
        out.append(("file-old-enc", True, lambda: save_file(key, save_old=True, password="secret"), lambda b: load_file(b, "secret")))
    out.append(("bytes-der", False, lambda: key.private_bytes(Encoding.DER, PrivateFormat.PKCS8, NoEncryption()), load_der))
    out.append(("bytes-pem", False, lambda: key.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()), load_file))
    out.append(("bytes-pem-enc", False, lambda: key.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, BestAvailableEncryption(b"pw")),
                lambda b: load_file(b, "pw")))
    return out


def crlf(b):
    return b.replace(b"\n", b"\r\n")


def roundtrips(rec, alg, key, limit=None):
    fs = forms(alg, key)
    if limit:
        fs = rec.rng.sample(fs, min(limit, len(fs)))
    for label, keep, wr, rd in fs:
        rec.ev(alg, label, counter="roundtrip")
        ok, b = rec.must("write", wr)
        if not ok:
            rec.violations[-1]["what"] = f"{alg} {label}: " + rec.violations[-1]["what"]
            continue
        ok, k = rec.must("read", lambda: rd(b))
        if not ok:
            rec.violations[-1]["what"] = f"{alg} {label}: " + rec.violations[-1]["what"]
            continue
        same(rec, key, k, f"{alg} {label}", seed=keep, encoded=b)
        enc = b"ENCRYPTED" in b
        if enc:
            rec.count("encrypted")
            rec.check(material(key)[-1] not in b if isinstance(material(key)[-1], bytes) else True, "plain", f"{alg} {label}: the key is in clear")
            wrong = ["", "wrong", "11111 ", None]
            for pw in wrong if rec.tier == "thorough" else rec.rng.sample(wrong, 2):
                refused(rec, (alg, label, "password", pw), lambda: load_file(b, pw), dict(encoded=b), "wrong-password", "wrong_password",
                        admissible=None)
        if label == "file-seed-plain" or label == "file-None":
            rec.must("read-crlf", lambda: same(rec, key, load_file(b"# comment\n" + b, None), f"{alg} comment line"))
            if True:
                refused(rec, (alg, label, "cut"), lambda: load_file(b[:len(b) // 2] + b[-40:], None), dict(encoded=b))


def publics(rec, alg, pub):
    """Public keys through SubjectPublicKeyInfo, PEM and certificate template."""
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    from pyasn1.codec.der import decoder, encoder
    from pyasn1_alt_modules import rfc4211, rfc5280
    from resources import keyutils
    from resources.convertutils import subject_public_key_info_from_pubkey
    der = spki(pub)
    pss = "composite-sig" in alg and "rsa" in alg

    def from_file():
        b = pub.public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo)
        with open("p.pem", "wb") as f:
            f.write(b)
        return keyutils.load_public_key_from_file("p.pem")

    def from_template():
        t = rfc4211.CertTemplate()
        s = decoder.decode(der, rfc5280.SubjectPublicKeyInfo())[0]
        t["publicKey"]["algorithm"] = s["algorithm"]
        t["publicKey"]["subjectPublicKey"] = s["subjectPublicKey"]
        t = decoder.decode(encoder.encode(t), rfc4211.CertTemplate())[0]
        return keyutils.load_public_key_from_cert_template(t)

    ways = [("bytes", lambda: keyutils.load_public_key_from_spki(der)), ("file", from_file),
            ("spki", lambda: keyutils.load_public_key_from_spki(subject_public_key_info_from_pubkey(pub))),
            ("prepared", lambda: keyutils.load_public_key_from_spki(keyutils.prepare_subject_public_key_info(pub))),
            ("template", from_template)]
    for label, rd in ways:
        if pss and label in ("file", "spki", "prepared"):
            continue
        rec.ev(alg, "public", label, counter="public")
        ok, p = rec.must("read-public", rd)
        if not ok:
            rec.violations[-1]["what"] = f"{alg} {label}: " + rec.violations[-1]["what"]
            continue
        rec.check(type(p) is type(pub) and spki(p) == der and p == pub, "public-differs", f"{alg} {label}: another public key", spki=der)


def bitstring(b):
    return Node(b"\x03", False, b"\0" + b)


NULL = Node(b"\x05", False, b"")


def public_changes(rec, alg, pub, others):
    from resources import keyutils
    from vlib.x5 import oid
    der = spki(pub)
    fam = family(alg)
    t = tlv.parse(der)
    body = t.kids[1].val[1:]

    def built(body=None, algid=None, unused=0):
        c = tlv.copy(t)
        if body is not None:
            c.kids[1].val = bytes([unused]) + body
        if algid is not None:
            c.kids[0] = algid
        return tlv.dump(c)

    cases = [("der-trailing", der + b"\0"), ("der-cut", der[:-1]), ("der-twice", der + der), ("empty", b""), ("body-empty", built(b""))]
    if fam != "dh":
        cases += [("trailing", built(body + b"\0")), ("trailing16", built(body + rec.rng.randbytes(16))), ("cut", built(body[:-1])),
                  ("cut-front", built(body[1:])), ("half", built(body[:len(body) // 2]))]
    if fam not in ("trad", "dh"):
        p = tlv.copy(t.kids[0])
        p.kids = p.kids[:1] + [NULL]
        if fam not in ("composite", "chempat", "xwing", "rsa-kem"):
            cases.append(("parameters", built(algid=p)))
    for what, b in cases:
        refused(rec, (alg, "public", what), lambda: keyutils.load_public_key_from_spki(b), dict(encoded=b))
    # another algorithm identifier over the same bits
    for o_alg, o_pub in others:
        o = tlv.parse(spki(o_pub))
        b = built(algid=o.kids[0])
        if b == der:
            continue

        def ok(got, want=b):
            return spki(got) == want
        refused(rec, (alg, "public", "as", o_alg), lambda: keyutils.load_public_key_from_spki(b), dict(encoded=b), "wrong-algorithm", admissible=ok)
    b = built(algid=Node(b"\x30", True, kids=[oid("1.3.6.1.4.1.99999.7")]))
    refused(rec, (alg, "public", "unknown"), lambda: keyutils.load_public_key_from_spki(b), dict(encoded=b))


def private_changes(rec, alg, key, key2, others):
    """Changes of the OneAsymmetricKey."""
    rng = rec.rng
    fam = family(alg)
    der2 = save(key2, version=1, include_public_key=True)
    pub2 = tlv.parse(der2).kids[-1]
    types = ["seed", "raw", "seed_and_raw"] if fam in ("ml-kem", "ml-dsa", "chempat", "xwing", "frodo") else \
        ["seed", "raw"] if fam == "slh-dsa" else ["seed"]
    slow = rec.tier == "quick" and "frodo" in alg
    if slow:
        types = [rng.choice(types)]
    for st in types:
        der = save(key, version=1, save_type=st, include_public_key=True)
        t = tlv.parse(der)
        pk, pub = t.kids[2].val, t.kids[-1].val
        algid = t.kids[1]

        def built(pk=None, pub=None, algid=None, version=None, nopub=False, extra=None):
            c = tlv.copy(t)
            if pk is not None:
                c.kids[2].val = pk
            if pub is not None:
                c.kids[-1].val = pub
            if algid is not None:
                c.kids[1] = algid
            if version is not None:
                c.kids[0].val = version
            if extra is not None:
                c.kids.append(extra)
            if nopub:
                c.kids.pop()
                c.kids[0].val = b"\0"
            return tlv.dump(c)

        cases = [("der-trailing", der + b"\0"), ("der-cut", der[:-1]), ("empty", b""), ("version2", built(version=b"\2")), ("version-1", built(version=b"\xff")),
                 ("v0-with-public", built(version=b"\0")), ("pk-trailing", built(pk + b"\0")), ("pk-trailing-nopub", built(pk + b"\0", nopub=True)),
                 ("pk-cut", built(pk[:-1])), ("pk-cut-nopub", built(pk[:-1], nopub=True)), ("pk-empty", built(b"", nopub=True)),
                 ("pk-front", built(pk[1:], nopub=True)), ("pk-twice", built(pk + pk, nopub=True)), ("pk-trailing32", built(pk + rng.randbytes(32), nopub=True)),
                 ("pub-trailing", built(pub=pub + b"\0")), ("pub-cut", built(pub=pub[:-1])), ("pub-empty", built(pub=b"\0"))]
        if fam in ("ml-kem", "ml-dsa", "slh-dsa"):
            p = tlv.copy(algid)
            p.kids = p.kids[:1] + [NULL]
            cases += [("parameters", built(algid=p)), ("parameters-nopub", built(algid=p, nopub=True))]
        if slow:
            cases = rng.sample(cases, 8)
        if fam == "slh-dsa":
            # another length that the algorithm has is another key
            cases = [c for c in cases if tlv_len(c[1]) not in SLH_LEN[alg]]
        for what, b in cases:
            refused(rec, (alg, st, what), lambda: load_der(b), dict(encoded=b))
        # mismatching parts
        i = rng.randrange(1, len(pub))
        mism = [("other-public", built(pub=pub2.val)),
                ("public-bit", built(pub=pub[:i] + bytes([pub[i] ^ 1 << rng.randrange(8)]) + pub[i + 1:]))]
        for what, b in mism:
            refused(rec, (alg, st, what), lambda: load_der(b), dict(encoded=b), "mismatch", "mismatch")
        if fam in ("ml-kem", "ml-dsa") and st == "seed_and_raw":
            inn, inn2 = tlv.parse(pk), tlv.parse(tlv.parse(save(key2, version=1, save_type=st)).kids[2].val)
            for j, what in ((0, "seed"), (1, "expanded")):
                n = tlv.copy(inn)
                n.kids[j].val = inn2.kids[j].val
                b = built(tlv.dump(n), nopub=True)
                refused(rec, (alg, st, "other-" + what), lambda: load_der(b), dict(encoded=b), "seed-mismatch", "mismatch")
                for r in range(3):
                    n = tlv.copy(inn)
                    v = bytearray(n.kids[j].val)
                    pos = [0, len(v) - 1, rng.randrange(len(v))][r]
                    v[pos] ^= 1 << rng.randrange(8)
                    n.kids[j].val = bytes(v)
                    b = built(tlv.dump(n), nopub=True)
                    refused(rec, (alg, st, what + "-bit", r), lambda: load_der(b), dict(encoded=b, pos=pos), "seed-mismatch", "mismatch")
            # the old form: seed and expanded key concatenated, without the CHOICE
            for r, flat in enumerate([inn2.kids[0].val + inn.kids[1].val, inn.kids[0].val + inn2.kids[1].val]):
                b = built(flat, nopub=True)
                refused(rec, (alg, st, "flat", r), lambda: load_der(b), dict(encoded=b), "seed-mismatch", "mismatch")
            b = built(inn.kids[0].val + inn.kids[1].val, nopub=True)
            ok, k = rec.must("flat", lambda: load_der(b))
            if ok:
                same(rec, key, k, f"{alg} flat", seed=True)
        if fam in ("frodo", "xwing") and st == "seed_and_raw":
            other = tlv.parse(save(key2, version=1, save_type=st)).kids[2].val
            n = len(seed_of(key))
            pos = n + rng.randrange(len(pk) - n)
            for what, v in (("other-seed", other[:n] + pk[n:]), ("other-expanded", pk[:n] + other[n:]),
                            ("expanded-bit", pk[:pos] + bytes([pk[pos] ^ 1]) + pk[pos + 1:])):
                if fam == "xwing" and what == "expanded-bit" and pos >= len(pk) - 32:
                    continue  # X25519 clamps bits of the scalar
                b = built(v, nopub=True)
                refused(rec, (alg, st, what), lambda: load_der(b), dict(encoded=b, pos=pos), "seed-mismatch", "mismatch")
        if fam == "ml-kem" and st == "raw":
            # FIPS 203 7.3: the hash of the encapsulation key inside the decapsulation key
            inn = tlv.parse(pk)
            v = bytearray(inn.val)
            k_ = (len(v) - 96) // 768
            for what, lo, hi in (("ek", 384 * k_, 768 * k_ + 32), ("hash", 768 * k_ + 32, 768 * k_ + 64)):
                w = bytearray(v)
                w[rng.randrange(lo, hi)] ^= 1 << rng.randrange(8)
                b = built(tlv.dump(Node(inn.tag, False, bytes(w))), nopub=True)
                refused(rec, (alg, st, "bad-" + what), lambda: load_der(b), dict(encoded=b), "hash-mismatch", "mismatch")
        # another algorithm over the same bytes
        for o_alg, o_key in others:
            o = tlv.parse(save(o_key, version=1, include_public_key=True)).kids[1]
            if tlv.dump(o) == tlv.dump(algid):
                continue
            b = built(algid=o)

            def ok(got, o=o):
                s = tlv.parse(spki(got.public_key()))
                return tlv.dump(s.kids[0]) == tlv.dump(o) and s.kids[1].val == pub
            refused(rec, (alg, st, "as", o_alg), lambda: load_der(b), dict(encoded=b), "wrong-algorithm", admissible=ok)


def tlv_len(b):
    try:
        return len(tlv.parse(b).kids[2].val)
    except Exception:  # noqa
        return -1


def export_types(rec, alg, key, key2):
    """validate_key_export_type accepts exactly the form the bytes have."""
    from pq_logic.combined_factory import CombinedKeyFactory as F
    fam = family(alg)
    types = ["seed", "raw", "seed_and_raw"] if fam in ("ml-kem", "ml-dsa", "xwing") else ["seed", "raw"]
    data = {st: tlv.parse(save(key, version=0, save_type=st)).kids[2].val for st in types}
    other = {st: tlv.parse(save(key2, version=0, save_type=st)).kids[2].val for st in types}
    for st in types:
        rec.ev(alg, "export", st, counter="export_type")
        rec.must("export-type", lambda: F.validate_key_export_type(key, data[st], st))
        for st2 in types:
            if st2 != st:
                refused(rec, (alg, "export", st, st2), lambda: F.validate_key_export_type(key, data[st], st2) or True, dict(data=data[st]), "export-type", "export_type")
        refused(rec, (alg, "export", st, "other"), lambda: F.validate_key_export_type(key, other[st], st) or True, dict(data=other[st]), "export-type", "export_type")


def derived(rec, alg, key):
    """Key generation from the seed, and a loaded key works."""
    from resources import keyutils
    rng = rec.rng
    fam = family(alg)
    s = seed_of(key)
    if s is not None and fam in ("ml-kem", "ml-dsa", "slh-dsa", "xwing"):
        rec.ev(alg, "seed", counter="derived")
        ok, k = rec.must("from-seed", lambda: keyutils.generate_key(alg, seed=s))
        if ok:
            same(rec, key, k, f"{alg} from seed", seed=True)
    k = load_der(save(key, version=1, save_type=rng.choice(["seed", "raw"]) if fam in ("ml-kem", "ml-dsa", "xwing") else "seed"))
    pub = key.public_key()
    rec.ev(alg, "use", counter="derived")
    if hasattr(k, "decaps"):
        ss, ct = pub.encaps(None) if fam == "trad" else pub.encaps()
        rec.check(k.decaps(ct) == ss, "loaded-unusable", f"{alg}: the loaded key does not open the ciphertext")
    elif fam in ("ml-dsa",) or "composite-sig" in alg:
        m = rng.randbytes(20)
        kw = {"use_pss": True} if "pss" in alg else {}
        sig = k.sign(m, **kw)
        rec.must("loaded-unusable", lambda: pub.verify(data=m, signature=sig, **kw))


def keys_of(alg, n, rng):
    from resources import keyutils
    if alg.startswith("ec-"):
        return [keyutils.generate_key("ecdsa", curve=alg[3:]) for _ in range(n)]
    if alg.startswith("rsa") and alg[3:].isdigit():
        return [keyutils.generate_key("rsa", length=int(alg[3:])) for _ in range(n)]
    if alg == "dh":
        from cryptography.hazmat.primitives.serialization import load_pem_parameters  # noqa: F401
        from vlib.p17data import FFDHE2048
        return [keyutils.generate_key("dh", p=FFDHE2048) for _ in range(n)]
    if alg.startswith(("composite", "chempat")):
        return [keyutils.generate_key(alg, by_name=True) for _ in range(n)]
    if alg.startswith("hss"):
        return [keyutils.generate_key(alg, levels=1 + i % 2) for i in range(n)]
    return [keyutils.generate_key(alg) for _ in range(n)]


CHEAP = ["ml-kem-512", "ml-kem-768", "ml-kem-1024", "xwing", "x25519", "ed25519", "x448", "ed448", "ec-secp256r1", "rsa2048", "rsa-kem"]


def algorithm(rec, alg, rounds, group):
    rng = rec.rng
    for r in range(rounds):
        key, key2 = keys_of(alg, 2, rng)
        others = []
        for o in rng.sample(group, min(len(group), (1 if "frodo" in alg else 2) if rec.tier == "quick" else 8)):
            if o != alg:
                others.append((o, keys_of(o, 1, rng)[0]))
        # the same combination with another RSA key size
        size = re.search(r"rsa(2048|3072|4096)", alg)
        if size and alg.startswith("composite"):
            twins = [o for o in group if o != alg and o.replace("-pss", "").split("rsa")[0] == alg.split("rsa")[0]
                     and "rsa" in o and size[0] not in o]
            if twins:
                o = rng.choice(twins)
                others.append((o, keys_of(o, 1, rng)[0]))
        if family(alg) not in ("dh", "hss") and not alg.startswith("rsa"):
            o = rng.choice([a for a in CHEAP if a != alg])
            others.append((o, keys_of(o, 1, rng)[0]))
        limit = None
        if rec.tier == "quick":
            limit = 3 if "frodo" in alg else 8 if family(alg) in ("composite", "chempat", "slh-dsa") else 12 if family(alg) == "ml-dsa" else 25
        roundtrips(rec, alg, key, limit)
        publics(rec, alg, key.public_key())
        public_changes(rec, alg, key.public_key(), [(n, k.public_key()) for n, k in others])
        if family(alg) != "dh":
            private_changes(rec, alg, key, key2, others)
        if family(alg) in ("ml-kem", "ml-dsa", "slh-dsa", "xwing"):
            export_types(rec, alg, key, key2)
        if family(alg) not in ("trad", "dh", "hss"):
            derived(rec, alg, key)


def algorithms():
    from checks.p15 import TABLE
    from checks.p16 import combinations
    from pq_logic.keys.kem_keys import _FRODOKEM_NAMES
    from pq_logic.tmp_oids import COMPOSITE_SIG_OID_TO_NAME
    del TABLE
    trad = ["ec-" + c for c in CURVES] + ["rsa2048", "rsa3072", "ed25519", "ed448", "x25519", "x448", "dh", "dsa", "rsa-kem"]
    kem = ["ml-kem-512", "ml-kem-768", "ml-kem-1024"]
    dsa = ["ml-dsa-44", "ml-dsa-65", "ml-dsa-87"]
    slh = [f"slh-dsa-{h}-{n}{x}" for h in ("sha2", "shake") for n in ("128", "192", "256") for x in "sf"]
    hyb = [n for n in combinations() if "frodo" not in n]
    frodo = sorted(_FRODOKEM_NAMES) + [n for n in combinations() if "frodo" in n]
    sig = list(COMPOSITE_SIG_OID_TO_NAME.values())
    return trad, kem, dsa, slh, hyb, frodo, sig


def jobs(tier, seed):
    t = tier == "thorough"
    trad, kem, dsa, slh, hyb, frodo, sig = algorithms()
    out = []
    for group, n in ((trad, 10), (kem, 20), (dsa, 8), (hyb, 6), (sig, 3), (slh, 2), (frodo, 1)):
        for i, alg in enumerate(group):
            if not t and (group is slh and (alg.endswith("s") or (i // 2 + seed) % 2) or group is frodo and alg != ("frodokem-640-aes", "frodokem-640-shake")[seed % 2] or group is sig and (i + seed) % 2):
                continue
            pool = [a for a in group if family(a) not in ("dh",) and a != "rsa-kem" and not a.endswith("s")]
            out.append(Job(alg, _algorithm, timeout=2400 if t else 850, alg=alg, rounds=n if t else 1, group=pool))
    hss = HSS
    out += [Job(h, _algorithm, timeout=2400 if t else 850, alg=h, rounds=3 if t else 1, group=hss) for h in hss]
    prio = {n: 0 for n in frodo} | {n: 1 for n in slh}
    return sorted(out, key=lambda j: prio.get(j.name, 2))


def _algorithm(rec, alg, rounds, group):
    algorithm(rec, alg, rounds, group)
