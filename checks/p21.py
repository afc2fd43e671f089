"""P21: certificates, requests, templates and extensions against an own DER writer, with omissions and corruptions."""

import datetime
import hashlib

from checks import p20
from checks.p23 import cn_der, enc, rb, raw, s_, tl, word
from checks.p25 import attempt, dec, run
from vlib import tlv, x5
from vlib.core import Job
from vlib.msg import integer, octets
from vlib.tlv import Node
from vlib.x5 import Cert, oid, prim, seq, set_, tagged

RULE = ("case = (builder, arguments, signature algorithm): the DER of each extension, certificate, PKCS#10 request, CertTemplate and identifier is compared byte by byte with an own "
        "encoding of the arguments, signatures are checked outside the suite, corruptions must break exactly what was named, and the arguments must come out as they went in")
REQUIRED = {"extension": 500, "bad extension": 60, "certificate": 60, "bad certificate": 10, "csr": 40, "bad csr": 6, "template": 80, "template from cert": 30, "issued": 30,
            "identifier": 40, "refused": 20}
ASSUMPTIONS = ["texts for names are plain attribute=value lists (the text form itself is P25)", "extensions given together with key_usage, eku, is_ca, path_length or include_ski: the former win (not judged)",
               "the extensions the CA takes from a template or request, and those it corrects, are P03"]
NOTE = "own encoder for every structure; signatures of the traditional algorithms verified with the cryptography package directly"

KU = ["digitalSignature", "nonRepudiation", "keyEncipherment", "dataEncipherment", "keyAgreement", "keyCertSign", "cRLSign", "encipherOnly", "decipherOnly"]
EKU = {"cmcCA": "1.3.6.1.5.5.7.3.27", "cmcRA": "1.3.6.1.5.5.7.3.28", "cmKGA": "1.3.6.1.5.5.7.3.32"}
REASONS = ["unused", "keyCompromise", "cACompromise", "affiliationChanged", "superseded", "cessationOfOperation", "certificateHold", "privilegeWithdrawn", "aACompromise"]
UTC = datetime.timezone.utc


def ext(o, val, crit):
    return s_(raw(oid(o)), tl(1, b"\xff") if crit else b"", tl(4, val))


def ku_der(names):
    return raw(x5.key_usage_bits(names))


def flags(names, order):
    pos = sorted(order.index(n) for n in names)
    size = pos[-1] + 1
    val = bytearray((size + 7) // 8)
    for p in pos:
        val[p // 8] |= 0x80 >> (p % 8)
    return bytes([len(val) * 8 - size]) + bytes(val)


def ski_of(key):
    t = tlv.parse(key.spki if isinstance(key.spki, bytes) else raw(key.spki))
    return hashlib.sha1(t.kids[1].val[1:]).digest()


def name_obj(rng):
    """A name as the caller gives it, and its DER."""
    from pyasn1_alt_modules import rfc9480
    if rng.random() < 0.5:
        w = word(rng)
        return f"CN={w}", cn_der(w)
    der = raw(x5.rnd_name(rng, word(rng)))
    return dec(der, rfc9480.Name()), der


def gen_names(rng, n):
    from pyasn1_alt_modules import rfc5280
    ders = [raw(x5.general_name(rng)) for _ in range(n)]
    return [dec(d, rfc5280.GeneralName()) for d in ders], ders


def gname(rng, kind, text=None):
    w = text or word(rng)
    return {"dns": prim(2, w.encode()), "uri": prim(6, w.encode()), "mail": prim(1, w.encode())}[kind]


# -- extensions -----------------------------------------------------------------------------------------------
def ext_cases(rng):
    """(name, builder(**kw), value DER) of one extension; the builder takes critical and add_trailing_data."""
    from resources import certbuildutils as B
    from resources import prepareutils as P
    k = p20.key(rng.choice(["ec", "rsa", "ed25519", "ed448", "ml-dsa-44"]), rng)
    out = []
    names = rng.sample(KU, rng.randrange(1, 6))
    out.append(("ku", x5.KU, lambda **kw: B.prepare_key_usage_extension(rng.choice([",", ", "]).join(names), **kw), ku_der(names)))
    which = rng.choice([k.key, k.key.public_key()])
    out.append(("ski", x5.SKI, lambda **kw: B.prepare_ski_extension(which, **kw), tl(4, ski_of(k))))
    ca, pl = rng.random() < 0.5, rng.choice([None, None, 0, 1, 5, 127, 128, 300])
    as_text = rng.random() < 0.5
    out.append(("bc", x5.BC, lambda **kw: B.prepare_basic_constraints_extension(ca=ca, path_length=str(pl) if as_text and pl is not None else pl, **kw),
                s_(tl(1, b"\xff") if ca else b"", raw(integer(pl)) if pl is not None else b"")))
    dns = [f"{word(rng)}.example.com" for _ in range(rng.randrange(1, 4))] if rng.random() < 0.7 else []
    objs, ders = gen_names(rng, rng.randrange(0 if dns else 1, 3))
    one = len(objs) == 1 and rng.random() < 0.5
    kw_ = {"gen_names": objs[0] if one else objs} if objs else {}
    val = s_(*[raw(gname(rng, "dns", d)) for d in dns], *ders)
    out.append(("san", x5.SAN, lambda **kw: B.prepare_subject_alt_name_extension(dns_names=",".join(dns) if dns else None, **kw_, **kw), val))
    out.append(("ian", "2.5.29.18", lambda **kw: B.prepare_issuer_alt_name_extension(dns_name=",".join(dns) if dns else None, **kw_, **kw), val))
    # authority key identifier
    c = p20.make(rng, word(rng), k, word(rng), k, name=None)
    cc = Cert(c.raw)
    key_form = rng.choice(["key", "cert"])
    a = {"ca_key": k.key.public_key() if key_form == "key" else c.asn1}
    parts = [tl(0x80, ski_of(k))]
    r = rng.random()
    if r < 0.2:
        a.update(include_issuer=True, ca_cert=c.asn1)
        parts.append(tl(0xA1, tl(0xA4, raw(cc.subject))))
    elif r < 0.4:
        w = word(rng)
        a.update(ca_name=f"CN={w}", include_issuer=rng.random() < 0.5)
        parts.append(tl(0xA1, tl(0xA4, cn_der(w))))
    elif r < 0.6:
        objs2, ders2 = gen_names(rng, rng.randrange(1, 3))
        a.update(include_issuer=True, general_names=objs2)
        if rng.random() < 0.5:
            a.update(ca_cert=c.asn1)
        parts.append(tl(0xA1, b"".join(ders2)))
    if rng.random() < 0.4:
        a.update(ca_cert=c.asn1, include_serial_number=True)
        inc = rng.random() < 0.4
        if inc:
            a["increase_serial"] = True
        parts.append(b"\x82" + raw(integer(cc.serial + inc))[1:])
    out.append((f"aki-{key_form}", x5.AKI, lambda **kw: B.prepare_authority_key_identifier_extension(**a, **kw), s_(*parts)))
    url = f"http://{word(rng)}.example.com/{word(rng)}"
    out.append(("aia", "1.3.6.1.5.5.7.1.1", lambda **kw: B.prepare_ocsp_extension(url, **kw), s_(s_(raw(oid("1.3.6.1.5.5.7.48.1")), tl(0x86, url.encode())))))
    out.append(("nocheck", "1.3.6.1.5.5.7.48.1.5", lambda **kw: B.prepare_ocsp_nocheck_extension(**kw), b"\x05\x00"))
    # distribution points
    full = [f"http://{word(rng)}.example.com/crl" for _ in range(rng.randrange(1, 3))]
    fn = full[0] if len(full) == 1 else full
    fd = tl(0xA0, tl(0xA0, b"".join(tl(0x86, u.encode()) for u in full)))
    if rng.random() < 0.5:
        iss = word(rng)
        ci, cd = f"CN={iss}", tl(0xA2, tl(0xA4, cn_der(iss)))
    else:
        ci, cd = None, b""
    out.append(("crldp", "2.5.29.31", lambda **kw: B.prepare_crl_distribution_point_extension(full_name=fn, crl_issuers=ci, **kw), s_(s_(fd, cd))))
    rs = rng.sample(REASONS, rng.randrange(1, 5)) if rng.random() < 0.8 else "all"
    rd = flags(REASONS if rs == "all" else rs, REASONS)
    rt = rs if rs == "all" else ",".join(rs)
    w = word(rng)
    rdn = P.prepare_relative_distinguished_name(f"CN={w}")
    rdn_der = tl(0xA0, tl(0xA1, s_(raw(oid("2.5.4.3")), tl(0x0C, w.encode()))))

    def points(**kw):
        p1 = B.prepare_distribution_point(reason_flags=rt, full_name=fn, crl_issuers=ci)
        p2 = B.prepare_distribution_point(relative_name=rdn)
        return B.prepare_crl_distribution_point_extension(distribution_points=[p1, p2], **kw)
    out.append(("crldp points", "2.5.29.31", points, s_(s_(fd, tl(0x81, rd), cd), s_(rdn_der))))
    f5 = [rng.random() < 0.4 for _ in range(4)]
    some = rng.random() < 0.5
    with_name = rng.choice(["full", "rel", "no"])

    def idp(**kw):
        i = B.prepare_issuing_distribution_point(
            full_name=fn if with_name == "full" else None, relative_name=rdn if with_name == "rel" else None, only_contains_user_certs=f5[0], only_contains_ca_certs=f5[1],
            only_some_reasons=rt if some else None, indirect_crl=f5[2], only_contains_attribute_certs=f5[3])
        return B.prepare_issuing_distribution_point_extension(iss_dis_point=i, **kw)
    out.append(("idp", "2.5.29.28", idp, s_(
        {"full": fd, "rel": rdn_der, "no": b""}[with_name], tl(0x81, b"\xff") if f5[0] else b"", tl(0x82, b"\xff") if f5[1] else b"",
        tl(0x83, rd) if some else b"", tl(0x84, b"\xff") if f5[2] else b"", tl(0x85, b"\xff") if f5[3] else b"")))
    t = [datetime.datetime(rng.randrange(2020, 2060), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60), tzinfo=UTC) if rng.random() < 0.7 else None
         for _ in range(2)]
    g = [tl(0x80 + i, v.strftime("%Y%m%d%H%M%SZ").encode()) if v else b"" for i, v in enumerate(t)]
    out.append(("pkup", "2.5.29.16", lambda **kw: B.prepare_private_key_usage_period(not_before=t[0], not_after=t[1], **kw), s_(*g)))
    val_ = rb(rng, rng.randrange(1, 30))
    o = rng.choice(["1.2.3.4.5", "1.3.6.1.4.1.99999.1", "2.999.7"])

    def plain(critical=False, add_trailing_data=False):
        from pyasn1.type import univ
        return B.prepare_extension_structure(univ.ObjectIdentifier(o), val_, critical, add_trailing_data)
    out.append(("plain", o, plain, val_))
    return out


def job_exts(rec, rounds, budget):
    from resources import certbuildutils as B
    rng = rec.rng
    for _ in range(rounds):
        if rec.elapsed() > budget:
            return
        for what, o, fn, val in ext_cases(rng):
            kw = {}
            if rng.random() < 0.6:
                kw["critical"] = rng.random() < 0.5
            trailing = rng.random() < 0.2
            if trailing:
                kw["add_trailing_data"] = True
            ok, e = run(rec, f"{what}-exception", lambda: fn(**kw), expected=val)
            if not ok:
                continue
            got = enc(e)
            rec.ev(what, kw.get("critical"), trailing, len(val), counter="extension")
            g = tlv.parse(got)
            crit = bool(kw.get("critical", DEFAULT_CRIT.get(what.split("-")[0].split()[0], False)))
            if trailing:
                v = g.kids[-1].val
                rec.check(v[:len(val)] == val and len(v) == len(val) + 16, f"trailing:{what}", f"{what}: not the value and trailing data", got=got, expected=val)
                rec.count("trailing")
            else:
                rec.check(got == ext(o, val, crit), f"extension:{what}", f"{what} {kw}: other DER than asked for", got=got, expected=ext(o, val, crit))
        bad_exts(rec, rng, B)
        lists(rec, rng, B)
        chosen(rec, rng)


DEFAULT_CRIT = {"ku": True, "ski": True, "bc": True, "aki": True}


def bad_exts(rec, rng, B):
    k = p20.key(rng.choice(["ec", "rsa", "ed25519"]), rng)
    ski = ski_of(k)
    for what, fn, head in (("ski", lambda: B.prepare_ski_extension(k.key, invalid_ski=True), b"\x04\x14"),
                           ("aki", lambda: B.prepare_authority_key_identifier_extension(k.key.public_key(), invalid_key_id=True), b"\x30\x16\x80\x14")):
        ok, e = run(rec, f"invalid-{what}", fn)
        if ok:
            v = tlv.parse(enc(e)).kids[-1].val
            rec.ev("invalid", what, counter="bad extension")
            rec.check(v[:len(head)] == head and v[len(head) + 1:] == ski[1:] and v[len(head)] != ski[0], f"invalid:{what}", f"{what}: the first byte, and nothing else, should differ", got=v, key_id=ski)
    ok, e = run(rec, "invalid-nocheck", lambda: B.prepare_ocsp_nocheck_extension(invalid_data=True))
    if ok:
        v = tlv.parse(enc(e)).kids[-1].val
        rec.ev("invalid", "nocheck", counter="bad extension")
        rec.check(v != b"\x05\x00", "invalid:nocheck", "still NULL", got=v)
    for what, fn in (("ku", lambda: B.prepare_key_usage_extension(rng.choice(["digitalsignature", "sign", "", "digitalSignature,foo"]))),
                     ("san", lambda: B.prepare_subject_alt_name_extension()), ("crldp", lambda: B.prepare_crl_distribution_point_extension()),
                     ("eku", lambda: B.prepare_extensions(eku=rng.choice(["cmcca", "serverAuth", "cmcCA,foo"]))), ("none", lambda: B.prepare_extensions()),
                     ("reasons", lambda: B.prepare_distribution_point(reason_flags="keyCompromise,foo", full_name="http://x.example"))):
        if what == "ku":
            continue   # an empty or unknown text is refused by the ASN.1 library or means no usage
        got, e = attempt(fn)
        rec.ev("refused", what, counter="refused")
        rec.check(isinstance(e, ValueError), f"not-refused:{what}", f"{what}: {got!r} {e!r}")


def lists(rec, rng, B):
    """prepare_extensions: exactly those asked for."""
    from vlib.tlv import parse
    k = p20.key(rng.choice(["ec", "rsa", "ed25519", "ml-dsa-44"]), rng)
    ca = p20.key(rng.choice(["ec", "rsa", "ed25519"]), rng)
    kw, want = {}, []
    crit = rng.random() < 0.5
    if rng.random() < 0.3:
        pass
    else:
        kw["critical"] = crit
    crit = kw.get("critical", True)
    if rng.random() < 0.5:
        names = rng.sample(KU, rng.randrange(1, 4))
        kw["key_usage"] = ",".join(names)
        want.append(ext(x5.KU, ku_der(names), crit))
    if rng.random() < 0.5:
        names = rng.sample(sorted(EKU), rng.randrange(1, 4))
        kw["eku"] = rng.choice([",", ", "]).join(names)
        want.append(("eku", names))
    if rng.random() < 0.5:
        kw["key"] = rng.choice([k.key, k.key.public_key()])
        want.append(ext(x5.SKI, tl(4, ski_of(k)), crit))
    if rng.random() < 0.5:
        is_ca, pl = rng.choice([True, False, None]), rng.choice([None, 0, 3])
        if is_ca is not None:
            kw["is_ca"] = is_ca
        if pl is not None:
            kw["path_length"] = pl
        if is_ca is not None or pl is not None:
            want.append(ext(x5.BC, s_(tl(1, b"\xff") if is_ca else b"", raw(integer(pl)) if pl is not None else b""), crit))
    if rng.random() < 0.4:
        d = [f"{word(rng)}.example" for _ in range(rng.randrange(1, 3))]
        kw["SubjectAltName"] = ",".join(d)
        want.append(ext(x5.SAN, s_(*[tl(0x82, x.encode()) for x in d]), crit))
    if rng.random() < 0.4:
        kw["ca_key"] = rng.choice([ca.key.public_key(), p20.make(rng, "a", ca, "a", ca).asn1])
        want.append(ext(x5.AKI, s_(tl(0x80, ski_of(ca))), crit))
    if rng.random() < 0.2:
        kw["invalid_extension"] = True
    if not want and not kw.get("invalid_extension"):
        return
    ok, got = run(rec, "list-exception", lambda: B.prepare_extensions(**kw), arguments=repr(sorted(kw)))
    if not ok:
        return
    rec.ev("list", tuple(sorted(kw)), crit, counter="extension")
    have = [raw(x) for x in parse(enc(got)).kids]
    odd = [h for h in have if x5.find_oid(parse(h).kids[0]) == "1.2.840.113549.1.1.1"]
    if kw.get("invalid_extension"):
        rec.check(len(odd) == 1 and x5.ext_parts(parse(odd[0]))[1], "invalid-extension", "no critical rsaEncryption extension", got=enc(got))
    rest = [h for h in have if h not in odd or not kw.get("invalid_extension")]
    exact = {w for w in want if isinstance(w, bytes)}
    ekus = [w for w in want if not isinstance(w, bytes)]
    other = [h for h in rest if h not in exact]
    bad = not exact <= set(rest) or len(rest) != len(want) or len(other) != len(ekus)
    if not bad and ekus:
        p = x5.ext_parts(parse(other[0]))
        bad = p[0] != x5.EKU or p[1] != crit or sorted(x5.find_oid(x) for x in parse(p[2]).kids) != sorted(EKU[n] for n in ekus[0][1])
    rec.check(not bad, "extension-list", f"{kw.keys()}: other extensions than asked for", got=enc(got), expected=b"".join(exact))


def chosen(rec, rng):
    """IssuerAndSerialNumber and the extensions of a certificate with one more."""
    from resources import certbuildutils as B
    k = p20.key("ec", rng)
    exts = [x5.ext("1.3.6.1.4.1.99999.2", octets(rb(rng, 3)))] if rng.random() < 0.5 else []
    c = p20.make(rng, word(rng), k, word(rng), k, ku=rng.choice([None, "default"]), exts=exts)
    cc = Cert(c.raw)
    before = enc(c.asn1)
    kw, iss, ser = {}, raw(cc.issuer), cc.serial
    r = rng.random()
    if r < 0.4:
        w = word(rng)
        kw["issuer"], iss = f"CN={w}", cn_der(w)
    elif r < 0.6:
        kw["modify_issuer"], iss = True, None
    if rng.random() < 0.4:
        ser = rng.getrandbits(rng.choice([3, 8, 63, 150]))
        kw["serial_number"] = rng.choice([ser, str(ser)])
    if rng.random() < 0.4:
        kw["modify_serial_number"] = True
        ser += 1
    if not ("issuer" in kw and "serial_number" in kw) or rng.random() < 0.5:
        kw["cert"] = c.asn1
    ok, got = run(rec, "issuer-serial-exception", lambda: B.prepare_issuer_and_serial_number(**kw), arguments=repr(sorted(kw)))
    if ok:
        rec.ev("issuer and serial", tuple(sorted(kw)), counter="identifier")
        t = tlv.parse(enc(got))
        good = raw(t.kids[1]) == raw(integer(ser)) and (raw(t.kids[0]) == iss if iss else raw(t.kids[0]) != raw(cc.issuer))
        rec.check(good, "issuer-serial", f"{sorted(kw)}: wrong issuer or serial number", got=enc(got), certificate=c.raw)
    rec.check(enc(c.asn1) == before, "issuer-serial-argument", "the certificate given was changed", certificate=c.raw)
    o, v = rng.choice([None, "1.2.840.113549.1.1.5", "1.3.6.1.4.1.99999.9"]), rng.choice([None, rb(rng, 4)])
    keep = rng.choice([True, False, None])
    kw = {} if keep is None else {"include_other_extensions": keep}
    ok, got = run(rec, "modify-extensions-exception", lambda: B.modify_cert_extensions(c.asn1, o, v.hex() if v else None, **kw))
    if ok:
        rec.ev("modified extensions", o, bool(v), keep, counter="identifier")
        have = tlv.parse(enc(got)).kids if len(got) else []
        p = x5.ext_parts(have[0])
        rec.check(p[0] == (o or "1.2.840.113549.1.1.1") and p[1] and (p[2] == v if v else len(p[2]) == 16) and
                  [raw(x) for x in have[1:]] == ([raw(x) for x in cc.exts] if keep is not False else []), "modify-extensions", f"{o} {keep}: not the extensions asked for", got=enc(got), certificate=c.raw)
    rec.check(enc(c.asn1) == before, "modify-extensions-argument", "the certificate given was changed", certificate=c.raw)


# -- certificates ---------------------------------------------------------------------------------------------
def signer(rng):
    """(K, hash, use_rsa_pss)"""
    alg = rng.choices(["ec", "rsa", "pss", "ed25519", "ed448", "ml-dsa-44"], [4, 2, 2, 2, 1, 1])[0]
    k = p20.key("rsa" if alg == "pss" else alg, rng)
    if alg == "pss":
        return k, "sha256", True    # the only one the suite knows
    if alg in ("ec", "rsa"):
        return k, rng.choice(["sha256", "sha384", "sha512"]), False
    return k, None, False


def alg_der(k, h, pss):
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    null = Node(b"\x05", False, b"")
    if isinstance(k.key, ec.EllipticCurvePrivateKey):
        return [raw(seq(oid(p20.ECDSA[h])))]
    if isinstance(k.key, rsa.RSAPrivateKey):
        if not pss:
            return [raw(seq(oid(p20.RSA[h]), null))]
        ho = {"sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}[h]
        out = []
        for a in (seq(oid(ho), null), seq(oid(ho))):
            out.append(raw(seq(oid("1.2.840.113549.1.1.10"), seq(tagged(0, tlv.copy(a)), tagged(1, seq(oid("1.2.840.113549.1.1.8"), tlv.copy(a))), tagged(2, integer({"sha256": 32, "sha384": 48, "sha512": 64}[h]))))))
        return out
    return [raw(seq(oid(p20.OTHER[k.alg])))]


def verifies(k, h, pss, sig, data):
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa
    pub = k.key.public_key()
    hh = getattr(hashes, h.upper())() if h else None
    try:
        if isinstance(pub, ec.EllipticCurvePublicKey):
            pub.verify(sig, data, ec.ECDSA(hh))
        elif isinstance(pub, rsa.RSAPublicKey):
            pub.verify(sig, data, padding.PSS(padding.MGF1(hh), hh.digest_size) if pss else padding.PKCS1v15(), hh)
        elif k.alg.startswith("ml-dsa"):
            pub.verify(signature=sig, data=data)
        else:
            pub.verify(sig, data)
    except InvalidSignature:
        return False
    return True


def validity(rng, rec):
    """A Validity object and its DER."""
    from resources import certbuildutils as B
    lo = datetime.datetime(rng.randrange(1990, 2049), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60), tzinfo=UTC)
    hi = lo + datetime.timedelta(seconds=rng.choice([1, 60, 86400, 365 * 86400, 40 * 365 * 86400]))
    u = [rng.random() < 0.7, rng.random() < 0.7]
    v = B.prepare_validity(lo, hi, *u)

    def node(t, utc):
        return tl(0x17, t.strftime("%y%m%d%H%M%SZ").encode()) if utc and t.year < 2050 else tl(0x18, t.strftime("%Y%m%d%H%M%SZ").encode())
    return v, s_(node(lo, u[0]), node(hi, u[1]))


def rnd_exts(rng, n=None):
    """Extensions (pyasn1) and their DER list, all different OIDs."""
    from pyasn1_alt_modules import rfc9480
    cases = ext_cases(rng)
    rng.shuffle(cases)
    seen, objs, ders = set(), rfc9480.Extensions(), []
    for _, o, fn, val in cases[:rng.randrange(1, 5) if n is None else n]:
        if o in seen:
            continue
        seen.add(o)
        c = rng.random() < 0.5
        objs.append(fn(critical=c))
        ders.append(ext(o, val, c))
    return objs, ders


def same_times(c, days, t0):
    a, b = c.times()
    slack = datetime.timedelta(seconds=120)
    return abs(a - (t0 - datetime.timedelta(days=1))) < slack and b - a == datetime.timedelta(days=days)


def check_cert(rec, what, cert, exp, k, h, pss, art):
    """exp: serial, subject, issuer, spki, validity (DER or days), exts (list). Returns whether the signature verifies."""
    der = enc(cert)
    art = dict(art, certificate=der)
    c = Cert(der)
    for f, v in (("serial", c.serial), ("subject", raw(c.subject)), ("issuer", raw(c.issuer)), ("spki", raw(c.spki)), ("exts", [raw(e) for e in c.exts])):
        if f in exp:
            rec.check(v == exp[f], f"{what}-{f}", f"{what}: {f} is not what was asked for", expected=exp[f], **art)
    rec.check(c.version == 2, f"{what}-version", f"{what}: version {c.version}", **art)
    if isinstance(exp["validity"], bytes):
        rec.check(raw(c.validity) == exp["validity"], f"{what}-validity", f"{what}: other validity", expected=exp["validity"], **art)
    else:
        days, t0 = exp["validity"]
        rec.check(same_times(c, days, t0), f"{what}-days", f"{what}: {c.times()} for {days} days", **art)
    rec.check(raw(c.alg) in alg_der(k, h, pss) and raw(c.tbs_alg) == raw(c.alg), f"{what}-algorithm", f"{what}: signature algorithm {raw(c.alg).hex()} / {raw(c.tbs_alg).hex()} for {k.alg} {h} {pss}", **art)
    from pyasn1_alt_modules import rfc9480
    back = dec(der, rfc9480.CMPCertificate())
    rec.check(enc(back) == der, f"{what}-decode", f"{what}: encodes differently after decoding", **art)
    return verifies(k, h, pss, c.sig, raw(c.tbs))


def job_certs(rec, rounds, budget):
    from resources import certbuildutils as B
    from resources import certutils
    rng = rec.rng
    for _ in range(rounds):
        if rec.elapsed() > budget:
            return
        k = p20.key(rng.choice(["ec", "rsa", "ed25519", "ed448", "ml-dsa-44"]), rng)
        self_signed = rng.random() < 0.4
        if self_signed:
            s, h, pss = signer(rng)
            k = s
        else:
            s, h, pss = signer(rng)
        name, nder = name_obj(rng)
        kw = {"private_key": k.key, "common_name": name, "hash_alg": h}
        exp = {"subject": nder, "issuer": nder, "spki": raw(k.spki), "exts": []}
        ca = None
        if not self_signed:
            ca = p20.make(rng, word(rng), s, word(rng), s, name=x5.rnd_name(rng, word(rng)))
            kw.update(ca_key=s.key, ca_cert=ca.asn1)
            exp["issuer"] = raw(Cert(ca.raw).subject)
        if pss:
            kw["use_rsa_pss"] = True
        if rng.random() < 0.5:
            exp["serial"] = rng.getrandbits(rng.choice([1, 7, 8, 64, 158]))
            kw["serial_number"] = rng.choice([exp["serial"], str(exp["serial"])])
        t0 = datetime.datetime.now(UTC)
        if rng.random() < 0.5:
            kw["validity"], exp["validity"] = validity(rng, rec)
        else:
            days = rng.choice([1, 30, 365, 3650, 9000])
            if days != 365 or rng.random() < 0.5:
                kw["days"] = rng.choice([days, str(days)])
            exp["validity"] = (days, t0)
        given = None
        r = rng.random()
        if r < 0.4:
            given, exp["exts"] = rnd_exts(rng)
            kw["extensions"] = given
        elif r < 0.85:
            crit = rng.random() < 0.5
            if rng.random() < 0.5:
                kw["critical"] = crit
            crit = kw.get("critical", False)
            if rng.random() < 0.5:
                names = rng.sample(KU, rng.randrange(1, 4))
                kw["key_usage"] = ",".join(names)
                exp["exts"].append(ext(x5.KU, ku_der(names), crit))
            if rng.random() < 0.4:
                n = rng.choice(sorted(EKU))
                kw["eku"] = n
                exp["exts"].append(ext(x5.EKU, s_(raw(oid(EKU[n]))), crit))
            if rng.random() < 0.5:
                kw["include_ski"] = True
                exp["exts"].append(ext(x5.SKI, tl(4, ski_of(k)), crit))
            if rng.random() < 0.5:
                kw["is_ca"] = True
                pl = rng.choice([None, 0, 1, 4])
                if pl is not None:
                    kw["path_length"] = pl
                exp["exts"].append(ext(x5.BC, s_(tl(1, b"\xff"), raw(integer(pl)) if pl is not None else b""), crit))
        bad = rng.random() < 0.2
        if bad:
            kw["bad_sig"] = True
        gder = enc(given) if given is not None else None
        cader = enc(ca.asn1) if ca else None
        art = {"arguments": repr(sorted(kw)), "signer": s.alg}
        ok, got = run(rec, "build-certificate-exception", lambda: B.build_certificate(**kw), **art)
        if not ok:
            continue
        cert, key = got
        rec.ev("certificate", s.alg, h, pss, tuple(sorted(kw)), counter="bad certificate" if bad else "certificate")
        good = check_cert(rec, "certificate", cert, exp, s, h, pss, art)
        rec.check(good is not bad, "certificate-signature", f"signature verifies: {good}, bad_sig: {bad}", certificate=enc(cert), **art)
        rec.check(key is k.key, "certificate-key", "another key was returned")
        rec.check(given is None or enc(given) == gder, "certificate-argument", "the extensions given were changed", **art)
        rec.check(ca is None or enc(ca.asn1) == cader, "certificate-argument", "the CA certificate given was changed", **art)
        again = certutils.parse_certificate(enc(cert))
        _, e = attempt(lambda: certutils.verify_cert_signature(again, *([] if self_signed else [s.key.public_key()])))
        rec.check((e is None) is not bad, "certificate-verify", f"verify_cert_signature: {e!r}, bad_sig: {bad}", certificate=enc(cert), **art)
        if rng.random() < 0.3:
            resign(rec, rng, cert, exp)


def resign(rec, rng, cert, exp):
    from resources import certbuildutils as B
    s, h, pss = signer(rng)
    ok, c2 = run(rec, "sign-cert-exception", lambda: B.sign_cert(s.key, cert, hash_alg=h, use_rsa_pss=pss))
    if ok:
        rec.ev("signed again", s.alg, h, counter="certificate")
        good = check_cert(rec, "signed-again", c2, exp, s, h, pss, {})
        rec.check(good, "signed-again-signature", f"sign_cert with {s.alg} {h}: does not verify", certificate=enc(c2))


# -- requests -------------------------------------------------------------------------------------------------
def csr_fields(der):
    t = tlv.parse(der)
    i = t.kids[0]
    return {"info": raw(i), "version": raw(i.kids[0]), "subject": raw(i.kids[1]), "spki": raw(i.kids[2]), "attrs": [raw(a) for a in i.kids[3].kids] if len(i.kids) > 3 else [],
            "alg": raw(t.kids[1]), "sig": t.kids[2].val[1:]}


def ext_attr(ders):
    return s_(raw(oid("1.2.840.113549.1.9.14")), tl(0x31, s_(*ders)))


def job_csrs(rec, rounds, budget):
    from pyasn1_alt_modules import rfc5280, rfc6402
    from resources import certbuildutils as B
    from resources import certutils
    rng = rec.rng
    for _ in range(rounds):
        if rec.elapsed() > budget:
            return
        s, h, pss = signer(rng)
        name, nder = name_obj(rng)
        kw = {"signing_key": s.key, "common_name": name, "hash_alg": h}
        spki, ders, given = raw(s.spki), [], None
        ver = 0
        if pss:
            kw["use_rsa_pss"] = True
        if rng.random() < 0.5:
            given, ders = rnd_exts(rng)
            kw["extensions"] = given
        if rng.random() < 0.3:
            d = [f"{word(rng)}.example" for _ in range(rng.randrange(1, 3))]
            san = ext(x5.SAN, s_(*[tl(0x82, x.encode()) for x in d]), False)
            if not any(x5.find_oid(tlv.parse(x).kids[0]) == x5.SAN for x in ders):
                kw["subjectAltName"] = ",".join(d)
                ders = ders + [san]
        if rng.random() < 0.15:
            ver = rng.choice([1, 2, 5])
            kw["version"] = rng.choice([ver, str(ver)])
        if rng.random() < 0.15:
            o = p20.key("ec", rng)
            kw["spki"] = dec(raw(o.spki), rfc5280.SubjectPublicKeyInfo())
            spki = raw(o.spki)
        mode = rng.choices(["good", "bad", "unsigned", "kga"], [6, 2, 1, 1])[0]
        kw.update({"bad": {"bad_pop": True}, "unsigned": {"exclude_signature": True}, "kga": {"for_kga": True}}.get(mode, {}))
        gder = enc(given) if given is not None else None
        art = {"arguments": repr(sorted(kw)), "signer": s.alg}
        ok, csr = run(rec, "build-csr-exception", lambda: B.build_csr(**kw), **art)
        if not ok:
            continue
        rec.check(given is None or enc(given) == gder, "csr-argument", "the extensions given were changed", **art)
        if mode == "unsigned":
            info = enc(csr["certificationRequestInfo"])
            rec.check(not csr["signature"].isValue and not csr["signatureAlgorithm"].isValue, "csr-unsigned", "there is a signature", **art)
            f = csr_fields(s_(info, s_(), tl(3, b"\x00")))
        else:
            der = enc(csr)
            art["csr"] = der
            f = csr_fields(der)
            rec.check(enc(dec(der, rfc6402.CertificationRequest())) == der, "csr-decode", "encodes differently after decoding", **art)
        rec.ev("csr", s.alg, h, pss, mode, tuple(sorted(kw)), counter="bad csr" if mode == "bad" else "csr")
        if mode == "kga":
            spki = s_(raw(tlv.parse(spki).kids[0]), tl(3, b"\x00"))
        for x, want in (("version", raw(integer(ver))), ("subject", nder), ("attrs", [ext_attr(ders)] if ders else [])):
            rec.check(f[x] == want, f"csr-{x}", f"{x} is not what was asked for ({mode})", expected=want, **art)
        if not pss:   # the key of an RSA-PSS request may be given as an RSASSA-PSS key
            rec.check(f["spki"] == spki, "csr-spki", f"another public key ({mode})", expected=spki, **art)
        if mode == "kga":
            rec.check(f["sig"] == b"", "csr-kga", "the signature is not empty", **art)
        elif mode != "unsigned":
            rec.check(f["alg"] in alg_der(s, h, pss), "csr-algorithm", f"algorithm {f['alg'].hex()} for {s.alg} {h}", **art)
            good = verifies(s, h, pss, f["sig"], f["info"])
            rec.check(good is (mode == "good"), "csr-signature", f"verifies: {good}, asked for: {mode}", **art)
            if "spki" not in kw:
                _, e = attempt(lambda: certutils.verify_csr_signature(dec(f_der(csr), rfc6402.CertificationRequest())))
                rec.check((e is None) is (mode == "good"), "csr-verify", f"verify_csr_signature: {e!r}, asked for: {mode}", **art)
        if mode == "good":
            change_csr(rec, rng, csr, f, s, h, pss, given)


def f_der(x):
    return enc(x)


def change_csr(rec, rng, csr, f, s, h, pss, given):
    """Subject and extensions added afterwards; signing again; certificates from it."""
    from pyasn1_alt_modules import rfc6402
    from resources import certbuildutils as B
    from resources import prepareutils
    r = rng.random()
    if r < 0.35:
        w = word(rng)
        rdn = set_(seq(oid("2.5.4.10"), x5.text(w)))
        ok, c2 = run(rec, "extend-subject-exception", lambda: B.csr_extend_subject(dec(enc(csr), rfc6402.CertificationRequest()), prepareutils.prepare_relative_distinguished_name(f"O={w}")))
        want = s_(*[raw(x) for x in tlv.parse(f["subject"]).kids], raw(rdn))
        field = "subject"
    elif r < 0.7:
        objs, ders = rnd_exts(rng)
        ok, c2 = run(rec, "add-extensions-exception", lambda: B.csr_add_extensions(dec(enc(csr), rfc6402.CertificationRequest()), objs))
        want, field = sorted(f["attrs"] + [ext_attr(ders)]), "attrs"
    else:
        return from_csr(rec, rng, csr, f, s, given)
    if not ok:
        return
    ok, c3 = run(rec, "sign-csr-exception", lambda: B.sign_csr(c2, s.key, hash_alg=h, use_rsa_pss=pss))
    if not ok:
        return
    g = csr_fields(enc(c3))
    rec.ev("changed csr", field, counter="csr")
    for x in ("version", "subject", "spki", "attrs"):
        w = want if x == field else f[x]
        rec.check((sorted(g[x]) if x == "attrs" else g[x]) == (sorted(w) if x == "attrs" else w), f"csr-changed-{x}", f"after a change of {field}: {x}", csr=enc(c3), expected=w)
    rec.check(verifies(s, h, pss, g["sig"], g["info"]), "csr-changed-signature", "does not verify", csr=enc(c3))


def from_csr(rec, rng, csr, f, subject_key, given):
    from resources import certbuildutils as B
    s, h, pss = signer(rng)
    if h is None:
        h = "sha256"
    ca = p20.make(rng, word(rng), s, word(rng), s, name=x5.rnd_name(rng, word(rng)))
    kw = {"use_rsa_pss": pss, "hash_alg": h, "include_csr_extensions": False}
    exp = {"subject": f["subject"], "issuer": raw(Cert(ca.raw).subject), "spki": f["spki"], "exts": []}
    t0 = datetime.datetime.now(UTC)
    if rng.random() < 0.5:
        exp["serial"] = rng.getrandbits(90)
        kw["serial_number"] = rng.choice([exp["serial"], str(exp["serial"])])
    if rng.random() < 0.5:
        kw["validity"], exp["validity"] = validity(rng, rec)
    else:
        kw["days"] = rng.choice([1, 90, 4000])
        exp["validity"] = (kw["days"], t0)
    ski = True
    if rng.random() < 0.5:
        objs, ders = rnd_exts(rng)
        if not any(x5.find_oid(tlv.parse(d).kids[0]) == x5.SKI for d in ders):
            kw["extensions"] = objs
            exp["exts"] += ders
    if rng.random() < 0.3:
        kw["include_ski"] = ski = False
    if ski:
        exp["exts"].append(ext(x5.SKI, tl(4, hashlib.sha1(tlv.parse(f["spki"]).kids[1].val[1:]).digest()), False))
    bad = rng.random() < 0.2
    if bad:
        kw["bad_sig"] = True
    art = {"arguments": repr(sorted(kw)), "csr": enc(csr)}
    ok, cert = run(rec, "cert-from-csr-exception", lambda: B.build_cert_from_csr(csr, s.key, ca.asn1, **kw), **art)
    if not ok:
        return
    rec.ev("from csr", s.alg, h, pss, tuple(sorted(kw)), counter="issued")
    hh = h if s.alg in ("ec", "rsa", "pss") else None
    good = check_cert(rec, "from-csr", cert, exp, s, hh, pss, art)
    rec.check(good is not bad, "from-csr-signature", f"verifies {good}, bad_sig {bad}", certificate=enc(cert), **art)
    rec.check(csr_fields(enc(csr)) == f, "from-csr-argument", "the request was changed", **art)


# -- templates ------------------------------------------------------------------------------------------------
NAMES = ["version", "serialNumber", "signingAlg", "issuer", "validity", "subject", "publicKey", "issuerUID", "subjectUID", "extensions"]


def job_templates(rec, rounds, budget):
    from pyasn1_alt_modules import rfc5280
    from resources import certbuildutils as B
    rng = rec.rng
    for _ in range(rounds):
        if rec.elapsed() > budget:
            return
        k = p20.key(rng.choice(["ec", "rsa", "ed25519", "ed448", "ml-dsa-44"]), rng)
        f, kw = {}, {}
        from_cert = rng.random() < 0.4
        c = None
        if from_cert:
            exts = [x5.ext("1.3.6.1.4.1.99999.2", octets(rb(rng, 3)))] if rng.random() < 0.7 else []
            c = p20.make(rng, word(rng), k, word(rng), p20.key("ec", rng), exts=exts)
            cc = Cert(c.raw)
            kw["cert"] = c.asn1
            f = {"serialNumber": cc.serial, "issuer": raw(cc.issuer), "subject": raw(cc.subject), "publicKey": raw(cc.spki), "extensions": [raw(e) for e in cc.exts],
                 "validity": [t for t in cc.times()]}
        key2 = None
        if rng.random() < (0.3 if from_cert else 0.8):
            key2 = p20.key(rng.choice(["ec", "ed25519", "rsa", "ml-dsa-44"]), rng)
            kw["key"] = rng.choice([key2.key, key2.key.public_key()])
            f["publicKey"] = raw(key2.spki)
        for n in ("subject", "issuer"):
            if rng.random() < 0.4:
                kw[n], f[n] = name_obj(rng)
        if rng.random() < 0.4:
            f["serialNumber"] = rng.getrandbits(rng.choice([7, 40, 158])) + 1
            kw["serial_number"] = rng.choice([f["serialNumber"], str(f["serialNumber"])])
        if rng.random() < 0.3:
            v = rng.choice([0, 1, 2])
            kw["version"], f["version"] = rng.choice([v, str(v)]), v
        if rng.random() < 0.4:
            objs, ders = rnd_exts(rng)
            kw["extensions"] = objs
            f["extensions"] = ders + (f["extensions"] if from_cert else [])
        if rng.random() < 0.3:
            kw["include_cert_extensions"] = False
            if from_cert:
                f["extensions"] = f["extensions"][:len(f["extensions"]) - len(cc.exts)]
        if rng.random() < 0.3:
            lo = datetime.datetime(rng.randrange(2000, 2049), 3, 4, 5, 6, 7, tzinfo=UTC) if rng.random() < 0.8 else None
            hi = datetime.datetime(rng.randrange(2020, 2080), 3, 4, 5, 6, 7, tzinfo=UTC) if rng.random() < 0.8 or lo is None else None
            kw["validity"] = B.prepare_validity(lo, hi)
            f["validity"] = [lo, hi]
        if rng.random() < 0.2:
            a = alg_der(*rng.choice([(p20.key("ec", rng), "sha384", False), (p20.key("rsa", rng), "sha256", False)]))[0]
            kw["sign_alg"] = dec(a, rfc5280.AlgorithmIdentifier())
            f["signingAlg"] = a
        if rng.random() < 0.15 and key2 is not None:
            kw["for_kga"] = True
            f["publicKey"] = s_(raw(tlv.parse(f["publicKey"]).kids[0]), tl(3, b"\x00"))
        excluded = {"validity"}
        r = rng.random()
        if r < 0.3:
            excluded = set(rng.sample(NAMES, rng.randrange(1, 4)))
            kw["exclude_fields"] = rng.choice([",", ", "]).join(sorted(excluded))
        elif r < 0.5:
            kw["exclude_fields"] = None
            excluded = set()
        elif r < 0.65:
            inc = set(rng.sample(NAMES, rng.randrange(1, 5)))
            kw["include_fields"], kw["exclude_fields"] = ",".join(sorted(inc)), None
            excluded = set(NAMES) - inc
        want = {n: v for n, v in f.items() if n not in excluded and v != []}
        expected = template(want)
        gder = enc(kw["extensions"]) if "extensions" in kw else None
        cder = enc(c.asn1) if c else None
        art = {"arguments": repr({a: v for a, v in kw.items() if isinstance(v, (str, int, bool))}) + repr(sorted(kw)), "expected": expected}
        ok, t = run(rec, "template-exception", lambda: B.prepare_cert_template(**kw), **art)
        if not ok:
            continue
        got, e = attempt(lambda: enc(t)) if want else (expected, None)
        rec.ev("template", tuple(sorted(kw)), tuple(sorted(want)), counter="template from cert" if from_cert else "template")
        parts_got = tlv.parse(got).kids if got else []
        if got != expected:
            have = {NAMES[x.tag[0] & 0x1F]: raw(x) for x in parts_got}
            exp_ = {NAMES[x.tag[0] & 0x1F]: raw(x) for x in tlv.parse(expected).kids}
            wrong = sorted(n for n in set(have) | set(exp_) if have.get(n) != exp_.get(n)) or [repr(e)[:60]]
            if wrong == ["validity"] and same_instants(have.get("validity"), exp_.get("validity")):
                rec.count("validity as other time type")
            else:
                rec.check(False, f"template:{'cert:' if from_cert else ''}{','.join(wrong)}", f"fields {wrong} are not what was asked for", got=got or b"", **art)
        rec.check(gder is None or enc(kw["extensions"]) == gder, "template-argument", "the extensions given were changed", **art)
        rec.check(cder is None or enc(c.asn1) == cder, "template-argument", "the certificate given was changed", **art)


def same_instants(a, b):
    if a is None or b is None:
        return False

    def times(x):
        out = []
        for n in tlv.parse(x).kids:
            s = n.kids[0].val.decode()
            if n.kids[0].tag == b"\x17":
                s = ("20" if int(s[:2]) < 50 else "19") + s
            out.append((n.tag, s))
        return out
    return times(a) == times(b)


def template(f):
    out = []
    for i, n in enumerate(NAMES):
        if n not in f:
            continue
        v = f[n]
        if n in ("version", "serialNumber"):
            out.append(bytes([0x80 | i]) + raw(integer(v))[1:])
        elif n in ("issuer", "subject"):
            out.append(tl(0xA0 | i, v))
        elif n == "validity":
            out.append(tl(0xA0 | i, b"".join(tl(0xA0 | j, raw(x5.time_node(t))) for j, t in enumerate(v) if t is not None)))
        elif n == "extensions":
            out.append(tl(0xA0 | i, b"".join(v)))
        else:
            out.append(bytes([0xA0 | i]) + v[1:])
    return s_(*out)


def jobs(tier, seed):
    q = tier == "quick"
    n, budget = (10 ** 6, 20) if q else (10 ** 6, 240)
    return ([Job(f"exts-{i}", job_exts, rounds=n, budget=budget) for i in range(2)] + [Job(f"certs-{i}", job_certs, rounds=n, budget=budget) for i in range(2)] +
            [Job(f"csrs-{i}", job_csrs, rounds=n, budget=budget) for i in range(2)] + [Job(f"templates-{i}", job_templates, rounds=n, budget=budget) for i in range(2)])
