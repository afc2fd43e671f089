"""P25: names in text form, comparisons of names, templates, requests, certificates and keys, look-ups in collections."""

from checks import p17, p20
from vlib import tlv, x5
from vlib.core import Job
from vlib.msg import bits, integer, octets
from vlib.tlv import Node
from vlib.x5 import ext, oid, seq, set_, tagged

RULE = ("case = (text of a name: attribute types, special characters, separators) for names made from text and printed; (function, mode, kind of single change or none) for "
        "comparisons of names, general names, algorithm identifiers, templates, requests and certificates, whose answer is compared with that of an own comparison of the "
        "DER; (key type, relation of two keys) for keys; (collection, element) for look-ups")
REQUIRED = {"text": 150, "print": 100, "rdn": 100, "names equal": 100, "names differ": 300, "general": 80, "alg": 60, "template equal": 30, "template differ": 80,
            "csr": 20, "csr differ": 30, "key equal": 60, "key differ": 60, "lookup": 60, "spki": 30}
ASSUMPTIONS = ["names in text form use the types CN, L, ST, O, OU, C, STREET and DC, which both directions know",
               "mode contains of the comparison of names is judged in the direction its callers use: all attributes of the first name are in the second",
               "a template without a value for a field asks for nothing there; of its extensions the values are compared, not the criticality, which a CA may correct",
               "private keys are the same if their public keys are"]
NOTE = "own RFC 4514 writer and own comparison of DER"

TYPES = {"CN": ("2.5.4.3", "u"), "L": ("2.5.4.7", "u"), "ST": ("2.5.4.8", "u"), "O": ("2.5.4.10", "u"), "OU": ("2.5.4.11", "u"), "C": ("2.5.4.6", "C"),
         "STREET": ("2.5.4.9", "u"), "DC": ("0.9.2342.19200300.100.1.25", "i")}
SHOWN = {v[0]: k for k, v in TYPES.items()} | {"2.5.4.5": "SN", "2.5.4.4": "S", "2.5.4.42": "GN", "2.5.4.12": "T"}
PLAIN = "abcdefXYZ 0123456789'()-./:?äß漢€@_&*%!"
SPECIAL = "\"+,;<>\\#= "


def escaped(v):
    out = "".join("\\" + c if c in "\"+,;<>\\" else c for c in v)
    if out.endswith(" "):
        out = out[:-1] + "\\ "
    if out[0] in " #":
        out = "\\" + out
    return out


def value(rng, kind):
    if kind == "C":
        return "".join(rng.choice("ABCDEFGHIJ") for _ in range(2))
    if kind == "i":
        return "".join(rng.choice("abcdefgh0123-") for _ in range(rng.randrange(1, 9)))
    pool = PLAIN if rng.random() < 0.4 else PLAIN + SPECIAL * 3
    return "".join(rng.choice(pool) for _ in range(rng.randrange(1, 12)))


def der(x):
    from pyasn1.codec.der import encoder
    return encoder.encode(x)


def dec(raw, spec):
    from pyasn1.codec.der import decoder
    obj, rest = decoder.decode(raw, asn1Spec=spec)
    assert not rest
    return obj


def name_of(raw):
    from pyasn1_alt_modules import rfc9480
    return dec(raw, rfc9480.Name())


def avas(raw):
    """[[(OID, text)…]…] of a name, RDNs in encoded order."""
    out = []
    for rdn in tlv.parse(raw).kids:
        out.append([(x5.find_oid(a.kids[0]), a.kids[1].val.decode()) for a in rdn.kids])
    return out


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa
        return None, e


def run(rec, key, fn, **art):
    """(True, value), or (False, None) and a violation: fn must not raise."""
    try:
        return True, fn()
    except Exception as e:  # noqa
        rec.violation(key, f"{type(e).__name__}: {e}"[:300], **art)
        return False, None


# -- text ---------------------------------------------------------------------------------------------------
def job_text(rec, rounds, budget):
    from resources import prepareutils as P
    from resources import utils as U
    from pyasn1_alt_modules import rfc9480
    rng = rec.rng
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        rdns, has_multi = [], False
        for _ in range(rng.choice((1, 1, 2, 3, 4, 6))):
            n = 2 if rng.random() < 0.12 else 1
            has_multi |= n > 1
            rdns.append([(t, value(rng, TYPES[t][1])) for t in rng.sample(sorted(TYPES), n)])
        sep = rng.choice([",", ", "])
        canon = ",".join("+".join(f"{t}={escaped(v)}" for t, v in r) for r in rdns)
        text = sep.join("+".join(f"{t}={escaped(v)}" for t, v in r) for r in rdns)
        special = "".join(sorted({c for r in rdns for _, v in r for c in v if c in SPECIAL}))
        what = ("multi" if has_multi else "single", sep, special, tuple(sorted({t for r in rdns for t, _ in r})))
        rec.ev("text", *what, counter="text")
        ok, n = run(rec, "text-refused", lambda: P.prepare_name(text), text=text)
        if not ok:
            continue
        raw = der(n)
        want = [sorted((TYPES[t][0], v) for t, v in r) for r in reversed(rdns)]
        rec.check([sorted(r) for r in avas(raw)] == want, "text-name", f"{text!r} became {avas(raw)!r}", text=text, name=raw)
        ways = [("string", U.get_openssl_name_notation(n)), ("decoded", U.get_openssl_name_notation(name_of(raw)))]
        target = rfc9480.CertTemplate()["subject"] if rng.random() < 0.5 else None
        if target is not None:
            t = P.prepare_name(text, target=target)
            ways.append(("target", U.get_openssl_name_notation(t)))
        else:
            k = rng.randrange(0, 6)
            t = P.prepare_name(text, implicit_tag_id=k)
        rec.check(tlv.dump(tlv.parse(der(t["rdnSequence"]))) == raw, "text-target", f"{text!r}: a given target holds another name", text=text, name=der(t["rdnSequence"]))
        gn = P.prepare_general_name("directoryName", text)
        rec.check(der(gn) == tlv.dump(tagged(4, tlv.parse(raw))), "text-general-name", f"{text!r} as GeneralName", text=text, name=der(gn))
        for way, shown in ways:
            rec.ev("print", way, *what, counter="print")
            if not has_multi:
                rec.check(shown == canon, "print-text", f"{way}: {text!r} prints as {shown!r}", text=text, name=raw)
            else:
                rec.check(len(shown) == len(canon), "print-multi", f"{way}: {text!r} prints as {shown!r}", text=text, name=raw)
            again, e = attempt(lambda: der(P.prepare_name(shown)))
            rec.check(again == raw, "print-again", f"{way}: {text!r} prints as {shown!r}, which is another name or none ({e!r})", text=text, name=raw)
        got = U.get_openssl_name_notation(n, return_dict=True)
        types = [t for r in rdns for t, _ in r]
        if len(set(types)) == len(types):
            rec.check(got == {t: v for r in rdns for t, v in r}, "print-dict", f"{text!r} as dictionary: {got!r}", text=text)
        cn = [v for r in rdns for t, v in r if t == "CN"]
        if len(cn) == 1:
            rec.count("cn")
    for t in ("Null-DN", "NULL-DN"):
        n = P.prepare_name(t)
        rec.check(der(n) == b"\x30\x00" and U.get_openssl_name_notation(n) == "NULL-DN", "null-dn-text", f"{t}: {der(n).hex()}")
    for t in ("", "abc", "CN", "XX=1", "CN=a,b", "CN=a,,O=b", "CN=a,O", "=a", "CN=a;O=b", "CN=a+", "1.2.=x"):
        n, e = attempt(lambda: P.prepare_name(t))
        rec.ev("bad text", t, counter="bad text")
        rec.check(isinstance(e, ValueError), "bad-text", f"{t!r}: {e!r} instead of a ValueError", text=t)
    # names of others: printing shows every attribute the suite knows, in order, in any string type
    for _ in range(rounds):
        if rec.elapsed() > budget * 1.3:
            break
        raw = tlv.dump(x5.rnd_name(rng, f"u{rng.randrange(1000)}"))
        want = ",".join("+".join(f"{SHOWN[o]}={escaped(v)}" for o, v in r) for r in reversed(avas(raw)))
        shown = U.get_openssl_name_notation(name_of(raw))
        rec.ev("print-other", shown, counter="print")
        rec.check(shown == want, "print-other", f"{raw.hex()} prints as {shown!r}, not {want!r}", name=raw)
    # relative names
    limits = {"CN": 64, "O": 64, "OU": 64, "L": 128, "ST": 128, "C": 2, "SN": 64, "T": 64, "STREET": 128, "EMAIL": 255, "postalCode": 40, "PSEUDONYM": 128}
    oids = {v: k for k, v in SHOWN.items()} | {"EMAIL": "1.2.840.113549.1.9.1", "postalCode": "2.5.4.17", "PSEUDONYM": "2.5.4.65"}
    from pyasn1_alt_modules import rfc5280
    for _ in range(rounds):
        if rec.elapsed() > budget * 1.6:
            break
        ts = rng.sample(sorted(set(limits) - {"C"}), rng.choice((1, 1, 2, 3))) if rng.random() < 0.8 else ["C"]
        vals = []
        for t in ts:
            v = value(rng, "C") if t == "C" else "".join(rng.choice("abc XY=019-" if t != "EMAIL" else "abc@.") for _ in range(rng.randrange(1, 20)))
            vals.append((t, v.strip() or "x"))
        text = rng.choice([",", ", "]).join(f"{t}={v}" for t, v in vals)
        bad = rng.choice([None, None, None, "bad_min_size", "bad_max_size"])
        rec.ev("rdn", tuple(ts), bad, "=" in "".join(v for _, v in vals), counter="rdn")
        ok, r = run(rec, "rdn-refused", lambda: P.prepare_relative_distinguished_name(text, **({bad: True} if bad else {})), text=text)
        if not ok:
            continue
        raw = der(r)
        node = tlv.parse(raw)
        got = sorted((x5.find_oid(a.kids[0]), a.kids[1].val.decode()) for a in node.kids)
        want = sorted((oids[t], v) for t, v in vals)
        _, e = attempt(lambda: P.validate_relative_name_for_correct_data_types(dec(raw, rfc5280.RelativeDistinguishedName())))
        if bad is None:
            rec.check(got == want, "rdn-text", f"{text!r} became {got!r}", text=text)
            rec.check(e is None, "rdn-valid-refused", f"{text!r}: {e!r}", text=text)
        else:
            rec.check([o for o, _ in got] == [o for o, _ in want], "rdn-types", f"{text!r}, {bad}: {got!r}", text=text)
            rec.check(e is not None, "rdn-bad-accepted", f"{text!r}, {bad} counts as correct", text=text, rdn=raw)


# -- names --------------------------------------------------------------------------------------------------
def change_name(rng, node):
    """(kind, changed copy) of a name; one single change."""
    n = tlv.copy(node)
    kind = rng.choice(["char", "case", "longer", "type", "string", "drop", "add", "swap", "double", "merge"])
    if kind in ("char", "case", "longer", "type", "string"):
        a = rng.choice(rng.choice(n.kids).kids)
        if kind == "char":
            i = rng.randrange(len(a.kids[1].val))
            v = bytearray(a.kids[1].val)
            if v[i] > 0x7e:
                return None, None
            v[i] = v[i] + 1 if v[i] != 0x7e else 0x20
            a.kids[1].val = bytes(v)
        elif kind == "case":
            v = a.kids[1].val.swapcase()
            if v == a.kids[1].val:
                return None, None
            a.kids[1].val = v
        elif kind == "longer":
            a.kids[1].val += rng.choice([b" ", b"x", b"\x00"])
        elif kind == "type":
            new = rng.choice([o for o in SHOWN if o != x5.find_oid(a.kids[0])])
            a.kids[0] = oid(new)
        else:
            if not a.kids[1].val.isascii():
                return None, None
            a.kids[1].tag = b"\x0c" if a.kids[1].tag != b"\x0c" else b"\x13"
    elif kind == "drop":
        del n.kids[rng.randrange(len(n.kids))]
    elif kind == "add":
        n.kids.insert(rng.randrange(len(n.kids) + 1), set_(x5.attr(rng, rng.choice(sorted(x5.DN_TYPES)))))
    elif kind == "swap":
        if len(n.kids) < 2:
            return None, None
        i, j = rng.sample(range(len(n.kids)), 2)
        n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
    elif kind == "double":
        n.kids.append(tlv.copy(rng.choice(n.kids)))
    else:
        if len(n.kids) < 2:
            return None, None
        a, b = n.kids[0], n.kids[1]
        n.kids[:2] = [set_(*a.kids, *b.kids)]
    for r in n.kids:
        r.kids.sort(key=tlv.dump)
    if tlv.dump(n) == tlv.dump(node):
        return None, None
    return kind, n


def attrs(node):
    return {tlv.dump(a) for r in node.kids for a in r.kids}


def placed(node):
    return {(i, tlv.dump(a)) for i, r in enumerate(node.kids) for a in r.kids}


def as_names(rng, node, strict):
    """The same name as another object: decoded, tagged, from a certificate, made by the suite's own functions."""
    from pyasn1_alt_modules import rfc4211, rfc5280, rfc9480
    from resources import prepareutils as P
    raw = tlv.dump(node)
    n = name_of(raw)
    way = rng.choice(["decoded", "decoded", "re-encoded", "copied", "tagged", "rfc5280", "built"])
    if way == "re-encoded":
        n = name_of(der(n))
    elif way == "rfc5280":
        n = dec(raw, rfc5280.Name())
    elif way == "copied":
        m = rfc9480.Name()
        m["rdnSequence"] = n["rdnSequence"]
        n = m
    elif way == "tagged" and not strict:
        t = rfc4211.CertTemplate()
        t["subject"]["rdnSequence"] = n["rdnSequence"]
        if rng.random() < 0.5:
            t = dec(der(t), rfc4211.CertTemplate())
        n = t["subject"]
    elif all(len(r.kids) == 1 and r.kids[0].kids[1].tag == b"\x0c" and x5.find_oid(r.kids[0].kids[0]) in ("2.5.4.3", "2.5.4.10", "2.5.4.11") for r in node.kids) and node.kids:
        m = rfc9480.Name()
        for r in node.kids:
            v = r.kids[0].kids[1].val.decode()
            if "," in v or not v:
                return n, way
            m["rdnSequence"].append(P.prepare_relative_distinguished_name(f"{SHOWN[x5.find_oid(r.kids[0].kids[0])]}={v}"))
        return m, "built"
    return n, way


def simple(rng):
    return seq(*[set_(seq(oid(rng.choice(["2.5.4.3", "2.5.4.10", "2.5.4.11"])), x5.text(f"w{rng.randrange(99)}"))) for _ in range(rng.randrange(1, 4))])


def job_names(rec, rounds, budget):
    from pyasn1_alt_modules import rfc5280, rfc9480
    from resources import compareutils as C
    from resources import utils as U
    from resources import prepareutils as P
    rng = rec.rng
    for i in range(rounds):
        if rec.elapsed() > budget:
            break
        a = x5.rnd_name(rng, f"u{rng.randrange(1000)}") if rng.random() < 0.7 else simple(rng)
        if rng.random() < 0.03:
            a = seq()
        kind, b = ("same", tlv.copy(a)) if rng.random() < 0.3 or not a.kids else change_name(rng, a)
        if b is None:
            continue
        if rng.random() < 0.2 and kind != "same":
            k2, c = change_name(rng, b) if b.kids else (None, None)
            if c is not None:
                kind, b = kind + "+" + k2, c
        same = tlv.dump(a) == tlv.dump(b)
        for mode in ("strict", "without_tag", "contains", "contains_seq"):
            for x, y in ((a, b), (b, a)):
                (nx, wx), (ny, wy) = as_names(rng, x, mode == "strict"), as_names(rng, y, mode == "strict")
                want = {"strict": same, "without_tag": same, "contains": attrs(x) <= attrs(y), "contains_seq": placed(x) <= placed(y)}[mode]
                rec.ev("names", mode, kind, wx, wy, x is a, counter="names equal" if want else "names differ")
                ok, got = run(rec, "names-exception:" + mode, lambda: C.compare_pyasn1_names(nx, ny, mode), first=tlv.dump(x), second=tlv.dump(y), ways=f"{wx} {wy}")
                if ok:
                    rec.check(got is want, f"names:{mode}:{'differ' if want is False else 'equal'}", f"{mode}, {kind} ({wx}, {wy}): {got!r}",
                              first=tlv.dump(x), second=tlv.dump(y))
        if not rng.randrange(20):
            _, e = attempt(lambda: C.compare_pyasn1_names(name_of(tlv.dump(a)), name_of(tlv.dump(b)), rng.choice(["x", "STRICT ", "equal", ""])))
            rec.check(isinstance(e, ValueError), "names-mode", f"an unknown mode: {e!r}")
        # relative names
        rdn = rng.choice((a if rng.random() < 0.5 or not b.kids else b).kids) if a.kids else set_(x5.attr(rng, "O"))
        r = dec(tlv.dump(rdn), rfc5280.RelativeDistinguishedName())
        if rng.random() < 0.3:
            dp = rfc5280.DistributionPointName().subtype(implicitTag=None) if False else rfc5280.DistributionPointName()
            dp["nameRelativeToCRLIssuer"].extend(r)
            r = dp["nameRelativeToCRLIssuer"]
        want = tlv.dump(rdn) in [tlv.dump(k) for k in b.kids]
        rec.ev("rdn in name", kind, want, len(rdn.kids), counter="general")
        got = C.find_rel_dis_name_in_name(r, as_names(rng, b, False)[0])
        rec.check(got is want, "rdn-in-name", f"{kind}: {got!r}", rdn=tlv.dump(rdn), name=tlv.dump(b))
        # empty names
        got = C.is_null_dn(as_names(rng, b, False)[0])
        rec.ev("null", not b.kids, counter="general")
        rec.check(got is (not b.kids), "null-dn", f"{got!r}", name=tlv.dump(b))
        # general names
        url = f"https://ca{rng.randrange(9)}.example/x"
        shown = U.get_openssl_name_notation(name_of(tlv.dump(b)))
        gens = []
        for _ in range(rng.randrange(1, 4)):
            k = rng.choice(["directoryName", "directoryName", "rfc822Name", "uniformResourceIdentifier"])
            if k == "directoryName":
                x = rng.choice([a, b])
                gens.append((k, rfc9480.GeneralName(), tlv.dump(tagged(4, tlv.copy(x))), tlv.dump(x) == tlv.dump(b)))
            elif k == "rfc822Name":
                v = rng.choice([shown, "a@b", U.get_openssl_name_notation(name_of(tlv.dump(a)))])
                if not v.isascii() or not shown.isascii():
                    continue
                gens.append((k, None, tlv.dump(x5.prim(1, v.encode())), v == shown))
            else:
                v = rng.choice([url, url + "y", url[:-1], url.upper()])
                gens.append((k, None, tlv.dump(x5.prim(6, v.encode())), v == url))
        nb = name_of(tlv.dump(b))
        for k, _, raw, want in gens:
            g = dec(raw, rfc9480.GeneralName())
            rec.ev("general", k, want, kind, counter="general")
            got = C.compare_general_name_and_name(g, nb, url)
            rec.check(got is want, "general-name:" + k, f"{k}: {got!r}", general=raw, name=tlv.dump(b), url=url)
        if gens:
            gs = dec(tlv.dump(seq(*[tlv.parse(x[2]) for x in gens])), rfc9480.GeneralNames())
            want = any(x[3] for x in gens)
            got = C.find_name_inside_general_names(gs, nb, url)
            rec.ev("general names", len(gens), want, counter="general")
            rec.check(got is want, "general-names", f"{[x[0] for x in gens]}: {got!r}", names=der(gs), name=tlv.dump(b))
            # the name as GeneralName and back
            g = P.prepare_general_name_from_name(name_of(tlv.dump(b)))
            rec.check(der(g) == tlv.dump(tagged(4, tlv.copy(b))), "general-from-name", "another name", name=tlv.dump(b), general=der(g))
            rec.check(C.compare_general_name_and_name(g, nb) is True, "general-from-name-differs", "not the name it was made from", name=tlv.dump(b))
        if not rng.randrange(10):
            raw = tlv.dump(rng.choice([x5.prim(2, b"a.b"), x5.prim(7, b"\1\2\3\4"), x5.prim(8, b"\x2a\x03")]))
            _, e = attempt(lambda: C.compare_general_name_and_name(dec(raw, rfc9480.GeneralName()), nb))
            rec.check(isinstance(e, NotImplementedError), "general-unsupported", f"{raw.hex()}: {e!r}")
        algs(rec, rng)


def algs(rec, rng):
    from pyasn1_alt_modules import rfc5280, rfc5652, rfc9480
    from resources import compareutils as C
    oids = ["1.2.840.113549.1.1.11", "1.2.840.10045.4.3.2", "2.16.840.1.101.3.4.2.1", "1.3.101.112"]
    params = [None, Node(b"\x05", False, b""), seq(oid("1.2.840.10045.3.1.7")), oid("1.2.840.10045.3.1.7"), oid("1.3.132.0.34"), octets(b"\1\2"), seq()]

    def one():
        return rng.choice(oids), rng.choice(params)
    a = one()
    b = rng.choice([a, (a[0], rng.choice(params)), (rng.choice(oids), a[1]), one()])

    def obj(x):
        raw = tlv.dump(seq(oid(x[0]), *([tlv.copy(x[1])] if x[1] else [])))
        if rng.random() < 0.5:
            return dec(raw, rfc9480.AlgorithmIdentifier()), raw
        if rng.random() < 0.5:
            return dec(raw, rfc5652.KeyEncryptionAlgorithmIdentifier()), raw
        t = rfc9480.PKIHeader()["protectionAlg"]
        v = dec(raw, rfc5280.AlgorithmIdentifier())
        t["algorithm"] = v["algorithm"]
        if x[1]:
            t["parameters"] = v["parameters"]
        return t, raw
    (x, rx), (y, ry) = obj(a), obj(b)
    want = rx == ry
    rec.ev("alg", a[0] == b[0], params.index(a[1]), params.index(b[1]), counter="alg")
    for p, q in ((x, y), (y, x)):
        ok, got = run(rec, "alg-exception", lambda: C.compare_alg_id_without_tag(p, q), first=rx, second=ry)
        if ok:
            rec.check(got is want, "alg:" + ("equal" if want else "differ"), f"{got!r}", first=rx, second=ry)
    if a[1] is None or params.index(a[1]) > 1:
        got = C.check_if_alg_id_parameters_is_absent(x, allow_null=rng.random() < 0.5)
        rec.check(got is (a[1] is None), "alg-absent", f"{got!r}", alg=rx)
    elif C.check_if_alg_id_parameters_is_absent(x, allow_null=True) is not True:
        rec.violation("alg-null", "NULL is not allowed with allow_null", alg=rx)


# -- templates and requests ---------------------------------------------------------------------------------
def rnd_exts(rng):
    pool = [lambda: ext(x5.KU, x5.key_usage_bits(rng.sample(["digitalSignature", "nonRepudiation", "keyAgreement"], 2)), rng.random() < 0.5),
            lambda: ext(x5.EKU, seq(*[oid(o) for o in rng.sample(x5.EKUS, 2)]), rng.random() < 0.3),
            lambda: ext(x5.SAN, seq(x5.general_name(rng), x5.general_name(rng))),
            lambda: ext("1.2.3.4." + str(rng.randrange(1, 5)), octets(bytes([rng.randrange(256)]))),
            lambda: ext(x5.SKI, octets(bytes(rng.randrange(256) for _ in range(20))))]
    return [f() for f in rng.sample(pool, rng.randrange(0, 4))]


def get_ext(e):
    return x5.find_oid(e.kids[0]), e.kids[-1].val


def cert_parts(raw):
    tbs = tlv.parse(raw).kids[0]
    k = tbs.kids
    return {"version": k[0].kids[0], "serial": k[1], "issuer": k[3], "validity": k[4], "subject": k[5], "spki": k[6],
            "exts": k[7].kids[0].kids if len(k) > 7 else []}


def template(fields):
    """CertTemplate of the given fields: {name: node}."""
    kids = []
    for i, f in enumerate(("version", "serial", None, "issuer", "validity", "subject", "spki", None, None, "exts")):
        if f not in fields:
            continue
        v = fields[f]
        if f in ("version", "serial"):
            kids.append(x5.prim(i, v.val))
        elif f in ("issuer", "subject"):
            kids.append(tagged(i, tlv.copy(v)))
        elif f == "validity":
            kids.append(tagged(i, *[tagged(j, tlv.copy(t)) for j, t in enumerate(v) if t is not None]))
        elif f == "exts":
            kids.append(tagged(i, *[tlv.copy(e) for e in v]))
        else:
            kids.append(tagged(i, *[tlv.copy(x) for x in v.kids]))
    return tlv.dump(seq(*kids))


FIELD = {"version": "version", "serial": "serialNumber", "issuer": "issuer", "validity": "validity", "subject": "subject", "spki": "publicKey", "exts": "extensions"}


def shifted(rng, t):
    import datetime
    fmt = "%y%m%d%H%M%SZ" if t.tag == b"\x17" else "%Y%m%d%H%M%SZ"
    d = datetime.datetime.strptime(t.val.decode(), fmt) + datetime.timedelta(seconds=rng.choice([1, -1, 60, 86400, 3600 * 24 * 300]))
    return x5.time_node(d)


def change_field(rng, f, v):
    if f == "version":
        return integer(rng.choice([0, 1]))
    if f == "serial":
        n = int.from_bytes(v.val, "big")
        return integer(rng.choice([n + 1, n ^ 1 << rng.randrange(90), 1 + n % 256]) or 1)
    if f in ("issuer", "subject"):
        while True:
            _, n = change_name(rng, v)
            if n is not None:
                return n
    if f == "validity":
        out = list(v)
        i = rng.choice([i for i in (0, 1) if out[i] is not None])
        out[i] = shifted(rng, out[i])
        return out
    if f == "spki":
        n = tlv.copy(v)
        if rng.random() < 0.5:
            return p20.key(rng.choice(["ec", "rsa", "ed25519", "ed448"]), rng).spki
        b = bytearray(n.kids[1].val)
        if len(b) < 2:
            return p20.key("ed448", rng).spki
        b[rng.randrange(1, len(b))] ^= 1 << rng.randrange(8)
        n.kids[1].val = bytes(b)
        return n
    out = [tlv.copy(e) for e in v]
    if rng.random() < 0.6 and out:
        e = rng.choice(out)
        b = bytearray(e.kids[-1].val)
        b[-1] ^= 1 << rng.randrange(8)
        e.kids[-1].val = bytes(b)
    else:
        out.append(ext("1.2.3.9." + str(rng.randrange(1, 5)), octets(b"x")))
    return out


def matches(fields, cert, strict, judged):
    p = cert_parts(cert)
    for f in judged:
        if f not in fields:
            continue
        v = fields[f]
        if f in ("version", "serial"):
            ok = int.from_bytes(v.val, "big") == int.from_bytes(p[f].val, "big")
        elif f == "issuer":
            ok = tlv.dump(v) == tlv.dump(p["issuer"])
        elif f == "subject":
            ok = tlv.dump(v) == tlv.dump(p["subject"]) if strict else attrs(v) <= attrs(p["subject"])
        elif f == "validity":
            ok = all(t is None or tlv.dump(t) == tlv.dump(w) for t, w in zip(v, p["validity"].kids))
        elif f == "spki":
            ok = tlv.dump(v) == tlv.dump(p["spki"]) if len(v.kids[1].val) > 1 else tlv.dump(v.kids[0]) == tlv.dump(p["spki"].kids[0])
        else:
            have = {o: val for o, val in map(get_ext, p["exts"])}
            ok = all(have.get(o) == val for o, val in map(get_ext, v))
        if not ok:
            return False
    return True


def job_templates(rec, rounds, budget):
    from pyasn1_alt_modules import rfc4211, rfc6402
    from resources import ca_ra_utils as R
    from resources import compareutils as C
    from resources.certutils import parse_certificate
    from mock_ca.cert_req_handler import CertReqHandler
    rng = rec.rng
    known = []
    for i in range(rounds):
        if rec.elapsed() > budget:
            break
        k = p20.key(rng.choice(["ec", "rsa", "pss", "ed25519", "ed448", "ml-dsa-44"] if rng.random() < 0.3 else ["ec", "ed25519"]), rng)
        ca = p20.key(rng.choice(["ec", "ed25519"]), rng)
        name = x5.rnd_name(rng, f"u{rng.randrange(100)}") if rng.random() < 0.8 else simple(rng)
        c = p20.make(rng, "s", k, f"I{rng.randrange(9)}", ca, ca=False, name=name, ku=None, exts=rnd_exts(rng))
        p = cert_parts(c.raw)
        cert = parse_certificate(c.raw)
        full = {"version": p["version"], "serial": p["serial"], "issuer": p["issuer"], "subject": p["subject"], "spki": p["spki"],
                "validity": rng.choice([p["validity"].kids, [p["validity"].kids[0], None], [None, p["validity"].kids[1]]])}
        if p["exts"]:
            full["exts"] = rng.sample(p["exts"], rng.randrange(1, len(p["exts"]) + 1))
        fields = {f: full[f] for f in full if rng.random() < rng.choice((0.5, 0.9))}
        if "spki" in fields and rng.random() < 0.15:
            fields["spki"] = seq(tlv.copy(p["spki"].kids[0]), Node(b"\x03", False, b"\x00"))
        changed = None
        if rng.random() < 0.65 and fields:
            changed = rng.choice(sorted(fields))
            fields[changed] = change_field(rng, changed, fields[changed])
        raw = template(fields)
        strict = rng.random() < 0.5
        kw, judged = {}, set(FIELD)
        r = rng.random()
        sep = rng.choice([",", ", "])
        if r < 0.25:
            left = rng.sample(sorted(FIELD), rng.randrange(1, 4))
            if changed and rng.random() < 0.5 and changed not in left:
                left.append(changed)
            kw["exclude_fields"] = sep.join(FIELD[f] for f in left)
            judged -= set(left)
        elif r < 0.5:
            take = rng.sample(sorted(FIELD), rng.randrange(1, 4))
            if changed and rng.random() < 0.5 and changed not in take:
                take.append(changed)
            kw["include_fields"] = sep.join(FIELD[f] for f in take)
            judged = set(take)
        want = matches(fields, c.raw, strict, judged)
        t = dec(raw, rfc4211.CertTemplate())
        before = der(t)
        rec.ev("template", changed, strict, tuple(sorted(kw)), tuple(sorted(fields)), counter="template equal" if want else "template differ")
        ok, got = run(rec, "template-exception", lambda: C.compare_cert_template_and_cert(t, cert, strict_subject_validation=strict, **kw), template=raw, certificate=c.raw)
        if ok:
            rec.check(got is want, f"template:{changed}:{'equal' if want else 'differ'}", f"changed {changed}, {kw}, strict {strict}: {got!r}", template=raw, certificate=c.raw)
        rec.check(der(cert) == c.raw and der(t) == before, "template-touched", "the comparison changed its arguments", template=raw)
        # among many
        known = (known + [c])[-6:]
        subj = fields.get("subject")
        key_ = fields.get("spki")
        if subj is not None and (key_ is None or len(key_.kids[1].val) > 1) and changed not in ("spki",):
            want = key_ is not None and any(tlv.dump(cert_parts(x.raw)["subject"]) == tlv.dump(subj) and tlv.dump(cert_parts(x.raw)["spki"]) == tlv.dump(key_) for x in known)
            lst = [x.asn1 for x in rng.sample(known, len(known))]
            for fn, label in ((lambda: CertReqHandler.is_certificate_in_list(t, lst), "is_certificate_in_list"), (lambda: R.cert_template_exists(t, lst), "cert_template_exists")):
                rec.ev("lookup", label, want, changed, counter="lookup")
                ok, got = run(rec, "lookup-exception:" + label, fn, template=raw)
                if ok:
                    rec.check(got is want, f"lookup:{label}", f"changed {changed}: {got!r}", template=raw, certificates=[x.raw.hex() for x in known])
        certs_in(rec, rng, known)
        if not i % 3:
            csrs(rec, rng, C, rfc6402)


def certs_in(rec, rng, known):
    from resources import certutils
    from unit_tests.utils_for_test import compare_pyasn1_objects
    lst = [x.asn1 for x in known]
    x = rng.choice(known)
    raw = bytearray(x.raw)
    how = rng.choice(["same", "serial", "signature", "missing"])
    if how == "serial":
        n = tlv.parse(x.raw)
        n.kids[0].kids[1] = integer(int.from_bytes(n.kids[0].kids[1].val, "big") + 1)
        raw = tlv.dump(n)
    elif how == "signature":
        raw[-1] ^= 1
    elif how == "missing":
        lst = [y for y in lst if y is not x.asn1]
    c = certutils.parse_certificate(bytes(raw))
    rec.ev("cert in list", how, len(lst), counter="lookup")
    want = how == "same"
    got = certutils.cert_in_list(c, lst)
    rec.check(got is want, "cert-in-list", f"{how}: {got!r}", certificate=bytes(raw))
    if how != "missing":
        for a, b in ((c, x.asn1), (x.asn1, c)):
            got, e = attempt(lambda: compare_pyasn1_objects(a, b))
            rec.check(got is want, "objects", f"{how}: {got!r} {e!r}", certificate=bytes(raw))


def csr_of(rng, name, k, exts):
    """PKCS#10 request, signed with the key."""
    attrs_ = [seq(oid("1.2.840.113549.1.9.14"), set_(seq(*exts)))] if exts is not None else []
    inner = []

    def data(alg):
        inner.append(seq(integer(0), tlv.copy(name), k.spki, tagged(0, *attrs_)))
        return tlv.dump(inner[-1])
    sig, alg = k.sign(data, rng)
    return tlv.dump(seq(inner[-1], alg, bits(sig)))


def csrs(rec, rng, C, rfc6402):
    from resources.certutils import parse_certificate
    k, ca = p20.key(rng.choice(["ec", "ed25519", "rsa"]), rng), p20.key("ec", rng)
    name = x5.rnd_name(rng, "c")
    exts = rnd_exts(rng) or None
    c = p20.make(rng, "s", k, "I", ca, ca=False, name=name, ku=None, exts=exts or [])
    p = cert_parts(c.raw)
    exts = p["exts"] if exts else None      # as ordered in the certificate
    n2, k2, e2, how = tlv.copy(name), k, exts, "same"
    r = rng.random()
    if r < 0.2:
        how = "subject"
        _, n2 = change_name(rng, name)
        if n2 is None:
            return
    elif r < 0.4:
        how, k2 = "key", p20.fresh()
    elif r < 0.65 and exts:
        how, e2 = "exts", change_field(rng, "exts", exts)
    elif r < 0.75 and exts:
        how, e2 = "fewer exts", exts[1:] or None
        if e2 is None:
            how = "same"
    raw = csr_of(rng, n2, k2, e2)
    strict = rng.random() < 0.5
    same_subject = tlv.dump(n2) == tlv.dump(name) if strict else attrs(n2) <= attrs(name)
    want = same_subject and k2 is k and (e2 is None or [tlv.dump(e) for e in e2] == [tlv.dump(e) for e in p["exts"]])
    csr = dec(raw, rfc6402.CertificationRequest())
    rec.ev("csr", how, strict, bool(exts), counter="csr" if want else "csr differ")
    ok, got = run(rec, "csr-exception", lambda: C.compare_csr_and_cert(csr, parse_certificate(c.raw), strict), csr=raw, certificate=c.raw)
    if ok:
        rec.check(got is want, f"csr:{how}", f"{how}, strict {strict}: {got!r}", csr=raw, certificate=c.raw)


# -- keys ---------------------------------------------------------------------------------------------------
def own_spki(pub):
    return p17.spki(pub)


def job_keys(rec, algs_, rounds):
    from pyasn1_alt_modules import rfc5280
    from resources import certbuildutils as B
    from resources import compareutils as C
    from resources import keyutils, utils
    from resources.certutils import parse_certificate
    rng = rec.rng
    keys = []
    for alg in algs_:
        for k in p17.keys_of(alg, 2, rng):
            keys.append((alg, k))
        rec.count("algorithms")
    pubs = [(a, k.public_key(), own_spki(k.public_key())) for a, k in keys]
    for r in range(rounds):
        for i, (a, p, raw) in enumerate(pubs):
            again = keyutils.load_public_key_from_spki(dec(raw, rfc5280.SubjectPublicKeyInfo()))
            rec.ev("key", a, "same", counter="key equal")
            rec.check(p == again and again == p and not p != again and not again != p, f"public-equal:{p17.family(a)}", f"{a}: a public key differs from itself loaded again", spki=raw)
            rec.check(p == p and keys[i][1].public_key() == p, f"public-reflexive:{p17.family(a)}", f"{a}: a public key differs from itself", spki=raw)
            rec.check(not (p == raw) and not (p == None) and p != "x", f"public-other:{p17.family(a)}", f"{a}: equal to something that is no key")  # noqa: E711
            for j in rng.sample(range(len(pubs)), min(len(pubs), 12)) + [i ^ 1]:
                b, q, raw2 = pubs[j]
                if i == j or raw == raw2:
                    continue
                rec.ev("key", a, b, counter="key differ")
                rec.check(not p == q and p != q, "public-differ", f"{a}, {b}: different public keys are equal", first=raw, second=raw2)
        for i, (a, k) in enumerate(keys):
            if not isinstance(k, p17_wrapper()):
                continue
            rec.ev("private", a, "same", counter="key equal")
            rec.check(k == k and not k != k, f"private-reflexive:{p17.family(a)}", f"{a}: a private key differs from itself")
            if p17.family(a) not in ("hss",):
                again, e = attempt(lambda: p17.load_der(p17.save(k)))
                if e is None:
                    rec.check(k == again and again == k, f"private-equal:{p17.family(a)}", f"{a}: a private key differs from itself saved and loaded")
            for j in rng.sample(range(len(keys)), min(len(keys), 6)) + [i ^ 1]:
                b, q = keys[j]
                if i != j:
                    rec.ev("private", a, b, counter="key differ")
                    rec.check(not k == q and k != q, "private-differ", f"{a}, {b}: different private keys are equal")
        # collections
        for i, (a, k) in enumerate(keys):
            lst = [q for j, (_, q) in enumerate(keys) if j != i and rng.random() < 0.5]
            present = rng.random() < 0.5
            if present:
                other, e = attempt(lambda: p17.load_der(p17.save(k))) if p17.family(a) not in ("hss", "dh") else (None, None)
                lst.insert(rng.randrange(len(lst) + 1), other if other is not None and rng.random() < 0.7 else k)
            rec.ev("private in list", a, present, counter="lookup")
            ok, got = run(rec, "key-in-list-exception", lambda: utils.check_if_private_key_in_list(lst, k))
            if ok:
                rec.check(got is present, "key-in-list", f"{a}: {got!r} where it is {'' if present else 'not '}there")
        # certificates
        for i, (a, p, raw) in enumerate(pubs):
            if a in ("dh", "rsa-kem"):      # the key of an rsa-kem certificate is an RSA key
                continue
            K = type("K", (), {})()
            K.spki = tlv.parse(raw)
            c = p20.make(rng, "k", K, "I", p20.key("ec", rng), ca=False)
            cert = parse_certificate(c.raw)
            j = rng.choice([j for j in range(len(pubs)) if j != i and pubs[j][0] not in ("dh", "rsa-kem")] + [i ^ 1] * 3)
            rec.ev("certificate key", a, counter="spki")
            forms = [("public", p), ("private", keys[i][1]), ("spki", dec(raw, rfc5280.SubjectPublicKeyInfo()))]
            for form, v in forms:
                _, e = attempt(lambda: C.validate_certificate_public_key(cert, v))
                rec.check(e is None, f"certificate-key-refused:{form}", f"{a}: {e!r}", certificate=c.raw)
            for form, v in (("public", pubs[j][1]), ("private", keys[j][1]), ("spki", dec(pubs[j][2], rfc5280.SubjectPublicKeyInfo()))):
                _, e = attempt(lambda: C.validate_certificate_public_key(cert, v))
                rec.ev("certificate of", a, pubs[j][0], form, counter="key differ")
                rec.check(isinstance(e, ValueError), f"certificate-key-accepted:{form}", f"the key of {pubs[j][0]} for a certificate with {a}: {e!r}", certificate=c.raw)
            if keys[j][1] is not None and not rng.randrange(2):
                for v, want in ((keys[i][1], True), (keys[j][1], False)):
                    got, e = attempt(lambda: utils.is_certificate_and_key_set(cert, v))
                    rec.check((got is True) if want else isinstance(e, ValueError), "pair", f"{a}/{pubs[j][0]}: {got!r} {e!r}", certificate=c.raw)
            # key identifiers
            bits_ = tlv.parse(raw).kids[1].val[1:]
            import hashlib
            ski = hashlib.sha1(bits_).digest()
            bad = bytearray(ski)
            bad[rng.randrange(20)] ^= 1 << rng.randrange(8)
            for val, want in ((ski, True), (bytes(bad), False), (ski[:-1], False), (ski + b"\0", False)):
                from resources.certutils import parse_certificate as pc
                cc = pc(p20.make(rng, "k", K, "I", p20.key("ec", rng), ca=False, ski=val).raw)
                got, e = attempt(lambda: B.compare_ski_value(cc, None))
                rec.ev("ski", a, want, len(val), counter="lookup")
                rec.check(got is want, "ski", f"{a}: {got!r} {e!r}, expected {want}")


def p17_wrapper():
    from pq_logic.keys.abstract_wrapper_keys import WrapperPrivateKey
    return WrapperPrivateKey


def job_twins(rec, rounds):
    """The same bytes under another parameter set are another key."""
    from pq_logic.keys.kem_keys import FrodoKEMPublicKey
    from pq_logic.keys.sig_keys import SLHDSAPublicKey
    rng = rec.rng
    slh = sorted(p17.SLH_LEN)
    groups = {}
    for n in slh:
        groups.setdefault(n[-4:-1], []).append(n)
    for _ in range(rounds):
        for g, ns in groups.items():
            a, b = rng.sample(ns, 2)
            raw = bytes(rng.randrange(256) for _ in range(int(g) // 4))
            p, q, p2 = SLHDSAPublicKey(a, raw), SLHDSAPublicKey(b, raw), SLHDSAPublicKey(a, raw)
            rec.ev("twins", a, b, counter="key differ")
            rec.check(p != q and not p == q, "twins:slh-dsa", f"{a} and {b} with the same bytes are equal")
            rec.check(p == p2, "twins-same", f"{a}: the same bytes differ")
            rec.count("key equal")
        for n, size in ((640, 9616), (976, 15632), (1344, 21520)):
            raw = bytes(size)
            p, e1 = attempt(lambda: FrodoKEMPublicKey(f"frodokem-{n}-aes", raw))
            q, e2 = attempt(lambda: FrodoKEMPublicKey(f"frodokem-{n}-shake", raw))
            if e1 or e2:
                continue
            rec.ev("twins", n, counter="key differ")
            rec.check(p != q, "twins:frodo", f"FrodoKEM-{n} with AES and SHAKE are equal")


def jobs(tier, seed):
    big = tier == "thorough"
    b = 300 if big else 14
    n = 40000 if big else 2500
    trad, kem, dsa, slh, hyb, frodo, sig = p17.algorithms()
    if big:
        sets = [trad + kem + dsa, [s for s in slh if s.endswith("f")], sig[::2], sig[1::2], hyb[::2], hyb[1::2], ["frodokem-640-aes", "frodokem-640-shake"] + p17.HSS]
    else:
        fast = [s for s in slh if s.endswith("f")]
        sets = [[a for a in trad if a != "dsa"] + kem + dsa, [fast[(seed + i) % len(fast)] for i in (0, 3)] + [sig[(seed * 3 + i) % len(sig)] for i in (0, 5, 9)],
                [hyb[(seed * 5 + i * 4) % len(hyb)] for i in range(4)] + p17.HSS[:1] + ["xwing"]]
    out = [Job("text", job_text, rounds=n, budget=b * 0.6), Job("names-0", job_names, rounds=n, budget=b), Job("names-1", job_names, rounds=n, budget=b)]
    out += [Job(f"templates-{i}", job_templates, rounds=n, budget=b) for i in range(2)]
    out += [Job(f"keys-{i}", job_keys, algs_=s, rounds=6 if big else 1, timeout=3000) for i, s in enumerate(sets)]
    out.append(Job("twins", job_twins, rounds=200 if big else 10))
    return out
