"""P20: chain building and chain validation against generated certificate pools and chains with one defect."""

import datetime
import os

from vlib import tlv, x5
from vlib.core import Job
from vlib.msg import bits, integer, octets
from vlib.x5 import Cert, ext, oid, seq, tagged

RULE = ("case = a pool of certificates (hierarchies, doubled names and keys, cross-certificates, cycles, forged signatures) and an order of it: the chain is compared with "
        "an own model of who issued whom; (length, defect, position, entry point) for chains with one defect or none; (usages wanted, usages present, strictness) for the "
        "key usage functions; CRLs and cross-certificates likewise")
REQUIRED = {"pool": 50, "chain": 50, "root reached": 30, "incomplete": 20, "good chain": 40, "bad chain": 250, "usage": 400, "crl chain": 10, "bad crl": 30,
            "cross": 10, "bad cross": 60, "messages": 30, "revocation": 30}
ASSUMPTIONS = ["a chain of one certificate is only compared with the anchors by certificates_must_be_trusted", "the order of the intermediate certificates given to the validation, and extra ones among them, are not judged",
               "chains with post-quantum certificates are built, but not validated with openssl, which cannot read them"]
NOTE = "own model of the certificate pool; chains constructed with exactly one defect"

ECDSA = {"sha256": "1.2.840.10045.4.3.2", "sha384": "1.2.840.10045.4.3.3", "sha512": "1.2.840.10045.4.3.4"}
RSA = {"sha256": "1.2.840.113549.1.1.11", "sha384": "1.2.840.113549.1.1.12", "sha512": "1.2.840.113549.1.1.13"}
OTHER = {"ed25519": "1.3.101.112", "ed448": "1.3.101.113", "ml-dsa-44": "2.16.840.1.101.3.4.3.17"}
NC = "2.5.29.30"
KEYS = {}


class K:
    """A key: how it signs, and its public key."""
    count = 0

    def __init__(self, key, alg):
        from checks import p17
        self.key, self.alg = key, alg
        self.spki = tlv.parse(p17.spki(key.public_key()))
        K.count += 1
        self.id = K.count

    def sign(self, data, rng):
        from cryptography.hazmat.primitives import hashes
        from cryptography.hazmat.primitives.asymmetric import ec, padding
        h = rng.choice(["sha256", "sha384", "sha512"])
        hh = getattr(hashes, h.upper())()
        if self.alg == "ec":
            return self.key.sign(data(seq(oid(ECDSA[h]))), ec.ECDSA(hh)), seq(oid(ECDSA[h]))
        if self.alg == "rsa":
            a = seq(oid(RSA[h]), tlv.Node(b"\x05", False, b""))
            return self.key.sign(data(a), padding.PKCS1v15(), hh), a
        if self.alg == "pss":
            ho = {"sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}[h]
            alg = seq(oid(ho), tlv.Node(b"\x05", False, b""))
            a = seq(oid("1.2.840.113549.1.1.10"), seq(tagged(0, alg), tagged(1, seq(oid("1.2.840.113549.1.1.8"), tlv.copy(alg))), tagged(2, integer(hh.digest_size))))
            return self.key.sign(data(a), padding.PSS(padding.MGF1(hh), hh.digest_size), hh), a
        a = seq(oid(OTHER[self.alg]))
        return self.key.sign(data(a)), a


def key(alg, rng, n=4):
    """One of n keys of a type, made once per process."""
    from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa
    i = rng.randrange(n if alg not in ("rsa", "pss", "ml-dsa-44") else 2)
    if (alg, i) not in KEYS:
        if alg in ("rsa", "pss"):
            k = rsa.generate_private_key(65537, 2048)
        elif alg == "ec":
            k = ec.generate_private_key(rng.choice([ec.SECP256R1(), ec.SECP384R1(), ec.SECP521R1()]))
        elif alg == "ed25519":
            k = ed25519.Ed25519PrivateKey.generate()
        elif alg == "ed448":
            k = ed448.Ed448PrivateKey.generate()
        else:
            from resources.keyutils import generate_key
            k = generate_key(alg)
        KEYS[(alg, i)] = K(k, alg)
    return KEYS[(alg, i)]


def fresh(alg="ec"):
    from cryptography.hazmat.primitives.asymmetric import ec
    return K(ec.generate_private_key(ec.SECP256R1()), alg)


class C:
    """A certificate of the model."""

    def __init__(self, raw, subject, key, issuer, signer, valid=True):
        self.raw, self.subject, self.key, self.issuer, self.signer, self.valid = raw, subject, key, issuer, signer, valid
        self._asn1 = None

    @property
    def asn1(self):
        from resources.certutils import parse_certificate
        if self._asn1 is None:
            self._asn1 = parse_certificate(self.raw)
        return self._asn1

    def by(self, other):
        return self.valid and self.issuer == other.subject and self.signer is other.key

    @property
    def own(self):
        return self.by(self)


def now():
    return datetime.datetime.now(datetime.timezone.utc)


def make(rng, subject, key_, issuer, signer, ca=True, valid=True, pathlen=None, ku="default", bc="default", exts=(), times=None, ski=None, aki=None, name=None,
         outer=None, serial=None):
    days = datetime.timedelta(days=1)
    t = times or (now() - days * rng.randrange(2, 400), now() + days * rng.randrange(2, 400))
    e = list(exts)
    if bc == "default":
        if ca:
            e.append(ext(x5.BC, seq(x5.boolean(True), *([integer(pathlen)] if pathlen is not None else [])), True))
    elif bc is not None:
        e.append(bc)
    if ku == "default":
        ku = rng.choice([None, ["keyCertSign", "cRLSign"], ["keyCertSign", "digitalSignature", "cRLSign"]]) if ca else rng.choice([None, ["digitalSignature"]])
    if ku:
        e.append(ext(x5.KU, x5.key_usage_bits(ku), True))
    if ski is not None:
        e.append(ext(x5.SKI, octets(ski)))
    if aki is not None:
        e.append(ext(x5.AKI, seq(x5.prim(0, aki))))
    rng.shuffle(e)
    serial = serial or rng.randrange(1, 2**100)
    inner = []

    def data(alg):
        inner.append(seq(tagged(0, integer(2)), integer(serial), alg, x5.simple_name(issuer), seq(x5.time_node(t[0]), x5.time_node(t[1])),
                         name or x5.simple_name(subject), key_.spki, *([tagged(3, seq(*e))] if e else [])))
        return tlv.dump(inner[-1])
    sig, alg = signer.sign(data, rng)
    if not valid:
        sig = broken(sig, rng)
    return C(tlv.dump(seq(inner[-1], outer or alg, bits(sig))), subject, key_, issuer, signer, valid)


def broken(sig, rng):
    b = bytearray(sig)
    b[rng.randrange(len(b) // 2, len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)


# -- building ---------------------------------------------------------------------------------------------
def pool(rng):
    """(the certificate to start with, the others)"""
    algs = ["ec", "ec", "rsa", "pss", "ed25519", "ed448"] + (["ml-dsa-44"] if rng.random() < 0.1 else [])

    def k():
        return key(rng.choice(algs), rng)
    shape = rng.choice(["line", "line", "names", "cross", "cycle", "rollover", "forged", "any", "any", "any"])
    out = []
    tag = f"{rng.randrange(10**6)}"
    if shape in ("line", "names", "forged", "rollover"):
        n = rng.randrange(0, 6)
        nodes = [(f"R{tag}", k())] + [(f"I{i} {tag}", k()) for i in range(n)]
        out.append(make(rng, *nodes[0], *nodes[0]))
        for a, b in zip(nodes, nodes[1:]):
            out.append(make(rng, *b, *a))
        ee = make(rng, f"E{tag}", k(), *nodes[-1], ca=False)
        if shape == "names":        # the same names with other keys, and the same keys with other names
            for name, kk in nodes:
                for _ in range(rng.randrange(3)):
                    other = k()
                    if other is not kk:
                        out.append(make(rng, name, other, *rng.choice(nodes)))
                    out.append(make(rng, name + "x", kk, *rng.choice(nodes)))
        if shape == "forged":
            for (a, b) in list(zip(nodes, nodes[1:])) + [(nodes[0], nodes[0])]:
                if rng.random() < 0.7:
                    out.append(make(rng, *b, *a, valid=False))
                    out.append(make(rng, *b, a[0], rng.choice(nodes)[1]))
            if rng.random() < 0.3 and len(out) > 1:       # a link is missing
                del out[rng.randrange(len(nodes))]
        if shape == "rollover":     # self-issued, not self-signed
            name, kk = nodes[rng.randrange(len(nodes))]
            new = k()
            out.append(make(rng, name, new, name, kk))
            if rng.random() < 0.5:
                out.append(make(rng, name, new, name, new))
            if rng.random() < 0.5:
                out.append(make(rng, name, kk, name, new))
            if rng.random() < 0.7:
                ee = make(rng, f"E{tag}", k(), name, new, ca=False)
            if rng.random() < 0.4:
                out = [c for c in out if not (c.own and rng.random() < 0.7)]
    else:
        nodes = [(f"{i} {tag}", k()) for i in range(rng.randrange(2, 6))]
        if shape == "cycle":
            for a, b in zip(nodes, nodes[1:] + nodes[:1]):
                out.append(make(rng, *b, *a))
            for x in nodes:
                if rng.random() < 0.25:
                    out.append(make(rng, *x, *x))
        elif shape == "cross":
            for x in nodes:
                if rng.random() < 0.6:
                    out.append(make(rng, *x, *x))
                for y in nodes:
                    if x is not y and rng.random() < 0.5:
                        out.append(make(rng, *x, *y))
        else:
            for _ in range(rng.randrange(1, 12)):
                x, y = rng.choice(nodes), rng.choice(nodes)
                s = rng.choice(nodes)[1] if rng.random() < 0.1 else y[1]
                out.append(make(rng, *x, y[0], s, valid=rng.random() < 0.9))
        ee = make(rng, f"E{tag}", k(), *rng.choice(nodes), ca=False) if rng.random() < 0.8 or not out else rng.choice(out)
    if rng.random() < 0.2:          # not part of anything
        x = (f"X{tag}", k())
        out.append(make(rng, *x, *x))
    if rng.random() < 0.2 and out:
        out.append(rng.choice(out))
    if rng.random() < 0.3:
        out.append(ee)
    rng.shuffle(out)
    return shape, ee, out


def reach(ee, certs):
    """A self-signed certificate can be reached."""
    seen, todo = set(), [ee]
    while todo:
        c = todo.pop()
        if c.own:
            return True
        seen.add(c.raw)
        todo += [p for p in certs if p.raw not in seen and c.by(p)]
    return False


def judge(rec, what, ee, certs, chain, art):
    from vlib.ca import der
    by_raw = {c.raw: c for c in certs + [ee]}
    raws = [der(c) for c in chain]
    rec.count("chain")
    if not rec.check(raws and raws[0] == ee.raw, "start", f"{what}: does not start with the certificate", **art):
        return
    if not rec.check(all(r in by_raw for r in raws), "foreign", f"{what}: a certificate that was not in the pool", **art):
        return
    model = [by_raw[r] for r in raws]
    rec.check(len(set(raws)) == len(raws), "twice", f"{what}: a certificate is twice in the chain", **art)
    for i, (a, b) in enumerate(zip(model, model[1:])):
        rec.check(a.by(b), "link", f"{what}: certificate {i} was not issued by certificate {i + 1}", **art)
        rec.check(not a.own, "beyond", f"{what}: goes on after a self-signed certificate", **art)
    last = model[-1]
    if not last.own:
        rec.count("incomplete")
        rec.check(not any(last.by(p) for p in certs if p.raw not in raws), "short", f"{what}: ends although the next certificate is there", **art)
        rec.check(not reach(ee, certs), "no-root", f"{what}: does not reach the self-signed certificate that can be reached", **art)
    else:
        rec.count("root reached")


def job_build(rec, rounds, budget):
    from vlib import ca
    from resources import ca_ra_utils, certutils, cmputils, utils
    rng = rec.rng
    for i in range(rounds):
        if rec.elapsed() > budget:
            break
        shape, ee, certs = pool(rng)
        rec.ev(shape, len(certs), i % 50, counter="pool")
        art = dict(start=ee.raw, **{f"cert{j}": c.raw for j, c in enumerate(certs)})
        what = f"{shape} of {len(certs)}"
        asn1 = [c.asn1 for c in certs]
        got = attempt(lambda: certutils.build_chain_from_list(ee.asn1, asn1))
        if rec.check(not isinstance(got, Exception), "build-error", f"{what}: {got!r:.200}", **art):
            judge(rec, what, ee, certs, got, art)
        rec.check(len(asn1) == len(certs), "pool-changed", f"{what}: the list of the caller was changed", **art)
        got = attempt(lambda: certutils.build_chain_from_list(ee.asn1, asn1, must_be_self_signed=True))
        if reach(ee, certs):
            if rec.check(not isinstance(got, Exception), "must-root", f"{what}: no chain with a self-signed end: {got!r:.200}", **art):
                judge(rec, what, ee, certs, got, art)
        else:
            rec.check(isinstance(got, ValueError), "must-root", f"{what}: a chain that must have a self-signed end has none", **art)
        # the other ways in
        r = rng.random()
        if r < 0.35:
            m = cmputils.prepare_pki_message(sender="CN=a", recipient="CN=b")
            m["body"] = ca_ra_utils.prepare_ca_body("ip", responses=ca_ra_utils.prepare_cert_response(cert=ee.asn1, cert_req_id=0))
            extra, pubs = certs, []
            if certs and rng.random() < 0.6:
                n = rng.randrange(len(certs))
                extra, pubs = certs[n:], certs[:n]
            if pubs:
                m["body"]["ip"]["caPubs"].extend([c.asn1 for c in pubs])
            if extra:
                m["extraCerts"].extend([c.asn1 for c in extra])
                m = ca.parse(ca.der(m))
                got = attempt(lambda: certutils.build_cmp_chain_from_pkimessage(m, for_issued_cert=True))
                rec.count("messages")
                if rec.check(not isinstance(got, Exception), "build-error", f"{what}, issued certificate of a message: {got!r:.200}", **art):
                    judge(rec, what + ", issued certificate of a message", ee, certs, got, art)
        elif r < 0.7:
            m = cmputils.prepare_pki_message(sender="CN=a", recipient="CN=b")
            m["extraCerts"].extend([ee.asn1] + [c.asn1 for c in certs])
            got = attempt(lambda: certutils.build_cmp_chain_from_pkimessage(m, last_cert_is_self_signed=r < 0.5))
            rec.count("messages")
            if r < 0.5 and not reach(ee, certs):
                rec.check(isinstance(got, ValueError), "must-root", f"{what}, message: a chain that must have a self-signed end has none", **art)
            elif rec.check(not isinstance(got, Exception), "build-error", f"{what}, message: {got!r:.200}", **art):
                judge(rec, what + ", message", ee, certs, got, art)
        elif r < 0.85:
            d = folder(i)
            for j, c in enumerate(certs):
                utils.write_cmp_certificate_to_pem(c.asn1, f"{d}/{j}.pem")
            must = rng.random() < 0.5
            got = attempt(lambda: certutils.build_cert_chain_from_dir(ee.asn1, d, root_dir=None, must_be_complete=must))
            rec.count("folders")
            if must and not reach(ee, certs):
                rec.check(isinstance(got, ValueError), "must-root", f"{what}, folder: a chain that must have a self-signed end has none", **art)
            elif rec.check(not isinstance(got, Exception), "build-error", f"{what}, folder: {got!r:.200}", **art):
                judge(rec, what + ", folder", ee, certs, got, art)


def folder(i):
    import shutil
    d = os.path.abspath(f"p20-pool-{i % 3}")
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def attempt(fn):
    try:
        return fn()
    except Exception as e:  # noqa: BLE001
        return e


# -- validation ---------------------------------------------------------------------------------------------
def line(rng, n, at=None, defect=None, usage=("digitalSignature",), crl=False):
    """A chain of n certificates, leaf first; the certificate at an index is made with a defect."""
    algs = ["ec", "ec", "rsa", "pss", "ed25519"]
    tag = f"{rng.randrange(10**9)}"
    ks = [key(rng.choice(algs), rng, 6) for _ in range(n)]
    names = [f"{i} {tag}" for i in range(n)]
    days = datetime.timedelta(days=1)
    out = []
    for i in range(n):
        j = min(i + 1, n - 1)
        kw = dict(ca=i > 0)
        if i == 0 and n > 1:
            kw["ku"] = list(usage) if usage else None
        elif i:
            kw["ku"] = rng.choice([None, ["keyCertSign", "cRLSign"] if crl else ["keyCertSign"], ["keyCertSign", "digitalSignature", "cRLSign"]])
            if rng.random() < 0.4:
                kw["pathlen"] = i - 1 + rng.randrange(3)
        else:
            kw["ca"] = True
            kw["ku"] = list(usage) + ["keyCertSign"] if usage else None
        signer, issuer = ks[j], names[j]
        if at == i:
            if defect == "signature":
                kw["valid"] = False
            elif defect == "signed by another key":
                signer = fresh()
            elif defect == "another issuer":
                issuer += "x"
            elif defect == "expired":
                kw["times"] = (now() - days * 50, now() - days * rng.choice([1, 1, 3]))
            elif defect == "not yet valid":
                kw["times"] = (now() + days * rng.choice([1, 1, 3]), now() + days * 50)
            elif defect == "not a CA":
                kw["bc"] = ext(x5.BC, seq(), True)
            elif defect == "no basic constraints":
                kw["bc"], kw["ku"] = None, None
            elif defect == "may not sign certificates":
                kw["ku"] = ["digitalSignature", "cRLSign"]
            elif defect == "path length":
                kw["pathlen"] = rng.randrange(i - 1)
            elif defect == "unknown critical extension":
                kw["exts"] = [ext(f"1.2.3.{rng.randrange(1000)}", octets(b"x"), True)]
            elif defect == "name constraints":
                kw["exts"] = [ext(NC, seq(tagged(0, seq(x5.prim(2, b"good.example")))), True)]
            elif defect == "excluded name":
                kw["exts"] = [ext(NC, seq(tagged(1, seq(x5.prim(2, b"bad.example")))), True)]
        if i == 0 and defect in ("name constraints", "excluded name"):
            kw["exts"] = [ext(x5.SAN, seq(x5.prim(2, b"www.bad.example")))]
        if i == 0 and defect == "name constraints met":
            kw["exts"] = [ext(x5.SAN, seq(x5.prim(2, b"www.good.example")))]
        if at == i and defect == "name constraints met":
            kw["exts"] = [ext(NC, seq(tagged(0, seq(x5.prim(2, b"good.example")))), True)]
        out.append(make(rng, names[i], ks[i], issuer, signer, **kw))
    return out


DEFECTS = {  # defect: (first index, last index from the end)
    "signature": (0, 2), "signed by another key": (0, 2), "another issuer": (0, 2), "expired": (0, 1), "not yet valid": (0, 1), "not a CA": (1, 1),
    "no basic constraints": (1, 2), "may not sign certificates": (1, 1), "path length": (2, 1), "unknown critical extension": (0, 2),
    "name constraints": (1, 2), "excluded name": (1, 2)}


def job_validate(rec, rounds, budget):
    from resources import certutils, utils
    rng = rec.rng
    nr = [0]

    def anchors(*certs):
        nr[0] += 1
        d = folder(nr[0])
        for j, c in enumerate(certs):
            utils.write_cmp_certificate_to_pem(c.asn1, f"{d}/{j}.pem")
        return d

    def ways(chain, root, extra=()):
        """[(name, call)] that must give one verdict."""
        usage = rng.choice(["digitalSignature", "digitalSignature", None])
        d = anchors(*([root] + list(extra)))
        asn1 = [c.asn1 for c in chain]
        return [("trusted", lambda: certutils.certificates_must_be_trusted(list(asn1), trustanchors=d, allow_os_store=False, key_usages=usage,
                                                                         verbose=rng.random() < 0.1)),
                ("openssl", lambda: certutils.verify_cert_chain_openssl(list(asn1), verbose=rng.random() < 0.1))]

    def good(what, *a, key_="good-chain"):
        for name, fn in ways(*a):
            got = attempt(fn)
            rec.ev(what, name, len(a[0]), counter="good chain")
            rec.check(not isinstance(got, Exception), key_, f"{what} of {len(a[0])} ({name}): {got!r:.300}", **{f"cert{j}": c.raw for j, c in enumerate(a[0])})

    def bad(what, fn, chain, key_="bad-chain"):
        got = attempt(fn)
        rec.ev(what, len(chain), counter="bad chain")
        rec.check(isinstance(got, Exception), key_, f"{what}: accepted", **{f"cert{j}": c.raw for j, c in enumerate(chain)})

    for i in range(rounds):
        if rec.elapsed() > budget:
            break
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        chain = line(rng, n)
        other = line(rng, 1)[0]
        good("chain", chain, chain[-1], [other] if rng.random() < 0.5 else [])
        if n > 2:
            c = line(rng, n, rng.randrange(1, n - 1), "name constraints met")
            good("chain with name constraints", c, c[-1])
        for defect, (lo, hi) in DEFECTS.items():
            if defect in ("expired", "not yet valid") and n == 1:
                lo = 0
            idx = [j for j in range(lo, n - hi + 1)]
            if not idx:
                continue
            at = rng.choice(idx)
            c = line(rng, n, at, defect)
            for name, fn in ways(c, c[-1]):
                # an anchor alone is trusted as it is
                if n > 1 or name == "openssl":
                    bad(f"{defect} at {at} of {n} ({name})", fn, c)
        # anchors
        root = chain[-1]

        def trusted(chain, *roots, usage="digitalSignature", strict=1):
            d = anchors(*roots)
            return lambda: certutils.certificates_must_be_trusted([c.asn1 for c in chain], trustanchors=d, allow_os_store=False, key_usages=usage, key_usage_strict=strict,
                                                                  verbose=False)
        bad(f"root not among the anchors, of {n}", trusted(chain, other), chain)
        twin = make(rng, root.subject, root.key, root.issuer, root.signer)
        bad(f"another certificate with name and key of the root, of {n}", trusted(chain, twin), chain)
        namesake = fresh()
        bad(f"a namesake of the root, of {n}", trusted(chain, make(rng, root.subject, namesake, root.subject, namesake)), chain)
        bad(f"no anchors, of {n}", lambda: certutils.certificates_must_be_trusted([c.asn1 for c in chain], trustanchors=None, allow_os_store=False), chain)
        if n > 1:
            bad(f"the root is missing, of {n}", trusted(chain[:-1], root), chain)
            bad(f"the leaf is the anchor, of {n}", trusted(chain, chain[0]), chain)
        if n > 2:
            j = rng.randrange(1, n - 1)
            c = chain[:j] + chain[j + 1:]
            for name, fn in ways(c, root):
                bad(f"an intermediate is missing, {j} of {n} ({name})", fn, c)
        bad("empty", lambda: certutils.verify_cert_chain_openssl([]), [])
        # key usage of the leaf
        for usage, want, strict, ok in ((("digitalSignature",), "digitalSignature", 1, True), (("keyAgreement",), "digitalSignature", 1, False),
                                        (None, "digitalSignature", 1, True), (None, "digitalSignature", 2, False),
                                        (("digitalSignature", "keyAgreement"), "digitalSignature", 2, True),
                                        (("digitalSignature", "keyAgreement"), "digitalSignature", 3, False), (("digitalSignature",), "digitalSignature", 3, True),
                                        (("nonRepudiation",), "digitalSignature", 2, False), (("nonRepudiation",), "digitalSignature", 0, True),
                                        (("keyAgreement",), "keyAgreement", 1, True), (("digitalSignature",), "keyAgreement", 1, False)):
            if rng.random() < 0.6:
                continue
            if n == 1 and (strict == 3 or not ok):
                continue
            c = line(rng, n, usage=usage)
            got = attempt(trusted(c, c[-1], usage=want, strict=strict))
            rec.ev("leaf usage", usage, want, strict, n, counter="good chain" if ok else "bad chain")
            rec.check(ok != isinstance(got, Exception), "leaf-usage", f"leaf with {usage}, {want} wanted at strictness {strict}, chain of {n}: {got!r:.200}",
                      **{f"cert{j}": x.raw for j, x in enumerate(c)})
        # membership
        some = [line(rng, 1)[0] for _ in range(3)]
        d = anchors(*some[:2])
        for pick, ok in (([some[0]], True), (some[:2], True), (some[:3], False), ([some[2]], False), ([twin], False)):
            got = attempt(lambda: certutils.certificates_are_trustanchors([c.asn1 for c in pick] if len(pick) > 1 or rng.random() < 0.5 else pick[0].asn1, trustanchors=d,
                                                                         allow_os_store=False, verbose=False))
            rec.ev("anchors", len(pick), ok, counter="good chain" if ok else "bad chain")
            rec.check(ok != isinstance(got, Exception), "anchors", f"{len(pick)} certificates, {'all' if ok else 'not all'} of them anchors: {got!r:.200}")
        got = attempt(lambda: certutils.cert_in_list(some[2].asn1, [c.asn1 for c in some[:2]]))
        rec.check(got is False, "member", f"found although not there: {got!r:.100}")
        got = attempt(lambda: certutils.cert_in_list(some[1].asn1, [c.asn1 for c in some]))
        rec.check(got is True, "member", f"not found although there: {got!r:.100}")


# -- key usages, CRLs, cross-certificates ------------------------------------------------------------------------
USAGES = ["digitalSignature", "nonRepudiation", "keyEncipherment", "dataEncipherment", "keyAgreement", "keyCertSign", "cRLSign", "encipherOnly", "decipherOnly"]
CMP_EKU = {"cmcCA": "1.3.6.1.5.5.7.3.27", "cmcRA": "1.3.6.1.5.5.7.3.28", "cmKGA": "1.3.6.1.5.5.7.3.32"}


def job_usage(rec, rounds, budget):
    from resources import certutils
    rng = rec.rng
    k = key("ec", rng)
    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        have = sorted(rng.sample(USAGES, rng.randrange(1, 6)), key=USAGES.index) if rng.random() < 0.9 else None
        c = make(rng, "a", k, "a", k, ca=False, ku=have).asn1
        for _ in range(6):
            want = rng.sample(USAGES, rng.randrange(1, 5))
            if have and rng.random() < 0.4:
                want = rng.sample(have, rng.randrange(1, len(have) + 1))
            if have and rng.random() < 0.2:
                want = rng.sample(have, len(have))
            text = rng.choice([",", ", ", " , "]).join(want)
            s = rng.randrange(4)
            ok = s == 0 or (s == 1 if have is None else set(want) == set(have) if s == 3 else set(want) <= set(have))
            got = attempt(lambda: certutils.validate_key_usage(c, text, rng.choice([s, str(s), ["NONE", "LAX", "STRICT", "ABS_STRICT"][s]])))
            rec.ev("ku", len(want), have is None, s, ok, counter="usage")
            rec.check(ok != isinstance(got, Exception), "usage", f"{text!r} wanted, {have} present, strictness {s}: {got!r:.200}", cert=x_der(c))
            must = rng.random() < 0.5
            ok = not must if have is None else not set(want) & set(have)
            got = attempt(lambda: certutils.must_not_contain_key_usage(c, text, must_be_present=must))
            rec.ev("not", len(want), have is None, must, ok, counter="usage")
            rec.check(ok != isinstance(got, Exception), "usage-not", f"{text!r} forbidden, {have} present: {got!r:.200}", cert=x_der(c))
        have = rng.sample(sorted(CMP_EKU), rng.randrange(4))
        other = [x5.EKUS[rng.randrange(7)]] if rng.random() < 0.4 else []
        none = not have and not other
        oids = [oid(CMP_EKU[x]) for x in have] + [oid(x) for x in other]
        rng.shuffle(oids)
        c = make(rng, "a", k, "a", k, ca=False, exts=[] if none else [ext(x5.EKU, seq(*oids))]).asn1
        for _ in range(4):
            want = rng.sample(sorted(CMP_EKU), rng.randrange(1, 4))
            text = rng.choice([",", ", "]).join(want)
            s = rng.randrange(4)
            ok = s == 0 or (s == 1 if none else set(want) == set(have) and not other if s == 3 else set(want) <= set(have))
            got = attempt(lambda: certutils.validate_cmp_extended_key_usage(c, text, rng.choice([s, str(s)])))
            rec.ev("eku", len(want), len(have), len(other), s, ok, counter="usage")
            rec.check(ok != isinstance(got, Exception), "eku", f"{text!r} wanted, {have} and {other} present, strictness {s}: {got!r:.200}", cert=x_der(c))
        for bc, want in ((None, None), (ext(x5.BC, seq(x5.boolean(True)), True), True), (ext(x5.BC, seq(), True), False),
                         (ext(x5.BC, seq(x5.boolean(True), integer(rng.randrange(9))), True), True)):
            got = attempt(lambda: certutils.is_ca_cert(make(rng, "a", k, "a", k, ca=False, bc=bc).asn1))
            rec.ev("ca", want, counter="usage")
            rec.check(got is want, "is-ca", f"basic constraints {want}: {got!r:.100}")


def x_der(c):
    from vlib.ca import der
    return der(c)


def crl_of(rng, issuer, signer, serials=(), valid=True, times=None):
    t = times or (now() - datetime.timedelta(days=1), now() + datetime.timedelta(days=9))
    got = []

    def data(alg):
        got.append(seq(integer(1), alg, x5.simple_name(issuer), x5.time_node(t[0]), x5.time_node(t[1]),
                       *([seq(*[seq(integer(s), x5.time_node(t[0])) for s in serials])] if serials else [])))
        return tlv.dump(got[-1])
    sig, alg = signer.sign(data, rng)
    return tlv.dump(seq(got[-1], alg, bits(sig if valid else broken(sig, rng))))


def pem(raw):
    import base64
    b = base64.encodebytes(raw).decode()
    return f"-----BEGIN X509 CRL-----\n{b}-----END X509 CRL-----\n".encode()


def job_crl(rec, rounds, budget):
    from resources import certutils
    rng = rec.rng
    from vlib.ca import der
    for i in range(rounds):
        if rec.elapsed() > budget:
            break
        n = rng.randrange(2, 5)
        chain = line(rng, n, crl=True)
        ca = chain[1]
        raw = crl_of(rng, ca.subject, ca.key, [rng.randrange(1, 10**9) for _ in range(rng.randrange(3))])
        crl = certutils.parse_crl(raw)
        cas = chain[1:]
        rng.shuffle(cas)
        namesake = fresh()
        more = [make(rng, ca.subject, namesake, ca.subject, namesake)]
        certs = [c.asn1 for c in cas + more]
        rng.shuffle(certs)
        size = len(certs)
        got = attempt(lambda: certutils.build_crl_chain_from_list(crl, certs, cert_dir=folder(i), allow_os_store=False))
        rec.ev("crl", n, counter="crl chain")
        art = dict(crl=raw, **{f"cert{j}": c.raw for j, c in enumerate(chain)})
        if rec.check(not isinstance(got, Exception), "crl-chain", f"chain of a CRL: {got!r:.200}", **art):
            rec.check([der(c) for c in got] == [raw] + [c.raw for c in chain[1:]], "crl-chain", "the chain of the CRL is not its issuers' chain", **art)
            good = attempt(lambda: certutils.verify_openssl_crl(got))
            rec.check(not isinstance(good, Exception), "crl-verify", f"a good CRL: {good!r:.200}", **art)
        rec.check(len(certs) == size, "list-changed", "the caller's list of certificates was changed", **art)
        for what, bad in (("signature", crl_of(rng, ca.subject, ca.key, valid=False)), ("another key", crl_of(rng, ca.subject, fresh())),
                          ("another name", crl_of(rng, ca.subject + "x", ca.key))):
            b = certutils.parse_crl(bad)
            got = attempt(lambda: certutils.find_crl_signer_cert(b, certs=[c.asn1 for c in chain]))
            rec.ev("bad crl", what, n, counter="bad crl")
            rec.check(isinstance(got, Exception), "bad-crl", f"CRL with a bad {what}: a signer was found", crl=bad)
            got = attempt(lambda: certutils.verify_openssl_crl([b] + [c.asn1 for c in chain[1:]]))
            rec.check(isinstance(got, Exception), "bad-crl-verify", f"CRL with a bad {what}: verified", crl=bad)
        # revocation by a CRL file
        path = os.path.abspath(f"p20-{i % 3}.crl")
        serial = [Cert(c.raw).serial for c in chain]
        others = [rng.randrange(1, 10**12) for _ in range(rng.randrange(4))]
        for revoked in (False, True):
            r = crl_of(rng, ca.subject, ca.key, others + ([serial[0]] if revoked else []) + others[:1])
            with open(path, "wb") as f:
                f.write(r if rng.random() < 0.5 else pem(r))
            got = attempt(lambda: certutils.check_if_cert_is_revoked_crl(chain[0].asn1, crl_file_path=path))
            rec.ev("revocation", revoked, counter="revocation")
            rec.check(isinstance(got, Exception) == revoked, "revoked", f"{'revoked' if revoked else 'not revoked'}: {got!r:.200}", crl=r, cert=chain[0].raw)
            for expected in (False, True):
                got = attempt(lambda: certutils.validate_if_certificate_is_revoked(chain[0].asn1, crl_file_path=path, expected_to_be_revoked=expected))
                rec.check(isinstance(got, Exception) == (revoked != expected), "revoked", f"revoked {revoked}, expected {expected}: {got!r:.200}", crl=r, cert=chain[0].raw)
            with open(path, "wb") as f:
                f.write(pem(r))
            got = attempt(lambda: certutils.verify_cert_chain_openssl([c.asn1 for c in chain], crl_check=True, crl_path=path, verbose=False))
            rec.ev("revocation in the chain", revoked, n, counter="revocation")
            rec.check(isinstance(got, Exception) == revoked, "revoked-chain", f"chain, {'revoked' if revoked else 'not revoked'}: {got!r:.200}", crl=r,
                      **{f"cert{j}": c.raw for j, c in enumerate(chain)})
        for what, r in (("expired", crl_of(rng, ca.subject, ca.key, times=(now() - datetime.timedelta(days=9), now() - datetime.timedelta(days=1)))),
                        ("of another CA", crl_of(rng, "other", fresh())), ("by another key", crl_of(rng, ca.subject, fresh())),
                        ("with a bad signature", crl_of(rng, ca.subject, ca.key, valid=False))):
            with open(path, "wb") as f:
                f.write(pem(r))
            got = attempt(lambda: certutils.verify_cert_chain_openssl([c.asn1 for c in chain], crl_check=True, crl_path=path, verbose=False))
            rec.ev("crl of the chain", what, counter="bad crl")
            rec.check(isinstance(got, Exception), "crl-of-chain", f"chain checked with a CRL {what}: accepted", crl=r)
        if n > 2:
            both = pem(crl_of(rng, ca.subject, ca.key)) + b"".join(pem(crl_of(rng, c.subject, c.key)) for c in chain[2:])
            j = rng.randrange(2, n)
            hit = pem(crl_of(rng, ca.subject, ca.key)) + b"".join(pem(crl_of(rng, c.subject, c.key, [serial[q - 1]] if q == j else [])) for q, c in enumerate(chain) if q > 1)
            for data, bad in ((both, False), (hit, True)):
                with open(path, "wb") as f:
                    f.write(data)
                got = attempt(lambda: certutils.verify_cert_chain_openssl([c.asn1 for c in chain], crl_check_all=True, crl_path=path, verbose=False))
                rec.ev("all revocations", bad, n, counter="revocation")
                rec.check(isinstance(got, Exception) == bad, "revoked-intermediate", f"intermediate {'revoked' if bad else 'not revoked'}: {got!r:.200}")


def job_cross(rec, rounds, budget):
    from resources import certutils
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc4211
    rng = rec.rng
    import hashlib

    def kid(k):
        return hashlib.sha1(k.spki.kids[1].val[1:]).digest()

    for _ in range(rounds):
        if rec.elapsed() > budget:
            break
        a, b = key("ec", rng, 3), key("rsa", rng)
        tag = str(rng.randrange(10**6))
        sub, iss = "sub" + tag, "iss" + tag
        issuer = make(rng, iss, b, iss, b, ski=kid(b))
        base = dict(ski=kid(a), aki=kid(b), ku=["keyCertSign", "cRLSign"])

        def cross(**kw):
            d = dict(base)
            d.update(kw)
            s, kk = d.pop("sub", sub), d.pop("key", a)
            i, sk = d.pop("iss", iss), d.pop("signer", b)
            return make(rng, s, kk, i, sk, **d)

        def template(subject=sub, kk=a, exts=True):
            kids = [tagged(5, x5.simple_name(subject)), tlv.Node(b"\xa6", True, kids=list(kk.spki.kids))]
            if exts:
                kids.append(tlv.Node(b"\xa9", True, kids=[ext(x5.BC, seq(x5.boolean(True)), True)]))
            return decoder.decode(tlv.dump(seq(*kids)), rfc4211.CertTemplate())[0]

        got = attempt(lambda: certutils.validate_ca_cross_signed_cert(cross().asn1, template(), issuer.asn1))
        rec.ev("good", counter="cross")
        rec.check(not isinstance(got, Exception), "cross", f"a good cross-certificate: {got!r:.300}")
        other = fresh()
        cases = {
            "not a CA": (cross(bc=ext(x5.BC, seq(), True)), template(), issuer),
            "no basic constraints": (cross(bc=None), template(), issuer),
            "issuer is not a CA": (cross(), template(), make(rng, iss, b, iss, b, ski=kid(b), bc=ext(x5.BC, seq(), True))),
            "issuer without basic constraints": (cross(), template(), make(rng, iss, b, iss, b, ski=kid(b), bc=None)),
            "own name as issuer": (cross(iss=sub), template(), issuer),
            "the issuer's name as subject": (cross(sub=iss), template(subject=iss), issuer),
            "bad signature": (cross(valid=False), template(), issuer),
            "signed by another key": (cross(signer=other), template(), issuer),
            "no subject key identifier": (cross(ski=None), template(), issuer),
            "the issuer has no subject key identifier": (cross(), template(), make(rng, iss, b, iss, b)),
            "the issuer's subject key identifier": (cross(ski=kid(b)), template(), issuer),
            "another authority key identifier": (cross(aki=kid(other)), template(), issuer),
            "another subject than the template": (cross(), template(subject=sub + "x"), issuer),
            "another key than the template": (cross(), template(kk=other), issuer),
        }
        for what, (c, t, i) in cases.items():
            got = attempt(lambda: certutils.validate_ca_cross_signed_cert(c.asn1, t, i.asn1))
            rec.ev(what, counter="bad cross")
            rec.check(isinstance(got, Exception), "bad-cross", f"cross-certificate: {what}: accepted", cert=c.raw, issuer=i.raw)


def jobs(tier, seed):
    big = tier == "thorough"
    b = 600 if big else 20
    out = [Job(f"build-{i}", job_build, rounds=20000 if big else 400, budget=b, timeout=3000) for i in range(6 if big else 2)]
    out += [Job(f"validate-{i}", job_validate, rounds=20000 if big else 40, budget=b, timeout=3000) for i in range(8 if big else 3)]
    out.append(Job("usage", job_usage, rounds=5000 if big else 100, budget=b, timeout=3000))
    out.append(Job("crl", job_crl, rounds=3000 if big else 25, budget=b, timeout=3000))
    out.append(Job("cross", job_cross, rounds=2000 if big else 30, budget=b, timeout=3000))
    return out
