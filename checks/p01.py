"""P01: message protection verifies for the matching credential only, and over everything it covers."""

from vlib import tlv
from vlib.core import Job

RULE = ("case = (mechanism, body type, mutation kind, mutated field path); mutations of the DER tree of a genuinely "
        "protected message: bit flips/append/truncate/drop/swap/retag of every header, body, algorithm and "
        "protection node, plus wrong credentials. Trivial (not counted): mutations after which header, body and "
        "protection re-encode to the same DER, and those the decoder refuses")
REQUIRED = {"positive": 40, "mutated_rejected": 400, "wrong_credential_rejected": 60, "protection_mutated": 60,
            "alg_param_mutated": 20, "mechanisms": 14}
ASSUMPTIONS = ["HMAC/PBKDF2 key padding equivalences (trailing NULs) and ECDSA (r, n-s) are properties of the "
               "primitives and are not counted as changes, nor is a leading zero octet missing in an RSA-PSS "
               "signature (OpenSSL)", "liboqs-only algorithms are not available here"]


MACS = [
    ("pbm-" + h, "password_based_mac", dict(hash_alg=h, iterations=it)) for h, it in
    (("sha256", 100), ("sha512", 150), ("sha1", 100), ("sha384", 120), ("sha224", 100))
] + [
    ("pbmac1-" + h, "pbmac1", dict(hash_alg=h, iterations=200, length=ln)) for h, ln in
    (("sha256", 32), ("sha384", 48), ("sha512", 64))
] + [
    ("hmac-" + h, "hmac", dict(hash_alg=h)) for h in ("sha256", "sha384", "sha512")
] + [
    ("kmac-shake128", "kmac", dict(hash_alg="shake128")), ("kmac-shake256", "kmac", dict(hash_alg="shake256")),
    ("aes128-gmac", "aes128_gmac", {}), ("aes192-gmac", "aes192_gmac", {}), ("aes256-gmac", "aes256_gmac", {}),
]

SIGS = [
    ("rsa-sha256", "rsa", "signature", dict(hash_alg="sha256")),
    ("rsa-sha512", "rsa", "signature", dict(hash_alg="sha512")),
    ("rsa-pss", "rsa", "rsassa-pss", dict(hash_alg="sha256")),
    ("rsa-pss-sha512", "rsa", "rsassa-pss", dict(hash_alg="sha512")),
    ("ecdsa-p256", ("ec", "secp256r1"), "signature", dict(hash_alg="sha256")),
    ("ecdsa-p384", ("ec", "secp384r1"), "signature", dict(hash_alg="sha384")),
    ("ecdsa-p521", ("ec", "secp521r1"), "signature", dict(hash_alg="sha512")),
    ("ed25519", "ed25519", "signature", {}),
    ("ed448", "ed448", "signature", {}),
    ("ml-dsa-44", "ml-dsa-44", "signature", {}),
    ("ml-dsa-65", "ml-dsa-65", "signature", {}),
    ("ml-dsa-87", "ml-dsa-87", "signature", {}),
    ("ml-dsa-44-sha512", "ml-dsa-44-sha512", "signature", {}),
]
HYBRID = [
    ("composite-44-ec", "composite-sig-ml-dsa-44-ecdsa-secp256r1"),
    ("composite-65-ed25519", "composite-sig-ml-dsa-65-ed25519"),
    ("composite-44-rsa-pss", "composite-sig-ml-dsa-44-rsa2048-pss"),
    ("composite-87-ed448", "composite-sig-ml-dsa-87-ed448"),
]
DH = [("dh-ec", ("ec", "secp256r1")), ("dh-x25519", ("x25519", None)), ("dh-x448", ("x448", None))]
KEMS = ["ml-kem-512", "ml-kem-768", "ml-kem-1024", "xwing", "composite-kem-ml-kem-768-x25519"]


def _key(spec):
    from vlib import zoo
    if isinstance(spec, tuple):
        return zoo.generate_key(spec[0], **({"curve": spec[1]} if spec[1] else {}))
    if spec in ("rsa", "ml-dsa-44", "ml-dsa-65", "ml-dsa-87"):
        return zoo.stored(spec)
    return zoo.generate_key(spec)


def _core(msg):
    """What the protection covers, plus the protection."""
    from vlib.ca import der
    return der(msg["header"]), der(msg["body"]), msg["protection"].asOctets() if msg["protection"].isValue else None


def _refused(fn):
    try:
        fn()
    except Exception as e:  # noqa
        return type(e).__name__
    return None


def attack(rec, mech, body, raw, verify, n, wrong=(), fixed_cert=False):
    """verify(msg) raises unless the protection verifies."""
    from vlib.ca import parse
    rng = rec.rng
    msg = parse(raw)
    ok, _ = rec.must(f"valid-refused:{mech}", verify, msg)
    if not ok:
        return
    rec.ev(mech, body, "valid", counter="positive")
    msg = parse(raw)
    base = _core(msg)
    tree = tlv.parse(raw)
    for name, fn in wrong:
        err = _refused(lambda: fn(parse(raw)))
        rec.ev(mech, body, "wrong", name)
        if rec.check(err, f"wrong-credential-accepted:{mech}:{name}", f"{mech}: {name} accepted", message=raw):
            rec.count("wrong_credential_rejected")
    targets = []
    for path, node in tlv.walk(tree):
        if not path or path[0] == 3 or (path[0] == 2 and node.cons):
            continue
        targets.append((path, node))
    prot_paths = [t for t in targets if t[0][0] == 2]
    # the tagged protectionAlg of the header: [1]
    alg_i = [i for i, k in enumerate(tree.kids[0].kids) if k.tag == b"\xa1"]
    alg_paths = [t for t in targets if t[0][0] == 0 and len(t[0]) > 2 and alg_i and t[0][1] == alg_i[0]]
    hdr = [t for t in targets if t[0][0] == 0]
    bdy = [t for t in targets if t[0][0] == 1]
    plan = [rng.choice(prot_paths) for _ in range(max(2, n // 6))]
    plan += [rng.choice(alg_paths) for _ in range(max(3, n // 5))] if alg_paths else []
    plan += [rng.choice(hdr) for _ in range(n // 3)] + [rng.choice(bdy) for _ in range(n // 3)]
    for path, node in plan:
        if node.cons:
            kind, out = tlv.mutate_struct(tree, path, rng)
        else:
            kind, out = tlv.mutate_leaf(tree, path, rng)
        if kind is None:
            continue
        one(rec, mech, body, kind, path, tlv.dump(out), base, verify, parse, n)
        if path[0] == 2:
            rec.count("protection_mutated")
        elif alg_paths and path[:2] == (0, alg_i[0]):
            rec.count("alg_param_mutated")
    # whole fields: dropped header fields, swapped bodies, emptied protection
    for i in range(3, len(tree.kids[0].kids)):
        out = tlv.copy(tree)
        del out.kids[0].kids[i]
        one(rec, mech, body, "drop-header", (0, i, tree.kids[0].kids[i].tag.hex()), tlv.dump(out), base, verify, parse, n)
    for val in (b"\x00", b"\x00" + bytes(len(base[2])), b"\x00" + base[2][:-1], b"\x00" + base[2] + b"\x00",
                b"\x00" + base[2][1:]):
        out = tlv.copy(tree)
        n2 = out.kids[2]
        while n2.cons:
            n2 = n2.kids[0]
        n2.val = val
        if val[1:].lstrip(b"\x00") == base[2].lstrip(b"\x00"):
            continue  # the same number for RSA: OpenSSL does not check the length of a PSS signature
        one(rec, mech, body, "protection-value", (2, len(val)), tlv.dump(out), base, verify, parse, n)
        rec.count("protection_mutated")


def one(rec, mech, body, kind, path, raw, base, verify, parse, n):
    try:
        msg = parse(raw)
        core = _core(msg)
    except Exception:  # noqa
        rec.ev(mech, nontrivial=False, counter="decoder_refused")
        return
    if core == base:
        rec.ev(mech, nontrivial=False, counter="equivalent")
        return
    err = _refused(lambda: verify(msg))
    rec.ev(mech, body, kind, path)
    if rec.check(err, f"tampered-accepted:{mech}:{'header' if path[0] == 0 else 'body' if path[0] == 1 else 'protection'}",
                 f"{mech}/{body}: {kind} at {path} still verifies", message=raw):
        rec.count("mutated_rejected")
        rec.count("refused_as_" + err)


def _bodies(rec, k):
    from vlib import zoo
    return rec.rng.sample(zoo.BODIES, k)


def mac_job(rec, mech, nbodies, n):
    from resources import protectionutils as pu
    from vlib import zoo
    from vlib.ca import der
    rec.count("mechanisms")
    name, alg, params = mech
    key = zoo.generate_key("ec")
    cert, _ = zoo.build_certificate(key, rec.rng.choice(["CN=A", "CN=B,O=C"]), include_ski=True)
    for body in _bodies(rec, nbodies):
        size = {"aes128_gmac": 16, "aes192_gmac": 24, "aes256_gmac": 32}.get(alg)
        pw = zoo.rnd_bytes(rec.rng, size or rec.rng.randrange(8, 40)).rstrip(b"\x00") + b"k"
        pw = pw[-size:] if size else pw
        if alg == "kmac":
            pw = pw * 4
        msg = zoo.body_message(body, rec.rng, cert, key)
        msg = pu.protect_pkimessage(msg, alg, password=pw, **params)
        raw = der(msg)
        rec.sample(mechanism=name, body=body, message=raw[:200])
        verify = lambda m, pw=pw: pu.verify_pkimessage_protection(m, password=pw)  # noqa
        wrong = []
        for i in range(3):
            other = bytearray(pw)
            other[rec.rng.randrange(len(other))] ^= 1 << rec.rng.randrange(8)
            if bytes(other).rstrip(b"\x00") == pw.rstrip(b"\x00"):
                continue
            wrong.append((f"password{i}", lambda m, o=bytes(other): pu.verify_pkimessage_protection(m, password=o)))
        if not size:
            wrong.append(("shorter", lambda m: pu.verify_pkimessage_protection(m, password=pw[:-1])))
            wrong.append(("longer", lambda m: pu.verify_pkimessage_protection(m, password=pw + b"x")))
            wrong.append(("empty", lambda m: pu.verify_pkimessage_protection(m, password=b"")))
        attack(rec, name, body, raw, verify, n, wrong)
        # deterministic: protecting again with the same parameters gives the same value only with the same password
        bad = pu.protect_pkimessage(zoo.parse(raw), alg, password=pw, bad_message_check=True, **params)
        rec.check(_refused(lambda: verify(zoo.parse(der(bad)))), f"bad-message-check-accepted:{name}",
                  "bad_message_check message verifies")


def sig_job(rec, mech, nbodies, n):
    from pq_logic.pq_verify_logic import verify_hybrid_pkimessage_protection
    from resources import cmputils
    from resources import protectionutils as pu
    from vlib import zoo
    from vlib.ca import der
    rec.count("mechanisms")
    name, spec, alg, params = mech
    key = _key(spec)
    other_key = zoo.generate_key("rsa") if spec == "rsa" else _key(spec) if isinstance(spec, tuple) else zoo.generate_key(spec)
    cert, _ = zoo.build_certificate(key, "CN=signer", include_ski=True)
    ocert, _ = zoo.build_certificate(other_key, "CN=signer", include_ski=True)
    for body in _bodies(rec, nbodies):
        msg = zoo.body_message(body, rec.rng, cert, key)
        msg = pu.protect_pkimessage(msg, alg, private_key=key, cert=cert, **params)
        raw = der(msg)
        rec.sample(mechanism=name, body=body, message=raw[:200])

        def by_cert(m):
            pu.verify_pkimessage_protection(m)

        def by_key(m, k=key):
            pu.verify_pkimessage_protection(m, public_key=k.public_key())

        def swapped(m):
            m = cmputils.patch_extra_certs(m, [ocert])
            return m
        wrong = [
            ("other public key", lambda m: by_key(m, other_key)),
            ("certificate of another key", lambda m: by_cert(swapped(m))),
            ("certificate of another key (hybrid)", lambda m: verify_hybrid_pkimessage_protection(swapped(m))),
        ]
        attack(rec, name, body, raw, by_key, n, wrong)
        attack(rec, name + "/cert", body, raw, by_cert, max(6, n // 3))
        attack(rec, name + "/hybrid", body, raw, verify_hybrid_pkimessage_protection, max(6, n // 2))


def composite_job(rec, mech, nbodies, n):
    from pq_logic.pq_verify_logic import verify_hybrid_pkimessage_protection
    from resources import cmputils
    from resources import protectionutils as pu
    from vlib import zoo
    from vlib.ca import der
    rec.count("mechanisms")
    name, spec = mech
    key, other_key = zoo.named(spec), zoo.named(spec)
    cert, _ = zoo.build_certificate(key, "CN=signer", include_ski=True)
    ocert, _ = zoo.build_certificate(other_key, "CN=signer", include_ski=True)
    for body in _bodies(rec, nbodies):
        msg = zoo.body_message(body, rec.rng, cert, key)
        msg = pu.protect_hybrid_pkimessage(msg, key, protection="composite", cert=cert, exclude_certs=True,
                                           use_rsa_pss="pss" in spec)
        msg = cmputils.patch_extra_certs(msg, [cert])
        raw = der(msg)
        rec.sample(mechanism=name, body=body)
        swapped = lambda m: cmputils.patch_extra_certs(m, [ocert])  # noqa
        verify = lambda m: verify_hybrid_pkimessage_protection(m, public_key=key.public_key())  # noqa
        attack(rec, name, body, raw, verify, n,
               [("certificate of another key", lambda m: verify_hybrid_pkimessage_protection(swapped(m))),
                ("other public key", lambda m: verify_hybrid_pkimessage_protection(m, public_key=other_key.public_key()))])
        attack(rec, name + "/cert", body, raw, verify_hybrid_pkimessage_protection, max(5, n // 3))


def catalyst_job(rec, primary, alt, nbodies, n):
    """A message with a second, alternative signature in generalInfo."""
    from pq_logic.pq_verify_logic import verify_hybrid_pkimessage_protection
    from resources import cmputils
    from resources import protectionutils as pu
    from vlib import zoo
    from vlib.ca import der, parse
    rec.count("mechanisms")
    key, akey = _key(primary), _key(alt)
    cert, _ = zoo.build_certificate(key, "CN=signer", include_ski=True)
    name = "catalyst"
    for body in _bodies(rec, nbodies):
        msg = zoo.body_message(body, rec.rng, cert, key)
        msg = pu.protect_hybrid_pkimessage(msg, key, protection="catalyst", cert=cert, exclude_certs=True,
                                           alt_signing_key=akey, include_alt_pub_key=True)
        msg = cmputils.patch_extra_certs(msg, [cert])
        raw = der(msg)

        def verify(m):
            verify_hybrid_pkimessage_protection(m, must_be_catalyst_signed=True)
        attack(rec, name, body, raw, verify, n)
        # the alternative signature alone is broken: the primary signature is made over the changed message
        for kind in ("bad alt signature", "missing alt signature"):
            m = zoo.body_message(body, rec.rng, cert, key)
            if kind == "bad alt signature":
                m = pu.protect_hybrid_pkimessage(m, key, protection="catalyst", cert=cert, exclude_certs=True,
                                                 alt_signing_key=akey, include_alt_pub_key=True, bad_message_check=True)
            else:
                m = pu.protect_hybrid_pkimessage(m, key, protection="signature", cert=cert, exclude_certs=True)
            m = cmputils.patch_extra_certs(m, [cert])
            err = _refused(lambda: verify(parse(der(m))))
            rec.ev(name, body, kind)
            if rec.check(err, f"catalyst:{kind}", f"{kind} accepted", message=der(m)):
                rec.count("wrong_credential_rejected")


def dh_job(rec, mech, nbodies, n):
    from resources import protectionutils as pu
    from resources.cryptoutils import perform_ecdh
    from vlib import zoo
    from vlib.ca import der
    rec.count("mechanisms")
    name, spec = mech
    a, b, c = _key(spec), _key(spec), _key(spec)
    key = zoo.generate_key("ec")
    cert, _ = zoo.build_certificate(key, "CN=x", include_ski=True)
    for body in _bodies(rec, nbodies):
        for mac in ("hmac", "aes-gmac", "kmac"):
            params = dict(mac_alg=mac, hash_alg="sha256")
            if mac == "aes-gmac":
                params = dict(mac_alg="aes256_gmac", hash_alg="sha256", salt=zoo.rnd_bytes(rec.rng, 12))
            elif mac == "kmac":
                params = dict(mac_alg="kmac-shake128", hash_alg="sha256")
            msg = zoo.body_message(body, rec.rng, cert, key)
            msg = pu.protect_pkimessage(msg, "dh", private_key=a, peer=b.public_key(), exclude_certs=True,
                                        do_patch=False, **params)
            raw = der(msg)

            def verify(m, k=b, p=a):
                pu.verify_pkimessage_protection(m, private_key=k, public_key=p.public_key())

            def by_secret(m):
                pu.verify_pkimessage_protection(m, shared_secret=perform_ecdh(b, a.public_key()))
            attack(rec, f"{name}-{mac}", body, raw, verify, n,
                   [("other private key", lambda m: verify(m, c)), ("other peer", lambda m: verify(m, b, c)),
                    ("other shared secret", lambda m: pu.verify_pkimessage_protection(
                        m, shared_secret=perform_ecdh(c, a.public_key())))])
            attack(rec, f"{name}-{mac}/secret", body, raw, by_secret, 5)


def kem_job(rec, kem, nbodies, n):
    from resources import protectionutils as pu
    from vlib import zoo
    from vlib.ca import der
    rec.count("mechanisms")
    k, k2 = zoo.named(kem), zoo.named(kem)
    key = zoo.generate_key("ec")
    cert, _ = zoo.build_certificate(key, "CN=x", include_ski=True)
    kem_cert, _ = zoo.build_certificate(k, "CN=kem", ca_key=key, ca_cert=cert)
    kdfs = [("kdf3", "sha256"), ("kdf2", "sha384"), ("hkdf", "sha256"), ("pbkdf2", "sha256")]
    for body in _bodies(rec, nbodies):
        kdf, h = rec.rng.choice(kdfs)
        ss = zoo.rnd_bytes(rec.rng, 32)
        msg = pu.protect_pkimessage_kem_based_mac(zoo.body_message(body, rec.rng, cert, key), shared_secret=ss,
                                                  kdf=kdf, hash_alg=h)
        raw = der(msg)
        rec.count("kdf_" + kdf)
        bad = bytearray(ss)
        bad[rec.rng.randrange(32)] ^= 1 << rec.rng.randrange(8)
        attack(rec, f"kem-{kdf}", body, raw, lambda m: pu.verify_pkimessage_protection(m, shared_secret=ss), n,
               [("other shared secret", lambda m: pu.verify_pkimessage_protection(m, shared_secret=bytes(bad)))])
        # encapsulated in the message itself
        msg = pu.protect_pkimessage_kem_based_mac(zoo.body_message(body, rec.rng, cert, key), peer_cert=kem_cert)
        raw = der(msg)
        attack(rec, f"kem-{kem}", body, raw, lambda m: pu.verify_pkimessage_protection(m, private_key=k), max(6, n // 3),
               [("other private key", lambda m: pu.verify_pkimessage_protection(m, private_key=k2))])


def jobs(tier, seed):
    big = tier == "thorough"
    nb, n = (9, 120) if big else (2, 24)
    out = [Job("mac/" + m[0], mac_job, mech=m, nbodies=nb, n=n, timeout=3000) for m in MACS]
    slow = {"ml-dsa-87": 0.5, "ml-dsa-65": 0.5}
    out += [Job("sig/" + m[0], sig_job, mech=m, nbodies=nb if big else 2, n=int(n * slow.get(m[0], 1)), timeout=3000)
            for m in SIGS]
    out += [Job("composite/" + m[0], composite_job, mech=m, nbodies=nb if big else 1, n=n if big else 12, timeout=3000) for m in HYBRID]
    out += [Job("catalyst/0", catalyst_job, primary="rsa", alt="ml-dsa-44", nbodies=nb if big else 1, n=n, timeout=3000),
            Job("catalyst/1", catalyst_job, primary=("ec", "secp256r1"), alt="ml-dsa-65", nbodies=nb if big else 1, n=n, timeout=3000)]
    out += [Job("dh/" + m[0], dh_job, mech=m, nbodies=nb if big else 1, n=n, timeout=3000) for m in DH]
    out += [Job("kem/" + k, kem_job, kem=k, nbodies=nb if big else 2, n=n, timeout=3000) for k in KEMS]
    return sorted(out, key=lambda j: not j.name.startswith(("composite", "sig/ml", "catalyst", "kem")))
