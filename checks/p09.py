"""P09: a stateful key never uses a one-time index twice; the CA accepts an index once."""

from vlib import ca, flows, lms
from vlib.ca import Cred
from vlib.core import Job
from vlib.world import sign

RULE = ("case = one signature in a history of signing, saving, loading and exhausting a key, or one message to the CA whose protection or proof "
        "of possession uses a given one-time index of a given key; a one-time index (tree, leaf) read from the signatures by an independent "
        "verifier never signs two messages, the CA never grants two uses of an index, and grants every fresh one")
REQUIRED = {"signature": 500, "reload": 120, "exhausted": 20, "fresh": 60, "reused": 60, "unauthentic": 8}
ASSUMPTIONS = ["XMSS and XMSS-MT keys need liboqs, which is not installed: the histories use HSS keys of one to three levels",
               "an index whose message was refused counts as used; whether the CA accepts it later is not judged",
               "only the /issuing endpoint"]
NOTE = "independent RFC 8554 verifier"

SETS = [f"hss_lms_{h}_m{n}_h5_lmots_{h}_n{n}_w{w}" for h in ("sha256", "shake") for n in (24, 32) for w in (1, 2, 4, 8)]


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def new_key(alg, levels=1):
    from pq_logic.keys.stateful_sig_keys import HSSPrivateKey
    return HSSPrivateKey(alg, levels=levels)


def at(raw):
    from pq_logic.keys.stateful_sig_keys import HSSPrivateKey
    return HSSPrivateKey.from_private_bytes(raw)


def reload_ways():
    from checks import p17
    from pq_logic.keys.stateful_sig_keys import HSSPrivateKey
    from cryptography.hazmat.primitives.serialization import Encoding
    return [
        ("raw", lambda k: HSSPrivateKey.from_private_bytes(k.private_bytes_raw())),
        ("constructor", lambda k: HSSPrivateKey(k.name, private_bytes=k.private_bytes_raw(), levels=k.levels)),
        ("der", lambda k: p17.load_der(p17.save(k, version=1, include_public_key=True))),
        ("pem", lambda k: p17.load_file(p17.save(k, encoding=Encoding.PEM))),
        ("file", lambda k: p17.load_file(p17.save_file(k, password=None), None)),
        ("encrypted", lambda k: p17.load_file(p17.save_file(k, password="secret"), "secret")),
    ]


def signers():
    from resources import cryptoutils, certbuildutils

    def direct(k, rng):
        m = rb(rng, rng.randrange(200))
        return m, k.sign(m)

    def data(k, rng):
        m = rb(rng, rng.randrange(200))
        return m, cryptoutils.sign_data(m, k, hash_alg=None)

    def csr(k, rng):
        c = certbuildutils.build_csr(k, f"CN=h{rng.randrange(10**9)}")
        return ca.der(c["certificationRequestInfo"]), c["signature"].asOctets()

    def cert(k, rng):
        c, _ = certbuildutils.build_certificate(k, common_name=f"CN=h{rng.randrange(10**9)}")
        return ca.der(c["tbsCertificate"]), c["signature"].asOctets()

    return [("sign", direct), ("sign_data", data), ("csr", csr), ("certificate", cert)]


class Monitor:
    def __init__(self, rec, key, start=0):
        self.rec, self.pub, self.n, self.used = rec, key.public_key().public_bytes_raw(), start, {}
        self.levels, self.alg = key.levels, key.name
        self.max = 32 ** self.levels

    def signed(self, how, msg, sig, key):
        from resources.keyutils import get_pq_stateful_sig_index_from_sig
        rec = self.rec
        rec.ev(self.alg, self.levels, how, counter="signature")
        art = dict(pub=self.pub, msg=msg, sig=sig, n=self.n)
        try:
            parts = lms.hss(self.pub, msg, sig)
        except lms.Bad as e:
            rec.violation("bad-signature", f"{self.alg} {how}: signature {self.n} does not verify ({e})", **art)
            return
        for ident, q, what in parts:
            old = self.used.setdefault((ident, q), what)
            rec.check(old == what, "index-reused", f"{self.alg} {how}: leaf {q} of a tree signed two messages (signature {self.n})", **art)
        top = 0
        for _, q, _m in parts:
            top = 32 * top + q
        rec.check(top == self.n, "index", f"{self.alg} {how}: signature {self.n} has index {top}", **art)
        ok, got = rec.must("index-from-sig", lambda: get_pq_stateful_sig_index_from_sig(sig, key))
        if ok:
            rec.check(got == top, "index-read", f"{self.alg} {how}: index {got} read from a signature with {top}", **art)
        ok, got = rec.must("index-from-sig", lambda: get_pq_stateful_sig_index_from_sig(sig, key.public_key(), return_lms_index=True))
        if ok:
            rec.check(got == parts[-1][1], "leaf-read", f"{self.alg} {how}: leaf {got} read from a signature with {parts[-1][1]}", **art)
        self.n += 1
        self.remaining(key, how)

    def remaining(self, key, how):
        self.rec.check(key.sigs_remaining == self.max - self.n, "remaining",
                       f"{self.alg} {how}: {key.sigs_remaining} signatures said to remain after {self.n} of {self.max}")


def job_history(rec, alg, levels, total):
    """One key through signing and reloading until it is exhausted (or `total` signatures)."""
    rng = rec.rng
    key = new_key(alg, levels)
    mon = Monitor(rec, key)
    ways, hows = reload_ways(), signers()
    pub = key.public_key()
    while mon.n < min(mon.max, total):
        if rng.random() < 0.2:
            label, fn = rng.choice(ways)
            rec.ev(alg, levels, label, counter="reload")
            ok, k = rec.must("reload", lambda: fn(key))
            if not ok:
                return
            rec.check(k.public_key() == pub and k.levels == levels, "other-key", f"{alg}: another key after {label}")
            rec.check(k.private_bytes_raw() == key.private_bytes_raw(), "position", f"{alg}: {label} lost the position (signature {mon.n})")
            key = k
            mon.remaining(key, "after " + label)
        elif rng.random() < 0.06:
            # what fails must not give an index back
            for bad in (None, 7, "text"):
                try:
                    key.sign(bad)
                except Exception:
                    rec.count("bad_argument", 1)
                else:
                    rec.violation("signed-nonsense", f"{alg}: {bad!r} signed")
            # a failure may or may not use an index up, and the saved key need not know: go on from either
            if rng.random() < 0.5:
                key = at(key.private_bytes_raw())
            left = key.sigs_remaining
            rec.check(left <= mon.max - mon.n, "given-back", f"{alg}: indices given back after a failure")
            if key.private_bytes_raw() != at(key.private_bytes_raw()).private_bytes_raw() or at(key.private_bytes_raw()).sigs_remaining != left:
                rec.count("unsaved_failure")
                key = at(key.private_bytes_raw())
                rec.check(key.sigs_remaining <= mon.max - mon.n, "given-back", f"{alg}: indices given back by saving after a failure")
            mon.n = mon.max - key.sigs_remaining
            if mon.n == mon.max:
                break
        else:
            how, fn = rng.choice(hows) if rng.random() < 0.5 else hows[0]
            ok, out = rec.must("sign", lambda: fn(key, rng))
            if not ok:
                return
            mon.signed(how, *out, key)
    if mon.n < mon.max:
        return
    for _ in range(4):
        for how, fn in hows:
            rec.ev(alg, levels, "exhausted " + how, counter="exhausted")
            try:
                out = fn(key, rng)
            except Exception as e:
                rec.count("error-" + type(e).__name__)
                continue
            rec.violation("signed-exhausted", f"{alg}: {how} gives a signature after all {mon.max} indices", sig=out[1])
        label, fn = rng.choice(ways)
        ok, k = rec.must("reload", lambda: fn(key))
        if not ok:
            return
        key = k
        mon.remaining(key, "exhausted, after " + label)


def job_modify(rec, rounds):
    """Keys moved forward on request (the suite's negative tests): what they sign says so."""
    from resources.keyutils import get_pq_stateful_sig_index_from_sig, modify_pq_stateful_sig_private_key
    rng = rec.rng
    for _ in range(rounds):
        alg = rng.choice(SETS)
        key = new_key(alg)
        for _ in range(rng.randrange(4)):
            key.sign(b"x")
        i = rng.randrange(32)
        k = modify_pq_stateful_sig_private_key(key, index=i)
        sig = k.sign(b"y")
        rec.ev(alg, "moved", i, counter="moved")
        rec.check(get_pq_stateful_sig_index_from_sig(sig, k) == i and lms.hss(key.public_key().public_bytes_raw(), b"y", sig)[0][1] == i,
                  "moved", f"{alg}: moved to {i}, signs with another index")
        rec.check(k.sigs_remaining == 31 - i, "remaining", f"{alg}: {k.sigs_remaining} remain at {i}")
        k = modify_pq_stateful_sig_private_key(key)
        try:
            k.sign(b"z")
        except Exception:
            rec.ev(alg, "exhausted on request", counter="exhausted")
        else:
            rec.violation("signed-exhausted", f"{alg}: a key exhausted on request signs")


# -- the CA -------------------------------------------------------------------------------------------
class Owner:
    """A stateful key as its owner (or a thief of an old copy) sees it: every position can be taken up again."""

    def __init__(self, alg, levels):
        self.raw = [new_key(alg, levels).private_bytes_raw()]
        self.certs = []
        self.used = set()     # indices of granted messages
        self.burned = set()   # indices of refused messages
        self.levels = levels

    @property
    def top(self):
        return len(self.raw) - 1

    def fresh(self, rng):
        """A never used position (sometimes skipping some)."""
        skip = rng.choice([0, 0, 0, 1, 2])
        for _ in range(skip):
            self.advance()
        i = self.top
        self.advance()
        return i

    def advance(self):
        k = at(self.raw[-1])
        k.sign(b"skip")
        self.raw.append(k.private_bytes_raw())

    def left(self):
        return at(self.raw[-1]).sigs_remaining

    def key(self, i):
        return at(self.raw[i])


def job_ca(rec, alg, levels, steps):
    from resources import cmputils
    from resources.keyutils import generate_key
    rng = rec.rng
    env = ca.Env(rec)
    ra = flows.ra_cred()
    owners = [Owner(alg, levels) for _ in range(2)]
    n = [0]

    def cn():
        n[0] += 1
        return f"CN=P09 {n[0]} {rng.randrange(10**6)}"

    def ec():
        return generate_key("ec", curve="secp256r1")

    def granted(resp, inner=None):
        if resp.body == "nested":
            from pyasn1.codec.der import encoder
            return [granted(ca.Resp(encoder.encode(x)))[0] for x in resp.msg["body"]["nested"]]
        return [resp.body == "genp" or resp.ok]

    def cred(o, i, cert=None):
        return Cred(o.key(i), cert or rng.choice(o.certs), [env.ca_cert])

    def judge(what, fresh, resp, uses, art=None):
        """uses: [(owner, index)] of the message; fresh: every one is."""
        got = granted(resp)
        rec.ev(what, fresh, levels, counter="fresh" if fresh else "reused")
        if fresh:
            if not all(got):
                rec.violation("fresh-refused", f"{what}: refused though its index is fresh: {resp.text()}", resp=resp.raw)
        elif any(got):
            rec.violation("reuse-granted", f"{what}: granted with a used index", request=env.log[-1][0], resp=resp.raw)
        for o, i in uses:
            (o.used if all(got) else o.burned).add(i)

    def request_by(o, i, kind, key=None, cert=None, implicit=True):
        c = cred(o, i, cert)
        key = key or ec()
        return sign(ca.request(kind, key, cn(), mac=False, pvno=3, implicit_confirm=implicit), c)

    def enroll(o, i, fresh, implicit=True):
        key = o.key(i)
        name = cn()
        by = rng.choice(["ir", "cr", "p10cr"])
        m = ca.request(by, key, name, implicit_confirm=implicit, pvno=3)
        resp = env.send(ca.mac_protect(m))
        judge("enrol " + by, fresh, resp, [(o, i)])
        if resp.ok and resp.certs():
            cert = resp.certs()[0]
            if not implicit:
                r = env.send(ca.mac_protect(flows.kem_conf(resp, cert, name)))
                rec.check(r.body == "pkiconf", "conf", f"confirmation refused: {r.text()}")
            o.certs.append(cert)

    def revoke(o, i, fresh):
        c = cred(o, i)
        st = env.state(c.cert)
        m = cmputils.build_cmp_revoke_request(cert=c.cert, reason="certificateHold" if st != "REVOKED" else "removeFromCRL",
                                              sender=cn(), recipient="CN=Mock CA", pvno=3)
        r = env.send(sign(m, c))
        judge("rr", fresh, r, [(o, i)])
        if r.ok and st != "REVOKED":  # and back
            j = o.fresh(rng)
            m = cmputils.build_cmp_revoke_request(cert=c.cert, reason="removeFromCRL", sender=cn(), recipient="CN=Mock CA", pvno=3)
            r = env.send(sign(m, cred(o, j, c.cert)))
            judge("rr revive", True, r, [(o, j)])

    def genm(o, i, fresh):
        from resources import general_msg_utils as g
        m = g.build_cmp_general_message(info_values=g.prepare_simple_info_types_and_value("ca_certs"), exclude_fields="sender,senderKID")
        judge("genm", fresh, env.send(sign(m, cred(o, i))), [(o, i)])

    def update(o, i, fresh):
        """Key update by the stateful key; the old certificate is not used afterwards."""
        if len(o.certs) < 2:
            return plain(o, i, fresh)
        cert = rng.choice(o.certs)
        m = cmputils.build_key_update_request(ec(), cert=cert, implicit_confirm=True, pvno=3)
        r = env.send(sign(m, cred(o, i, cert)))
        judge("kur", fresh, r, [(o, i)])
        if r.ok:
            o.certs.remove(cert)

    def plain(o, i, fresh):
        kind = rng.choice(["cr", "p10cr", "cr"])
        judge(kind, fresh, env.send(request_by(o, i, kind)), [(o, i)])

    def confirm(o, i, fresh):
        """The request with a fresh index, its confirmation with the given one."""
        j = o.fresh(rng) if not fresh else i
        c = rng.choice(o.certs)
        r = env.send(request_by(o, j, "cr", cert=c, implicit=False))
        judge("cr to confirm", True, r, [(o, j)])
        if not r.ok:
            return
        k = o.fresh(rng) if fresh else rng.choice([i, j])
        r2 = env.send(sign(ca.cert_conf(r, pvno=3), cred(o, k, c)))
        judge("certConf", fresh, r2, [(o, k)])

    def both(o, i, fresh):
        """A request for another stateful key, signed by this one; or for this one again (other subject)."""
        if rng.random() < 0.5:
            p = rng.choice([x for x in owners if x is not o])
            if p.left() < 4:
                return plain(o, i, fresh)
            j = p.fresh(rng)
            if not fresh and rng.random() < 0.5 and p.used:
                j, i = rng.choice(sorted(p.used)), o.fresh(rng)
        else:
            p = o
            j = o.fresh(rng) if fresh else rng.choice([i, o.fresh(rng)])
        r = env.send(request_by(o, i, "cr", key=p.key(j)))
        judge("cr for a stateful key", fresh, r, [(o, i), (p, j)])
        if r.ok and r.certs():
            p.certs.append(r.certs()[0])

    def nested(o, i, fresh):
        inner = request_by(o, i, "cr")
        judge("added protection", fresh, env.send(flows.added_protection(inner, ra)), [(o, i)])

    def batch(o, i, fresh):
        j = o.fresh(rng) if fresh or rng.random() < 0.6 else i
        order = [i, j]
        rng.shuffle(order)
        judge("batch", fresh, env.send(flows.batch([request_by(o, x, "cr") for x in order], ra)), [(o, i), (o, j)])

    def unauthentic(o, i, fresh):
        """A wrong signature with a fresh index is refused (the index counts as used afterwards)."""
        if not fresh:
            return plain(o, i, fresh)
        m = request_by(o, i, "cr")
        from pyasn1_alt_modules import rfc9480  # noqa: F401
        from resources import protectionutils
        raw = bytearray(m["protection"].asOctets())
        raw[rng.randrange(40, len(raw))] ^= 1 << rng.randrange(8)
        m["protection"] = protectionutils.prepare_pki_protection_field(bytes(raw))
        r = env.send(m)
        rec.ev("unauthentic", levels, counter="unauthentic")
        rec.check(not any(granted(r)), "unauthentic", "a request with a wrong stateful signature is granted", request=env.log[-1][0])
        o.burned.add(i)

    for o in owners:
        enroll(o, o.fresh(rng), True)
        rec.check(bool(o.certs), "enrol", "no certificate for a stateful key")
        if not o.certs:
            return
    acts = [plain, plain, enroll, revoke, update, confirm, both, nested, batch, unauthentic, genm]
    for step in range(steps):
        o = rng.choice(owners)
        if o.left() < 12:
            owners.remove(o)
            o = Owner(alg, levels)
            owners.append(o)
            enroll(o, o.fresh(rng), True)
            if not o.certs:
                return
        act = rng.choice(acts)
        fresh = rng.random() < 0.5
        if fresh:
            act(o, o.fresh(rng), True)
        else:
            act(o, rng.choice(sorted(o.used)), False)
        if rng.random() < 0.1:  # the same bytes again
            raw = env.log[-1][0]
            r = env.send(raw)
            rec.ev("replay", levels, counter="reused")
            rec.check(not any(granted(r)), "replay-granted", "the same message is granted twice", request=raw)


def jobs(tier, seed):
    t = tier == "thorough"
    out = []
    pick = SETS if t else [s for i, s in enumerate(SETS) if (i + seed) % 4 == 0] + ["hss_lms_sha256_m32_h5_lmots_sha256_n32_w8"]
    for s in pick:
        out.append(Job("history-1-" + s, job_history, timeout=1200, alg=s, levels=1, total=32))
    for s in (SETS if t else [SETS[seed % 3], SETS[4 + seed % 3]]):
        out.append(Job("history-2-" + s, job_history, timeout=2400, alg=s, levels=2, total=1024 if (t or "w8" not in s) else 70))
    for s in ([x for x in SETS if "w8" not in x] if t else [SETS[8 + seed % 3]]):
        out.append(Job("history-3-" + s, job_history, timeout=2400, alg=s, levels=3, total=2200 if t else 120))
    out.append(Job("modify", job_modify, rounds=60 if t else 12))
    for i in range(24 if t else 8):
        out.append(Job(f"ca-{i}", job_ca, timeout=2400, alg=SETS[(i + seed) % 16 // 4 * 4 + (i + seed) % 3], levels=1 + (i % 3 == 2), steps=160 if t else 30))
    return out
