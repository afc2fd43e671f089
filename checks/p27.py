"""P27: keys in use or compromised are not certified again."""

from vlib.core import Job

RULE = ("case = (kind of request, relation of its key to earlier certificates: same / component of / composite with a "
        "component of, relation of the subject, state and revocation reason of the earlier certificate); the answer and the "
        "CA's record are compared with a model of which keys are taken or compromised")
REQUIRED = {"fresh_granted": 15, "reuse_refused": 6, "compromised_refused": 12, "composite_related": 10,
            "other_subject_granted": 4, "reinstated_granted": 1}
ASSUMPTIONS = ["composite keys of ML-DSA-44 with Ed25519 and P-256; plain keys EC, Ed25519, RSA, ML-DSA-44"]


class Key:
    """A key and its components."""

    def __init__(self, key, parts):
        self.key, self.parts = key, frozenset(parts)


def history(rec, steps, budget):
    from vlib import ca, zoo
    from vlib.world import World, sign, L, R, USABLE
    from resources import cmputils
    from resources.keyutils import generate_key
    rng = rec.rng
    w = World(rec, {"P27"}, weights={})
    serial = [0]

    def part(key):
        serial[0] += 1
        return (key, serial[0])

    rsa = [None]

    def plain(kind=None):
        kind = kind or rng.choice(["ec", "ed25519", "ec", "ml-dsa-44", "rsa"])
        if kind == "ml-dsa-44":
            k = generate_key("ml-dsa-44")
        elif kind == "rsa":
            if rsa[0] is None:
                rsa[0] = plain("_rsa")
                return rsa[0]
            kind = "ec"
            k = generate_key("ec", curve="secp256r1")
        elif kind == "_rsa":
            k = zoo.stored("rsa")
        else:
            k = generate_key(kind, **({"curve": "secp256r1"} if kind == "ec" else {}))
        k, n = part(k)
        return Key(k, [n])

    base = generate_key("composite-sig-ml-dsa-44-ed25519", by_name=True)
    Comp = type(base)

    def composite(pq=None, trad=None):
        pq = pq or plain("ml-dsa-44")
        trad = trad or plain(rng.choice(["ed25519", "ec"]))
        return Key(Comp(pq_key=pq.key, trad_key=trad.key), pq.parts | trad.parts)

    keys = []   # Key objects

    def remember(k):
        keys.append(k)
        return k

    def component(k):
        """The plain keys inside a composite key."""
        return [x for x in keys if x is not k and x.parts < k.parts]

    ents = []  # (Key, cn, Ent)

    def taken(k, cn):
        return any(x.parts & k.parts and c == cn for x, c, e in ents)

    def compromised(k):
        return any(x.parts & k.parts and e.st == R and e.reason == "keyCompromise" for x, c, e in ents)

    def ask(k, cn, kind, note):
        good = not taken(k, cn) and not compromised(k)
        h = None if type(k.key).__name__.startswith(("MLDSA", "Composite")) else "sha256"
        kw = {"hash_alg": h} if kind == "p10cr" and h is None else {}
        if kind == "kur":
            s = next((e for x, c, e in rng.sample(ents, len(ents)) if e.st in USABLE and c == cn and not isinstance(e.key, Comp)
                      and type(e.key).__name__ != "MLDSAPrivateKey"), None)
            if s is None:
                return None
            m = sign(cmputils.build_key_update_request(k.key, cert=s.cert, common_name=cn, implicit_confirm=True), s)
        elif kind == "signed-cr":
            s = next((e for x, c, e in rng.sample(ents, len(ents)) if e.st in USABLE and not isinstance(e.key, Comp)
                      and type(e.key).__name__ != "MLDSAPrivateKey"), None)
            if s is None:
                return None
            m = sign(ca.request("cr", k.key, cn, mac=False, implicit_confirm=True), s)
        else:
            s = None
            m = ca.mac_protect(ca.request(kind, k.key, cn, implicit_confirm=True, **kw))
        what = f"{kind}-{note}"
        resp = w.send(m, what, good, {"P27"})
        rec.ev(kind, note, good, resp.ok)
        if resp.ok and resp.certs():
            e = w._issued(resp, m, k.key, cn, True, "mac" if s is None else "sig", what, signer=s,
                          old=s if kind == "kur" else None)
            ents.append((k, cn, e))
            return e
        w.settle(what, {"P27"})
        return False

    kinds = ["ir", "cr", "p10cr", "signed-cr", "kur"]
    for _ in range(steps):
        if rec.elapsed() > budget:
            break
        r = rng.random()
        fresh = r < 0.3 or not ents
        if fresh:
            if rng.random() < 0.3:
                pq = remember(plain("ml-dsa-44"))
                tr = remember(plain(rng.choice(["ed25519", "ec"])))
                k = remember(composite(pq, tr))
            else:
                k = remember(plain())
            e = ask(k, w.newcn(), rng.choice(kinds[:4]), "fresh")
            if e:
                rec.count("fresh_granted")
            continue
        if r < 0.55:
            # revoke or reinstate something
            x, c, e = rng.choice(ents)
            if e.st in USABLE:
                reason = rng.choice(["keyCompromise", "keyCompromise", "superseded"])
                resp = w.send(w._rr(e, reason, w.get_ra()), "rr", True, {"P08"})
                if resp.ok:
                    e.st, e.reason = R, reason
            elif e.st == R and rng.random() < 0.4:
                resp = w.send(w._rr(e, "removeFromCRL", w.get_ra()), "revive", True, {"P08"})
                if resp.ok:
                    was = e.reason
                    e.st, e.reason = L, None
                    if was == "keyCompromise" and not compromised(x) and ask(x, w.newcn(), "cr", "reinstated-key"):
                        rec.count("reinstated_granted")
            w.settle("rr", {"P08"})
            continue
        # a key related to an earlier one
        x, c, e = rng.choice(ents)
        bad = [t for t in ents if t[2].st == R and t[2].reason == "keyCompromise"]
        if bad and rng.random() < 0.6:
            x, c, e = rng.choice(bad)
        rel = rng.choice(["same", "component", "composite"])
        if rel == "same":
            k = x
        elif rel == "component":
            comps = component(x)
            if not comps:
                rel, k = "same", x
            else:
                k = rng.choice(comps)
        else:
            comps = component(x) or ([x] if len(x.parts) == 1 else [])
            comp = rng.choice(comps) if comps else None
            name = type(comp.key).__name__ if comp else ""
            if comp is None or not (name.startswith("MLDSA") or "Ed25519" in name or "Elliptic" in name or name.startswith("EC")):
                continue
            if name.startswith("MLDSA"):
                other = remember(plain("ed25519"))
                k = remember(composite(comp, other))
            else:
                other = remember(plain("ml-dsa-44"))
                k = remember(composite(other, comp))
        same = rng.random() < 0.5
        cn = c if same else w.newcn()
        note = f"{rel}-{'same' if same else 'other'}-subject-{e.st}-{e.reason if e.st == R else ''}"
        t, b = taken(k, cn), compromised(k)
        got = ask(k, cn, rng.choice(kinds), note)
        if got is None:
            continue
        if rel != "same":
            rec.count("composite_related")
        if got is False and b:
            rec.count("compromised_refused")
        elif got is False and t:
            rec.count("reuse_refused")
        elif got:
            rec.count("other_subject_granted")
    rec.sample(history=w.history[:12])


def jobs(tier, seed):
    n, steps, budget = (8, 130, 22) if tier == "quick" else (32, 700, 130)
    return [Job(f"keys-{i}", history, timeout=400, steps=steps, budget=budget) for i in range(n)]
