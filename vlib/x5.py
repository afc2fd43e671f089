"""Names, validities, extensions and certificate request messages as DER, built without the suite's own builders."""

from vlib import tlv
from vlib.msg import bits, integer, octets
from vlib.tlv import Node


def oid(dotted):
    parts = [int(x) for x in dotted.split(".")]
    out = bytearray()
    for i, v in enumerate([parts[0] * 40 + parts[1]] + parts[2:]):
        b = [v & 0x7F]
        v >>= 7
        while v:
            b.append(0x80 | v & 0x7F)
            v >>= 7
        out += bytes(reversed(b))
    return Node(b"\x06", False, bytes(out))


def seq(*kids):
    return Node(b"\x30", True, kids=list(kids))


def set_(*kids):
    return Node(b"\x31", True, kids=sorted(kids, key=tlv.dump))


def tagged(n, *kids):
    return Node(bytes([0xA0 | n]), True, kids=list(kids))


def prim(n, val):
    return Node(bytes([0x80 | n]), False, val)


def text(s, kind="utf8"):
    t = {"utf8": 0x0C, "printable": 0x13, "ia5": 0x16}[kind]
    return Node(bytes([t]), False, s.encode())


def boolean(v):
    return Node(b"\x01", False, b"\xff" if v else b"\x00")


DN_TYPES = {  # type: (OID, string kinds, alphabet, max length)
    "CN": ("2.5.4.3", ("utf8", "printable"), "u", 30),
    "O": ("2.5.4.10", ("utf8", "printable"), "u", 30),
    "OU": ("2.5.4.11", ("utf8", "printable"), "u", 30),
    "L": ("2.5.4.7", ("utf8", "printable"), "u", 30),
    "ST": ("2.5.4.8", ("utf8", "printable"), "u", 30),
    "SN": ("2.5.4.4", ("utf8", "printable"), "u", 30),
    "GN": ("2.5.4.42", ("utf8", "printable"), "u", 12),
    "title": ("2.5.4.12", ("utf8", "printable"), "u", 30),
    "serialNumber": ("2.5.4.5", ("printable",), "p", 30),
    "C": ("2.5.4.6", ("printable",), "C", 2),
    "DC": ("0.9.2342.19200300.100.1.25", ("ia5",), "p", 20),
}
PRINTABLE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 '()+,-./:=?"
UTF8 = PRINTABLE + "äöüßéñçøłžЖя漢字é€😀_@&*#%!;<>\"\\"


def rnd_text(rng, kind, alpha, maxlen):
    if alpha == "C":
        return "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(2))
    pool = PRINTABLE if kind != "utf8" or alpha == "p" or rng.random() < 0.5 else UTF8
    if kind == "ia5":
        pool = "abcdefghijklmnopqrstuvwxyz0123456789-"
    return "".join(rng.choice(pool) for _ in range(rng.randrange(1, maxlen)))


def attr(rng, t, value=None):
    o, kinds, alpha, n = DN_TYPES[t]
    k = rng.choice(kinds)
    return seq(oid(o), text(value if value is not None else rnd_text(rng, k, alpha, n), k))


def rnd_name(rng, unique, multi=True):
    """A random RDNSequence with `unique` somewhere in its common name."""
    rdns = []
    for _ in range(rng.choice((0, 0, 1, 2, 3, 4))):
        kinds = rng.sample([k for k in DN_TYPES if k != "CN"], 2 if multi and rng.random() < 0.15 else 1)
        rdns.append(set_(*[attr(rng, k) for k in kinds]))
    rdns.insert(rng.randrange(len(rdns) + 1), set_(attr(rng, "CN", unique)))
    return seq(*rdns)


def simple_name(cn):
    return seq(set_(seq(oid("2.5.4.3"), text(cn))))


def time_node(dt):
    if dt.year < 2050:
        return Node(b"\x17", False, dt.strftime("%y%m%d%H%M%SZ").encode())
    return Node(b"\x18", False, dt.strftime("%Y%m%d%H%M%SZ").encode())


def ext(o, value, critical=False):
    kids = [oid(o)] + ([boolean(True)] if critical else []) + [octets(tlv.dump(value))]
    return seq(*kids)


def key_usage_bits(names):
    order = ["digitalSignature", "nonRepudiation", "keyEncipherment", "dataEncipherment", "keyAgreement", "keyCertSign",
             "cRLSign", "encipherOnly", "decipherOnly"]
    v = [order.index(n) for n in names]
    nbytes = max(v) // 8 + 1
    buf = bytearray(nbytes)
    for i in v:
        buf[i // 8] |= 0x80 >> (i % 8)
    unused = 7 - max(v) % 8
    return Node(b"\x03", False, bytes([unused]) + bytes(buf))


KU, SKI, SAN, BC, AKI, EKU = "2.5.29.15", "2.5.29.14", "2.5.29.17", "2.5.29.19", "2.5.29.35", "2.5.29.37"
EKUS = ["1.3.6.1.5.5.7.3." + str(i) for i in (1, 2, 3, 4, 8, 9, 17, 27, 28, 32)]


def general_name(rng):
    r = rng.randrange(5)
    word = "".join(rng.choice("abcdefghij0123456789") for _ in range(rng.randrange(1, 12)))
    if r == 0:
        return prim(2, f"{word}.example.com".encode())
    if r == 1:
        return prim(1, f"{word}@example.com".encode())
    if r == 2:
        return prim(6, f"https://{word}.example.com/x?y={word}".encode())
    if r == 3:
        return prim(7, bytes(rng.randrange(256) for _ in range(rng.choice((4, 16)))))
    return tagged(4, simple_name(word))


def find_oid(node):
    """Dotted OID of a node."""
    b = node.val
    vals, v = [], 0
    for x in b:
        v = v << 7 | x & 0x7F
        if not x & 0x80:
            vals.append(v)
            v = 0
    first = min(vals[0] // 40, 2)
    return ".".join(map(str, [first, vals[0] - 40 * first] + vals[1:]))


class Cert:
    """The fields of a certificate, straight from its DER."""

    def __init__(self, raw):
        self.raw = raw
        t = tlv.parse(raw)
        self.tbs, self.alg, self.sig = t.kids[0], t.kids[1], t.kids[2].val[1:]
        k = self.tbs.kids
        i = 1 if k[0].tag == b"\xa0" else 0
        self.version = k[0].kids[0].val[0] if i else 0
        self.serial = int.from_bytes(k[i].val, "big", signed=True)
        self.tbs_alg, self.issuer, self.validity, self.subject, self.spki = k[i + 1:i + 6]
        e = next((x for x in k[i + 6:] if x.tag == b"\xa3"), None)
        self.exts = e.kids[0].kids if e is not None else []

    def times(self):
        from datetime import datetime, timezone
        out = []
        for n in self.validity.kids:
            s = n.val.decode()
            if n.tag == b"\x17":
                s = ("20" if int(s[:2]) < 50 else "19") + s
            out.append(datetime.strptime(s, "%Y%m%d%H%M%SZ").replace(tzinfo=timezone.utc))
        return out

    def extension(self, o):
        for e in self.exts:
            if find_oid(e.kids[0]) == o:
                return e
        return None

    def key_bits(self):
        return self.spki.kids[1].val[1:]


def ext_parts(e):
    """(dotted OID, critical, value DER)"""
    crit = len(e.kids) == 3 and e.kids[1].val != b"\x00"
    return find_oid(e.kids[0]), crit, e.kids[-1].val


def crm_der(rng, key, subject, req_id=0, spki=None, exts=(), validity=None, version=None, issuer=None, sign=None,
            controls=None, alg_id=None, popo=None):
    """A CertReqMsg (Node) with a signature POP by `sign(data)` using algorithm identifier node `alg_id`."""
    t = []
    if version is not None:
        t.append(prim(0, bytes([version])))
    if issuer is not None:
        t.append(tagged(3, issuer))
    if validity is not None:
        t.append(tagged(4, *[tagged(i, time_node(v)) for i, v in enumerate(validity) if v is not None]))
    if subject is not None:
        t.append(tagged(5, subject))
    t.append(Node(b"\xa6", True, kids=list(spki.kids)))
    if exts:
        t.append(Node(b"\xa9", True, kids=list(exts)))
    req = seq(integer(req_id), seq(*t))
    if controls is not None:
        req.kids.append(controls)
    if popo is None and sign is not None:
        popo = tagged(1, alg_id, bits(sign(tlv.dump(req))))
    return seq(req, popo) if popo is not None else seq(req)
