"""PKIMessages and certificate requests as DER trees, so a workload can change any part and encode it again."""

from vlib import tlv

HDR = {"messageTime": 0, "protectionAlg": 1, "senderKID": 2, "recipKID": 3, "transactionID": 4, "senderNonce": 5,
       "recipNonce": 6, "freeText": 7, "generalInfo": 8}


def ctx(n, cons=True):
    return bytes([0x80 | (0x20 if cons else 0) | n])


def octets(b):
    return tlv.Node(b"\x04", False, b)


def bits(b):
    return tlv.Node(b"\x03", False, b"\x00" + b)


def integer(n):
    return tlv.Node(b"\x02", False, n.to_bytes(n.bit_length() // 8 + 1, "big", signed=True))


class M:
    """SEQUENCE { header, body, [0] protection, [1] extraCerts }"""

    def __init__(self, raw):
        self.t = tlv.parse(raw)

    def der(self):
        return tlv.dump(self.t)

    @property
    def header(self):
        return self.t.kids[0]

    @property
    def body(self):
        """The body inside its explicit tag."""
        return self.t.kids[1].kids[0]

    @body.setter
    def body(self, node):
        self.t.kids[1].kids[0] = node

    @property
    def kind(self):
        return self.t.kids[1].tag[0] & 0x1F

    def _opt(self, n):
        return next((k for k in self.t.kids[2:] if k.tag[0] & 0x1F == n), None)

    @property
    def protection(self):
        k = self._opt(0)
        return k.kids[0].val[1:] if k is not None else None

    @protection.setter
    def protection(self, val):
        self.t.kids = [k for k in self.t.kids if k is not self._opt(0)]
        if val is not None:
            self.t.kids.insert(2, tlv.Node(ctx(0), True, kids=[bits(val)]))

    @property
    def certs(self):
        k = self._opt(1)
        return list(k.kids[0].kids) if k is not None else None

    @certs.setter
    def certs(self, nodes):
        self.t.kids = [k for k in self.t.kids if k is not self._opt(1)]
        if nodes is not None:
            self.t.kids.append(tlv.Node(ctx(1), True, kids=[tlv.Node(b"\x30", True, kids=list(nodes))]))

    # -- header fields after sender and recipient: explicit context tags --------------------------
    def get(self, name):
        """Node inside the tag of an optional header field, or None."""
        n = HDR[name]
        return next((k.kids[0] for k in self.header.kids[3:] if k.tag[0] & 0x1F == n), None)

    def set(self, name, node):
        n = HDR[name]
        kids = [k for k in self.header.kids[3:] if k.tag[0] & 0x1F != n]
        if node is not None:
            kids.append(tlv.Node(ctx(n), True, kids=[node]))
            kids.sort(key=lambda k: k.tag[0] & 0x1F)
        self.header.kids[3:] = kids

    def value(self, name):
        k = self.get(name)
        return None if k is None else k.val

    # -- certificate requests ---------------------------------------------------------------------
    def crm(self, i=0):
        return Crm(self.body.kids[i])

    @property
    def csr(self):
        """[certificationRequestInfo, signatureAlgorithm, signature]"""
        return self.body


class Crm:
    """SEQUENCE { certReq { certReqId, certTemplate, controls? }, popo?, regInfo? }"""

    def __init__(self, node):
        self.n = node

    @property
    def cert_req(self):
        return self.n.kids[0]

    @property
    def template(self):
        return self.n.kids[0].kids[1]

    @template.setter
    def template(self, node):
        self.n.kids[0].kids[1] = node

    @property
    def popo(self):
        return next((k for k in self.n.kids[1:] if k.tag[0] & 0xC0 == 0x80), None)

    @popo.setter
    def popo(self, node):
        rest = [k for k in self.n.kids[1:] if k.tag[0] & 0xC0 != 0x80]
        self.n.kids[1:] = ([node] if node is not None else []) + rest

    def field(self, n):
        return next((k for k in self.template.kids if k.tag[0] & 0x1F == n), None)

    def set_field(self, n, node):
        kids = [k for k in self.template.kids if k.tag[0] & 0x1F != n]
        if node is not None:
            kids.append(node)
        kids.sort(key=lambda k: k.tag[0] & 0x1F)
        self.template.kids = kids
