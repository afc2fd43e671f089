"""A small DER tree: parse, walk, change one node, encode again (with correct lengths)."""


class Node:
    __slots__ = ("tag", "cons", "val", "kids")

    def __init__(self, tag, cons, val=b"", kids=None):
        self.tag, self.cons, self.val, self.kids = tag, cons, val, kids

    def __repr__(self):
        return f"<{self.tag.hex()} {'' if self.cons else self.val.hex()[:20]}>"


def _length(n):
    if n < 0x80:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(b)]) + b


def tlv(tag, val):
    if isinstance(tag, int):
        tag = bytes([tag])
    return tag + _length(len(val)) + val


def _one(data, pos):
    start = pos
    first = data[pos]
    pos += 1
    if first & 0x1F == 0x1F:
        while data[pos] & 0x80:
            pos += 1
        pos += 1
    tag = data[start:pos]
    n = data[pos]
    pos += 1
    if n & 0x80:
        k = n & 0x7F
        if k == 0 or k > 4:
            raise ValueError("length")
        n = int.from_bytes(data[pos:pos + k], "big")
        pos += k
    if pos + n > len(data):
        raise ValueError("short")
    return tag, data[pos:pos + n], pos + n


def parse(data):
    """One node; ValueError/IndexError if not a single DER value."""
    tag, val, end = _one(data, 0)
    if end != len(data):
        raise ValueError("rest")
    return _node(tag, val)


def _node(tag, val):
    if tag[0] & 0x20:
        kids, pos = [], 0
        while pos < len(val):
            t, v, pos = _one(val, pos)
            kids.append(_node(t, v))
        return Node(tag, True, kids=kids)
    return Node(tag, False, val)


def dump(node):
    if node.cons:
        return tlv(node.tag, b"".join(dump(k) for k in node.kids))
    return tlv(node.tag, node.val)


def copy(node):
    return Node(node.tag, node.cons, node.val, [copy(k) for k in node.kids] if node.cons else None)


def walk(node, path=()):
    """(path, node) for every node; path is a tuple of child indices."""
    yield path, node
    if node.cons:
        for i, k in enumerate(node.kids):
            yield from walk(k, path + (i,))


def at(node, path):
    for i in path:
        node = node.kids[i]
    return node


def leaves(node):
    return [(p, n) for p, n in walk(node) if not n.cons]


def flip(val, rng):
    """Change one bit."""
    i = rng.randrange(len(val))
    return val[:i] + bytes([val[i] ^ (1 << rng.randrange(8))]) + val[i + 1:]


def mutate_leaf(root, path, rng, kind=None):
    """A copy with one leaf changed. Returns (kind, tree)."""
    out = copy(root)
    n = at(out, path)
    kinds = ["flip", "flip", "append", "truncate", "empty", "random"]
    kind = kind or rng.choice(kinds)
    v = n.val
    if kind == "flip" and v:
        n.val = flip(v, rng)
    elif kind == "truncate" and len(v) > 1:
        n.val = v[:-1]
    elif kind == "empty" and v:
        n.val = b""
    elif kind == "random" and v:
        n.val = bytes(rng.randrange(256) for _ in v)
    else:
        kind = "append"
        n.val = v + bytes([rng.randrange(1, 256)])
    return kind, out


def mutate_struct(root, path, rng):
    """A copy with one child of the constructed node at path dropped, doubled, swapped or retagged."""
    out = copy(root)
    n = at(out, path)
    if not n.cons or not n.kids:
        return None, out
    i = rng.randrange(len(n.kids))
    kind = rng.choice(["drop", "double", "swap", "retag"])
    if kind == "drop":
        del n.kids[i]
    elif kind == "double":
        n.kids.insert(i, copy(n.kids[i]))
    elif kind == "swap" and len(n.kids) > 1:
        j = rng.choice([x for x in range(len(n.kids)) if x != i])
        n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
    else:
        kind = "retag"
        k = n.kids[i]
        k.tag = bytes([k.tag[0] ^ (1 << rng.choice([0, 1, 6, 7]))]) + k.tag[1:]
    return kind, out
