"""Encodings as trees of TLVs: changes that keep all lengths right, and the canonical encoding of what the bytes say."""
from hypothesis import strategies as st

from . import flic_model as fm
from . import ref

# kind of container -> type -> kind of what is inside (others are leaves)
CONTAINERS = {
    "name": {}, "ptrs": {}, "link": {ref.T_NAME: "name", 2: "hash", 3: "hash"}, "hash": {}, "kdf": {},
    "locators": {fm.LINK: "link"},
    "schema": {ref.T_NAME: "name", fm.LOCATORS: "locators"},
    "ncdef": {fm.HASH_SCHEMA: "schema", fm.PREFIX_SCHEMA: "schema", fm.SEGMENTED_SCHEMA: "schema"},
    "nodedata": {fm.SUBTREE_DIGEST: "hash", fm.NCDEF: "ncdef", fm.LOCATORS: "locators"},
    "groupdata": {fm.SUBTREE_DIGEST: "hash", fm.LEAF_DIGEST: "hash"},
    "group": {fm.GROUP_DATA: "groupdata", fm.PTRS: "ptrs"},
    "node": {fm.NODE_DATA: "nodedata", fm.HASH_GROUP: "group"},
    "ctx": {fm.KDF_DATA: "kdf", fm.KEYID: "hash", fm.KEYLINK: "link"},
    "sec": {fm.AEAD_CTX: "ctx", fm.RSAOAEP_CTX: "ctx"},
    "manifest": {fm.SECURITY_CTX: "sec", fm.NODE: "node"},
    "object": {ref.T_NAME: "name"},
    "rsa": {ref.T_KEYID: "hash", ref.T_KEYLINK: "link"},
    "alg": {ref.T_RSASHA256: "rsa"},
    "packet": {ref.T_OBJECT: "object", ref.T_VALALG: "alg"},
}


def parse(value, kind):
    """[[type, bytes or list]]"""
    out = []
    for t, v in ref.tlvs(value):
        inner = CONTAINERS[kind].get(t)
        out.append([t, v if inner is None else parse(v, inner)])
    return out


def encode(tree):
    return b"".join(ref.tlv(t, v if isinstance(v, bytes) else encode(v)) for t, v in tree)


change = st.tuples(
    st.sampled_from(["again", "again", "twin", "twin", "drop", "move", "move", "type", "value", "value", "wide", "graft", "unknown", "inside"]),
    st.integers(0, 1 << 20), st.integers(0, 1 << 20),
    st.one_of(st.binary(max_size=9), st.sampled_from([b"", b"\0", b"\0\0", b"\xff" * 8, b"\1" + b"\0" * 8, b"\0\1\0\3abc"]))).map(list)


def copy(x):
    return [x[0], x[1] if isinstance(x[1], bytes) else [copy(y) for y in x[1]]]


def lists(tree):
    """All lists of TLVs."""
    yield tree
    for t, v in tree:
        if not isinstance(v, bytes):
            yield from lists(v)


def apply(tree, changes):
    for kind, p, q, data in changes:
        every = list(lists(tree))
        sites = [(l, i) for l in every for i in range(len(l))]
        if not sites:
            return
        l, i = sites[p % len(sites)]
        if kind == "again":
            l.insert([i, len(l), 0][q % 3], copy(l[i]))
        elif kind == "twin":
            x = copy(l[i])
            leaf = x
            while not isinstance(leaf[1], bytes) and leaf[1]:
                leaf = leaf[1][q % len(leaf[1])]
            if isinstance(leaf[1], bytes):
                leaf[1] = leaf[1][:-1] + bytes([leaf[1][-1] ^ 1]) if leaf[1] else b"\1"
            l.insert([i, len(l), 0, i + 1][q % 4], x)
        elif kind == "drop":
            del l[i]
        elif kind == "move":
            x = l.pop(i)
            l.insert(q % (len(l) + 1), x)
        elif kind == "type":
            l[i][0] = q % 18 if q % 5 else [0x0FFE, 0x0FFF, 0x1234, 0x8000 | l[i][0], l[i][0] ^ 1][q % 4]
        elif kind == "value":
            l[i][1] = data
        elif kind == "wide":
            # a number with zeros before it, or a byte more
            if isinstance(l[i][1], bytes):
                l[i][1] = b"\0" * (1 + q % 3) + l[i][1] if q % 2 else l[i][1] + data[:1]
        elif kind == "graft":
            every[q % len(every)].append(copy(l[i]))
        elif kind == "unknown":
            l.insert(i, [[0x1234, 0x0FFE, 0x7FFF, 20][q % 4], data])
        elif kind == "inside":
            # what was a value becomes a TLV
            l[i][1] = ref.tlv(l[i][0], encode([copy(l[i])])[4:])


# ------------------------------------------------- the canonical encoding of what a manifest says, or Malformed

class Unclear(Exception):
    """There is more than one reading, and the library may take any."""


def _fields(value, known, skip):
    """type -> value; unknown fields are skipped or refused."""
    out = {}
    for t, v in ref.tlvs(value):
        if t not in known:
            if skip:
                continue
            raise ref.Malformed("unknown field %d" % t)
        if t in out:
            raise ref.Malformed("field %d twice" % t)
        out[t] = v
    return out


def _number(v):
    n = int.from_bytes(v, "big")
    if n >= 1 << 64:
        raise ref.Malformed("a number of %d bytes" % len(v))
    return ref.varint(n)


def _first(v):
    """The encoding of the first TLV."""
    if len(v) < 4 or len(v) < 4 + int.from_bytes(v[2:4], "big"):
        raise ref.Malformed("no hash value")
    n = int.from_bytes(v[2:4], "big")
    if len(v) > 4 + n:
        raise Unclear("bytes after a TLV")
    return v[:4 + n]


def _put(f, t, g=bytes):
    return ref.tlv(t, g(f[t])) if t in f else b""


def link(v):
    f = _fields(v, (ref.T_NAME, 2, 3), False)
    if ref.T_NAME in f:
        ref.tlvs(f[ref.T_NAME])
    return _put(f, ref.T_NAME) + _put(f, 2, _first) + _put(f, 3, _first)


def locators(v):
    out = b""
    for t, x in ref.tlvs(v):
        if t != fm.LINK:
            raise ref.Malformed("not a link")
        out += ref.tlv(t, link(x))
    return out


def _name(v):
    ref.tlvs(v)
    return v


def schema(t, v):
    known = [fm.LOCATORS, fm.PROTOCOL_FLAGS]
    if t != fm.HASH_SCHEMA:
        known.append(ref.T_NAME)
    if t == fm.SEGMENTED_SCHEMA:
        known.append(fm.SUFFIX_TYPE)
    f = _fields(v, known, True)

    def suffix(x):
        n = int.from_bytes(x, "big")
        if n > 0xFFFF:
            raise ref.Malformed("suffix type %d" % n)
        return n.to_bytes(2, "big")

    return ref.tlv(t, _put(f, ref.T_NAME, _name) + _put(f, fm.SUFFIX_TYPE, suffix) + _put(f, fm.LOCATORS, locators) +
                   _put(f, fm.PROTOCOL_FLAGS))


def ncdef(v):
    ids, schemas = [], []
    for t, x in ref.tlvs(v):
        if t == fm.NCID:
            ids.append(ref.tlv(t, _number(x)))
        elif t in (fm.HASH_SCHEMA, fm.PREFIX_SCHEMA, fm.SEGMENTED_SCHEMA):
            schemas.append(schema(t, x))
        else:
            raise ref.Malformed("field %d in a name constructor definition" % t)
    if len(ids) > 1 or len(schemas) > 1:
        raise ref.Malformed("%d ids and %d schemas" % (len(ids), len(schemas)))
    return b"".join(ids + schemas)


def nodedata(v):
    single, defs, vendors = {}, b"", b""
    for t, x in ref.tlvs(v):
        if t == fm.NCDEF:
            defs += ref.tlv(t, ncdef(x))
        elif t == fm.ORG:
            if len(x) < 3:
                raise ref.Malformed("no enterprise number")
            vendors += ref.tlv(t, x)
        elif t in (fm.SUBTREE_SIZE, fm.SUBTREE_DIGEST, fm.LOCATORS):
            if t in single:
                raise ref.Malformed("field %d twice" % t)
            single[t] = x
        else:
            raise ref.Malformed("field %d in node data" % t)
    return (_put(single, fm.SUBTREE_SIZE, _number) + _put(single, fm.SUBTREE_DIGEST, _first) + _put(single, fm.LOCATORS, locators) +
            defs + vendors)


def groupdata(v):
    f = _fields(v, (fm.SUBTREE_SIZE, fm.SUBTREE_DIGEST, fm.LEAF_SIZE, fm.LEAF_DIGEST, fm.NCID, fm.START_SEGMENT_ID), True)
    return (_put(f, fm.SUBTREE_SIZE, _number) + _put(f, fm.SUBTREE_DIGEST, _first) + _put(f, fm.LEAF_SIZE, _number) +
            _put(f, fm.LEAF_DIGEST, _first) + _put(f, fm.NCID, _number) + _put(f, fm.START_SEGMENT_ID, _number))


def group(v):
    f = _fields(v, (fm.GROUP_DATA, fm.PTRS), True)
    return _put(f, fm.GROUP_DATA, groupdata) + _put(f, fm.PTRS, _name)


def node(v):
    data, groups = None, b""
    for t, x in ref.tlvs(v):
        if t == fm.NODE_DATA:
            if data is not None:
                raise ref.Malformed("node data twice")
            data = ref.tlv(t, nodedata(x))
        elif t == fm.HASH_GROUP:
            groups += ref.tlv(t, group(x))
        elif t != ref.T_PAD:
            raise ref.Malformed("field %d in a node" % t)
    return (data or b"") + groups


def kdf(v):
    f = _fields(v, (fm.KDF_ALG, fm.KDF_INFO), True)
    return _put(f, fm.KDF_ALG, _number) + _put(f, fm.KDF_INFO)


def ctx(t, v):
    known = [fm.KEYNUM, fm.NONCE, fm.AEAD_MODE, fm.KDF_DATA]
    if t == fm.RSAOAEP_CTX:
        known += [fm.KEYID, fm.KEYLINK, fm.HASH_ALG, fm.WRAPPED_KEY]
    f = _fields(v, known, True)

    if fm.KEYNUM not in f or fm.NONCE not in f or fm.AEAD_MODE not in f:
        raise Unclear("no key number, nonce or mode")
    return ref.tlv(t, _put(f, fm.KEYNUM, _number) + _put(f, fm.NONCE) + _put(f, fm.AEAD_MODE, _number) + _put(f, fm.KDF_DATA, kdf) +
                   _put(f, fm.KEYID, _first) + _put(f, fm.KEYLINK, link) + _put(f, fm.HASH_ALG, _number) + _put(f, fm.WRAPPED_KEY))


def manifest(buf):
    sec = body = tag = None
    for t, v in ref.tlvs(buf):
        if t == fm.SECURITY_CTX:
            if sec is not None:
                raise ref.Malformed("two security contexts")
            first = _first(v)
            ft = int.from_bytes(first[:2], "big")
            if ft not in (fm.AEAD_CTX, fm.RSAOAEP_CTX):
                raise ref.Malformed("security context %d" % ft)
            sec = ref.tlv(t, ctx(ft, first[4:]))
        elif t in (fm.NODE, fm.ENCRYPTED_NODE):
            if body is not None:
                raise ref.Malformed("two nodes")
            body = ref.tlv(t, node(v) if t == fm.NODE else v)
        elif t == fm.AUTH_TAG:
            if tag is not None:
                raise Unclear("two tags")
            tag = ref.tlv(t, v)
        else:
            raise ref.Malformed("field %d in a manifest" % t)
    return (sec or b"") + (body or b"") + (tag or b"")
