"""C06: wire objects are values: equality, hashing, iteration and repeated use."""
from hypothesis import strategies as st

from vh import flic_model as fm
from vh import ref
from vh.core_model import (A, b, blob_spec, content_obj, content_plain, content_spec, dt, hash_obj, hash_spec, interesting_ints,
                           link_obj, link_plain, link_spec, ms_spec, name_obj, name_plain, name_spec, payload_plain, small_bytes)
from vh.engine import law, require, require_eq
from props import c03, c04

PROPERTY = "C06"
RULE = ("Cases are pairs of object specifications, the second one equal to, a small change of, or independent of the first; "
        "non-trivial = both objects were built; distinct by the pair.")
ASSUMPTIONS = []
LAWS = []

KINDS = {
    "Name": name_spec, "HashValue": hash_spec, "KeyId": hash_spec, "Link": link_spec, "KeyLink": link_spec,
    "Payload": blob_spec, "ValidationPayload": blob_spec, "Pad": st.integers(0, 40), "PayloadType": st.integers(0, 255),
    "ExpiryTime": ms_spec, "SignatureTime": ms_spec, "FinalChunkId": interesting_ints,
    "ContentObject": content_spec(), "Packet": c03.packet_strategy("quick"),
    "NcId": interesting_ints, "StartSegmentId": interesting_ints, "SubtreeSize": interesting_ints, "LeafSize": interesting_ints,
    "KeyNumber": interesting_ints, "KdfAlg": interesting_ints, "HashAlg": interesting_ints, "AeadMode": st.integers(1, 4),
    "AuthTag": small_bytes, "EncryptedNode": small_bytes, "Nonce": small_bytes, "ProtocolFlags": small_bytes,
    "KdfInfo": small_bytes, "WrappedKey": small_bytes, "SubtreeDigest": hash_spec, "LeafDigest": hash_spec,
    "Vendor": fm.vendor_spec, "SuffixComponentType": st.integers(0, 0xFFFF),
    "Locators": fm.locators_spec, "Schema": fm.schema_spec, "NcDef": fm.ncdef_spec, "GroupData": fm.group_data_spec,
    "Pointers": fm.pointers_spec, "HashGroup": fm.hash_group_spec, "NodeData": fm.node_data_spec, "Node": fm.node_spec,
    "KdfData": fm.kdf_spec, "SecurityCtx": fm.security_spec, "Manifest": fm.manifest_spec,
    "FixedHeader": c03.header_strategy("quick"), "ValidationAlg": c03.val_spec.filter(lambda v: v is not None),
    "HeaderPacket": st.fixed_dictionaries({"hdr": c03.header_strategy("quick"), "co": st.one_of(
        st.just({"name": None, "expiry": None, "ptype": None, "payload": b"x", "final": None}), content_spec())}),
    "Wrapper": fm.wrapper_spec, "AeadData": fm.aead_data_spec, "Locator": link_spec.filter(lambda l: l["name"] is not None),
    "LinkObject": st.fixed_dictionaries({"name": name_spec, "link": link_spec, "expiry": st.none() | st.integers(0, 1 << 47)}),
    "ManifestObject": st.fixed_dictionaries({"name": st.none() | name_spec, "manifest": fm.manifest_spec, "packet": st.booleans()}),
    "Tlv": st.tuples(st.integers(0, 0xFFFF), small_bytes).map(list),
    "NameComponent": st.tuples(st.sampled_from([1, 2, 5, 16, 77]), small_bytes).map(list),
}
LEAVES = set(c04.TYPES)
INTS = {"NcId", "StartSegmentId", "SubtreeSize", "LeafSize", "KeyNumber", "KdfAlg", "HashAlg", "AeadMode"}


def build(kind, s):
    if kind in LEAVES:
        cls = c04.leaf_class(kind)
        if kind == "Vendor":
            return fm.vendor_obj(s)
        if kind in ("SubtreeDigest", "LeafDigest"):
            return cls(hash_obj(s))
        return cls(s)
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FixedHeader import FixedHeader
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.KeyId import KeyId
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.Name import NameComponent
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Pad import Pad
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.ValidationPayload import ValidationPayload
    from ccnpy.flic.tlvs.Locator import Locator

    def packet():
        co, v = content_obj(s["co"]), s["val"]
        if v is None:
            return Packet.create_content_object(co)
        return Packet.create_signed_content_object(co, c03.val_obj(v), ValidationPayload(A(v["payload"])))

    def manifest_object():
        co = ContentObject.create_manifest(fm.manifest_obj(s["manifest"]), None if s["name"] is None else name_obj(s["name"]))
        return Packet.create_content_object(co) if s["packet"] else co

    return {
        "Name": lambda: name_obj(s), "HashValue": lambda: hash_obj(s), "KeyId": lambda: KeyId(hash_obj(s)),
        "Link": lambda: link_obj(s), "KeyLink": lambda: KeyLink(link_obj(s)), "Payload": lambda: Payload(payload_plain(s)),
        "ValidationPayload": lambda: ValidationPayload(A(payload_plain(s))), "Pad": lambda: Pad(s),
        "PayloadType": lambda: PayloadType(s), "ExpiryTime": lambda: ExpiryTime(s / 1000.0),
        "SignatureTime": lambda: SignatureTime(s / 1000.0), "FinalChunkId": lambda: FinalChunkId(s),
        "ContentObject": lambda: content_obj(s), "Packet": packet, "Locators": lambda: fm.locators_obj(s),
        "Schema": lambda: fm.schema_obj(s), "NcDef": lambda: fm.ncdef_obj(s), "GroupData": lambda: fm.group_data_obj(s),
        "Pointers": lambda: fm.pointers_obj(s), "HashGroup": lambda: fm.hash_group_obj(s),
        "NodeData": lambda: fm.node_data_obj(s), "Node": lambda: fm.node_obj(s), "KdfData": lambda: fm.kdf_obj(s),
        "SecurityCtx": lambda: fm.security_obj(s), "Manifest": lambda: fm.manifest_obj(s),
        "HeaderPacket": lambda: Packet(FixedHeader(packet_type=s["hdr"]["type"], packet_length=s["hdr"]["len"], fields=s["hdr"]["fields"]),
                                       content_obj(s["co"])),
        "FixedHeader": lambda: FixedHeader(packet_type=s["type"], packet_length=s["len"], fields=s["fields"], header_length=s["hlen"]),
        "ValidationAlg": lambda: c03.val_obj(s), "Tlv": lambda: Tlv(s[0], A(s[1])),
        "NameComponent": lambda: NameComponent(s[0], A(s[1])), "Wrapper": lambda: fm.wrapper_obj(s), "AeadData": lambda: fm.aead_data_obj(s),
        "Locator": lambda: Locator(link_obj(s)),
        "LinkObject": lambda: ContentObject.create_link(link_obj(s["link"]), name_obj(s["name"]), None if s["expiry"] is None else dt(s["expiry"])),
        "ManifestObject": manifest_object,
    }[kind]()


def tweak(spec, pos):
    """A small change at a position of a specification tree."""
    if isinstance(spec, bool) or spec is None:
        return spec
    if isinstance(spec, int):
        return spec ^ 1
    if isinstance(spec, bytes):
        if not spec:
            return b"\0"
        i = pos % len(spec)
        return spec[:i] + bytes([spec[i] ^ 1]) + spec[i + 1:]
    if isinstance(spec, str):
        return spec
    if isinstance(spec, dict):
        keys_ = [k for k in sorted(spec) if spec[k] is not None and not isinstance(spec[k], (str, bool))]
        if not keys_:
            return spec
        k = keys_[pos % len(keys_)]
        return dict(spec, **{k: tweak(spec[k], pos // len(keys_))})
    if isinstance(spec, (list, tuple)):
        idx = [i for i, v in enumerate(spec) if v is not None and not isinstance(v, (str, bool))]
        if not idx:
            return spec
        i = idx[pos % len(idx)]
        out = list(spec)
        out[i] = tweak(spec[i], pos // len(idx))
        return out
    return spec


def places(spec, path=()):
    """Where something can be left out, or put in another order."""
    if isinstance(spec, dict):
        for k in sorted(spec):
            if spec[k] is not None and not isinstance(spec[k], bool):
                yield path + (k,)
            yield from places(spec[k], path + (k,))
    elif isinstance(spec, (list, tuple)):
        for i, v in enumerate(spec):
            if isinstance(v, (list, tuple, dict)):
                yield path + (i,)
            yield from places(v, path + (i,))


def rearrange(spec, pos):
    """A part of a specification is left out, or a list is in the other order."""
    at = list(places(spec))
    if not at:
        return spec

    def change(x, path):
        if not path:
            return None
        k = path[0]
        if isinstance(x, dict):
            return dict(x, **{k: change(x[k], path[1:])})
        if len(path) == 1:
            return list(x[:k]) + list(x[k + 1:]) if pos % 2 else list(x[k + 1:]) + list(x[:k + 1])
        return list(x[:k]) + [change(x[k], path[1:])] + list(x[k + 1:])

    return change(spec, at[(pos >> 1) % len(at)])


def pair_strategy(tier):
    def for_kind(kind):
        s = KINDS[kind]
        second = st.one_of(st.just(["same"]), st.integers(0, 1 << 16).map(lambda p: ["tweak", p]),
                           st.integers(0, 1 << 16).map(lambda p: ["rearrange", p]), st.integers(0, 1 << 16).map(lambda p: ["tweak", p]), s.map(lambda x: ["other", x]))
        return st.fixed_dictionaries({"kind": st.just(kind), "a": s, "b": second})
    return st.sampled_from(sorted(KINDS)).flatmap(for_kind)


@law(LAWS, 4000, pair_strategy)
def equality(case, ctx):
    """Two objects of a kind are equal exactly when their encodings are equal; equality is symmetric, agrees with '!=' and with
    hashing, and comparing with something else is just unequal."""
    kind, sa = case["kind"], case["a"]
    how = case["b"][0]
    sb = sa if how == "same" else tweak(sa, case["b"][1]) if how == "tweak" else rearrange(sa, case["b"][1]) if how == "rearrange" else case["b"][1]
    x = build(kind, sa)
    try:
        y = build(kind, sb)
        wy = b(y.serialize())
    except Exception:
        require(how in ("tweak", "rearrange"), "an object could not be built")
        ctx.exclude("the tweak made an invalid specification")
        return
    wx = b(x.serialize())
    same = wx == wy
    ctx.label(kind, how, "equal" if same else "different")
    ctx.nontrivial()
    if how == "same":
        require(same, "two %s built from the same values have different encodings", kind)
    require_eq(x == y, same, "%s equality" % kind)
    require_eq(y == x, same, "%s equality, the other way" % kind)
    require_eq(x != y, not same, "%s inequality" % kind)
    require(x == x and not (x != x), "%s is not equal to itself", kind)
    for other in (None, 0, "x", b"x", object(), [], wx):
        require(not (x == other) and x != other, "%s equals %r", kind, other)
    try:
        hx, hy = hash(x), hash(y)
    except TypeError:
        ctx.label("unhashable")
        return
    require_eq(hash(x), hx, "%s hash is not stable" % kind)
    if same and type(x).__hash__ is not object.__hash__:
        require_eq(hy, hx, "%s hash of equal objects" % kind)
        require_eq(len({x, y}), 1, "%s set of two equal objects" % kind)
    if not same:
        require_eq(len({x, y}), 2, "%s set of two different objects" % kind)


# kinds which are made of the same things
FAMILIES = [(["ExpiryTime", "SignatureTime"], ms_spec), (sorted(INTS - {"AeadMode"}) + ["FinalChunkId"], interesting_ints),
            (["HashValue", "KeyId", "SubtreeDigest", "LeafDigest"], hash_spec), (["Link", "KeyLink"], link_spec),
            (["Link", "KeyLink", "Locator"], link_spec.filter(lambda l: l["name"] is not None)),
            (["AuthTag", "EncryptedNode", "Nonce", "ProtocolFlags", "KdfInfo", "WrappedKey"], small_bytes), (["Payload", "ValidationPayload"], blob_spec),
            (sorted(INTS) + ["FinalChunkId", "PayloadType", "SuffixComponentType", "Pad"], st.integers(1, 4))]


def two_kinds_strategy(tier):
    one = st.sampled_from(sorted(KINDS)).flatmap(lambda k: st.tuples(st.just(k), KINDS[k])).map(list)

    def of(family):
        kind = st.sampled_from(family[0])
        return st.tuples(kind, kind, family[1]).map(lambda t: [[t[0], t[2]], [t[1], t[2]]])

    return st.one_of(st.tuples(one, one).map(list), st.sampled_from(FAMILIES).flatmap(of))


@law(LAWS, 1600, two_kinds_strategy)
def different_kinds(case, ctx):
    """Objects of different kinds with different encodings are never equal, and comparing them does not fail."""
    (ka, sa), (kb, sb) = case
    x, y = build(ka, sa), build(kb, sb)
    same = b(x.serialize()) == b(y.serialize())
    ctx.label("same encoding" if same else "different encoding")
    ctx.nontrivial(ka != kb)
    if not same:
        require(not (x == y) and not (y == x) and x != y, "a %s equals a %s", ka, kb)
    else:
        x == y


def use_strategy(tier):
    one = st.sampled_from(sorted(KINDS)).flatmap(lambda k: st.tuples(st.just(k), KINDS[k])).map(list)
    return st.fixed_dictionaries({"obj": one, "ops": st.lists(st.sampled_from(
        ["serialize", "iter", "len", "eq", "embed", "parse", "half_iter", "flatten", "print", "hash", "nested"]), min_size=1, max_size=8)})


@law(LAWS, 2400, use_strategy)
def repeated_use(case, ctx):
    """Serializing, measuring, iterating, comparing, parsing or embedding an object, any number of times and in any order, does
    not change it."""
    from ccnpy.core.Serializable import Serializable
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.ValidationAlg import ValidationAlg
    kind, s = case["obj"]
    x = build(kind, s)
    want = b(build(kind, s).serialize())
    twin = build(kind, s)
    first_iter = None
    length = len(x) if hasattr(type(x), "__len__") else len(want)
    if kind != "Pointers":
        require_eq(length, len(want), "%s length" % kind)
    ctx.nontrivial(len(case["ops"]) >= 2)
    ctx.label(kind)
    for op in case["ops"]:
        if op == "serialize":
            require_eq(b(x.serialize()), want, "%s encoding" % kind)
        elif op == "len":
            if hasattr(type(x), "__len__"):
                require_eq(len(x), length, "%s length" % kind)
        elif op == "print":
            co = s if kind == "ContentObject" else s["co"] if kind in ("Packet", "HeaderPacket") else None
            if co is not None and co["ptype"] in (2, 3):
                continue  # printing parses the payload, which is not a link or manifest here
            require_eq((repr(x), str(x)), (repr(twin), str(twin)), "%s printed" % kind)
        elif op == "hash":
            if type(x).__hash__ is not None and type(x).__hash__ is not object.__hash__:
                require_eq(hash(x), hash(twin), "%s hash" % kind)
        elif op == "eq":
            require(x == twin, "%s differs from its twin", kind)
        elif op == "embed":
            if 2 * len(want) > 0xFFFF:
                continue
            value = [x, x] if isinstance(x, Serializable) else A(want + want)
            require_eq(b(Tlv(0x77, value).serialize()), ref.tlv(0x77, want + want), "two %s inside a TLV" % kind)
        elif op == "flatten":
            if isinstance(x, Serializable):
                require_eq(b(Tlv.flatten([None, Tlv(1, A(b"a")), x, 7])), ref.tlv(1, b"a") + want + b"\7",
                           "%s flattened" % kind)
        elif op in ("iter", "half_iter", "nested"):
            if not hasattr(type(x), "__iter__"):
                continue
            if kind == "Node" and any(g["ptrs"] and (g["data"] is None or g["data"]["nc"] is None) for g in s["groups"]):
                continue
            it = iter(x)
            if op == "half_iter":
                next(it, None)
                continue
            items = list(it)
            if op == "nested":
                pairs = [(i, j) for i in zip(x, range(6)) for j in zip(x, range(6))]
                require_eq(len(pairs), min(6, len(items)) ** 2, "%s pairs of items of two interleaved iterations" % kind)
            if first_iter is None:
                first_iter = items
            require_eq(len(items), len(first_iter), "%s number of items of a second iteration" % kind)
            require(items == first_iter, "%s second iteration", kind)
        elif op == "parse":
            if kind in ("Link", "Packet", "HeaderPacket", "Manifest", "FixedHeader", "Tlv", "NameComponent") or kind == "ManifestObject" and s["packet"]:
                type(x).deserialize(A(want))
            elif kind == "Schema":
                type(x).parse(Tlv.deserialize(x.serialize()))
            elif kind == "ValidationAlg":
                require(ValidationAlg.parse(Tlv.deserialize(x.serialize())) == x or s.get("key") is not None, "%s parsed", kind)
            elif kind == "Pad":
                type(x).parse(Tlv.deserialize(x.serialize()))
            elif kind in ("Wrapper", "AeadData"):
                require(type(x).parse(x.serialize()) == x, "%s parsed", kind)
            else:
                require(type(x).parse(Tlv.deserialize(x.serialize())) == x, "%s parsed", kind)
    require_eq(b(x.serialize()), want, "%s encoding after %s" % (kind, case["ops"]))
    require(x == twin, "%s differs from its twin after %s", kind, case["ops"])
