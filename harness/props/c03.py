"""C03: packets and content objects keep their meaning and their bytes across the wire."""
import array
import datetime
import os
import struct
import tempfile
import time

from hypothesis import strategies as st

from vh import keys, ref
from vh.core_model import (A, b, blob_spec, component_plain, content_obj, content_plain, content_spec, datetime_ms, dt,
                           hash_obj, hash_spec, interesting_ints, link_obj, link_plain, link_spec, ms_spec, name_obj,
                           name_plain, name_spec, payload_plain, small_bytes, time_zone, zone_names)
from vh.engine import law, require, require_eq

PROPERTY = "C03"
RULE = ("Cases are specifications of TLVs, names, links, content objects and packets, drawn with Hypothesis; "
        "non-trivial = the object has at least one field with a non-empty value (for packets: at least two fields "
        "set, or a validation section); distinct by the specification.")
ASSUMPTIONS = ["Values are in the range the format can hold: a packet is at most 65535 bytes, integers are below 2^64, "
               "times are whole milliseconds below 2^48."]
LAWS = []


# --------------------------------------------------------------------------------------------- TLV framing

def tree_strategy(tier):
    leaf = st.tuples(st.integers(0, 0xFFFF), st.one_of(small_bytes, blob_spec)).map(list)
    return st.fixed_dictionaries({
        "tree": st.recursive(leaf, lambda kids: st.tuples(st.integers(0, 0xFFFF), st.lists(kids, max_size=4).map(
            lambda x: {"kids": x})).map(list), max_leaves=8),
        "tail": st.binary(max_size=6),
        "as": st.sampled_from(["array", "list", "tlv"]),
    })


def tree_plain(node):
    t, v = node
    if isinstance(v, dict):
        return ref.tlv(t, b"".join(tree_plain(k) for k in v["kids"]))
    return ref.tlv(t, payload_plain(v))


def tree_obj(node, how):
    from ccnpy.core.Tlv import Tlv
    t, v = node
    if isinstance(v, dict):
        kids = [tree_obj(k, how) for k in v["kids"]]
        if how == "tlv" and len(kids) == 1:
            return Tlv(t, kids[0])
        return Tlv(t, kids)
    v = payload_plain(v)
    return Tlv(t, list(v) if how == "list" else A(v))


@law(LAWS, 1600, tree_strategy)
def tlv_framing(case, ctx):
    """A TLV tree serializes to type, 16-bit length and value, and parses back, also when other bytes follow."""
    from ccnpy.core.Tlv import Tlv
    try:
        want = tree_plain(case["tree"])
        ref.tlv(0, want + ref.tlv(0, case["tail"]))
    except OverflowError:
        ctx.exclude("longer than 65535 bytes")
        return
    tlv = tree_obj(case["tree"], case["as"])
    ctx.nontrivial(len(want) > 4)
    ctx.label("nested" if isinstance(case["tree"][1], dict) else "leaf", "size>255" if len(want) > 259 else "small")
    require_eq(b(tlv.serialize()), want, "encoding")
    require_eq(len(tlv), len(want), "length")
    require_eq(b(list(iter(tlv))), want, "iteration")
    for buf in (A(want + case["tail"]), want + case["tail"]):
        back = Tlv.deserialize(buf)
        require_eq(back.type(), case["tree"][0], "type")
        require_eq(b(back.value()), want[4:], "value")
        require_eq(back.length(), len(want) - 4, "value length")
        require_eq(b(back.serialize()), want, "re-encoding")
        require(back == tlv, "the parsed TLV differs from the original")
    other = Tlv(case["tree"][0], A(case["tail"]))
    ext = tlv.extend(other)
    require_eq(b(ext.serialize()), ref.tlv(case["tree"][0], want[4:] + ref.tlv(case["tree"][0], case["tail"])),
               "extended TLV")
    require_eq((b(tlv.serialize()), b(tlv.value()), len(tlv)), (want, want[4:], len(want)), "the TLV that was extended")
    require_eq(b(tlv.extend(other).serialize()), b(ext.serialize()), "the TLV extended again")


def integer_strategy(tier):
    return st.fixed_dictionaries({"t": st.integers(0, 0xFFFF), "n": interesting_ints,
                                  "bytes": st.binary(min_size=1, max_size=9)})


def integer_enumeration(tier):
    for n in list(range(0, 600)) + [(1 << k) + d for k in range(8, 64) for d in (-1, 0, 1)] + [(1 << 64) - 1]:
        yield {"t": n & 0xFFFF, "n": n, "bytes": b"\0" + n.to_bytes(8, "big")}


@law(LAWS, 800, integer_strategy, integer_enumeration)
def tlv_integers(case, ctx):
    """Integer TLVs are big endian, in the documented number of bytes, and read back as the same integer."""
    from ccnpy.core.Tlv import Tlv
    t, n = case["t"], case["n"]
    ctx.nontrivial(n > 0)
    ctx.label("bytes:%d" % len(ref.varint(n)))
    require_eq(b(Tlv.number_to_array(n)), ref.varint(n), "number_to_array(%d)" % n)
    require_eq(b(Tlv.uint64_to_array(n)), struct.pack("!Q", n), "uint64_to_array(%d)" % n)
    makers = [("create_varint", Tlv.create_varint, ref.varint(n)), ("create_uint64", Tlv.create_uint64,
                                                                   struct.pack("!Q", n))]
    if n < 256:
        makers.append(("create_uint8", Tlv.create_uint8, bytes([n])))
    if n < 65536:
        makers.append(("create_uint16", Tlv.create_uint16, struct.pack("!H", n)))
        require_eq(b(Tlv.uint16_to_array(n)), struct.pack("!H", n), "uint16_to_array")
    if n < 1 << 24:
        require_eq(b(Tlv.uint24_to_array(n)), struct.pack("!I", n)[1:], "uint24_to_array")
    if n < 1 << 32:
        require_eq(b(Tlv.uint32_to_array(n)), struct.pack("!I", n), "uint32_to_array")
    for what, maker, value in makers:
        tlv = maker(t, n)
        require_eq(b(tlv.serialize()), ref.tlv(t, value), what)
        require_eq(tlv.value_as_number(), n, what + " read back")
        require_eq(Tlv.deserialize(A(ref.tlv(t, value))).value_as_number(), n, what + " parsed")
    require_eq(Tlv.array_to_number(A(case["bytes"])), int.from_bytes(case["bytes"], "big"), "array_to_number")


def oversize_strategy(tier):
    return st.fixed_dictionaries({"t": st.integers(0, 0xFFFF), "n": st.sampled_from(
        [65530, 65531, 65534, 65535, 65536, 65537, 70000, 131072, 65536 + 256]),
        "what": st.sampled_from(["tlv", "payload", "name", "content", "packet"])})


@law(LAWS, 120, oversize_strategy)
def too_long_is_refused(case, ctx):
    """A value that does not fit the 16-bit length fields is refused, never silently encoded with a wrong length."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    from ccnpy.core.Tlv import Tlv
    n, what = case["n"], case["what"]
    ctx.nontrivial()
    value = ref.blob("shake", n, n)

    def want():
        if what == "tlv":
            return ref.tlv(case["t"], value)
        if what == "payload":
            return ref.tlv(ref.T_PAYLOAD, value)
        if what == "name":
            return ref.name([(1, value)])
        co = ref.content_object(payload_type=0, payload=value)
        return co if what == "content" else ref.packet(co)

    def make():
        if what == "tlv":
            return Tlv(case["t"], A(value))
        if what == "payload":
            return Payload(value)
        if what == "name":
            return Name([NameComponent.create_name_segment(value)])
        co = ContentObject.create_data(payload=value)
        return co if what == "content" else Packet.create_content_object(co)

    try:
        expected = want()
    except OverflowError:
        expected = None
    try:
        got = b(make().serialize())
    except Exception:
        got = None
    ctx.label("fits" if expected is not None else "too long")
    if expected is None:
        require(got is None, "%s of %d bytes was encoded to %d bytes", what, n, len(got or b""))
    else:
        require_eq(got, expected, "%s of %d bytes" % (what, n))


# what -> (type, smallest, number of bytes or 0 for as few as a varint needs)
INTEGERS = {"tlv": (9, 0), "final": (7, 0), "chunk": (5, 0), "manifest": (0x10, 0), "key": (0, 0), "ncid": (5, 0), "size": (2, 0), "leaf": (0, 0),
            "start": (4, 0), "kdf": (6, 0), "expiry": (6, 8), "expiry_ms": (6, 8), "sigtime_ms": (0x0F, 8), "expiry_dt": (6, 8),
            "tlv type": (None, 2), "component": (None, 2), "hash": (None, 2), "ptype": (5, 1)}


def big_int_strategy(tier):
    anything = st.one_of(st.integers(1 << 64, 1 << 80), st.integers(0, 20).map(lambda k: (1 << 64) + k),
                         st.integers(64, 300).map(lambda k: 1 << k), st.integers(0, 20).map(lambda k: (1 << 64) - 1 - k),
                         st.integers(-1000, -1), st.integers(0, 1 << 70).map(lambda k: -k), st.integers(1, 70).map(lambda k: -(1 << k)),
                         interesting_ints, st.integers(65530, 65540), st.integers(250, 260))
    return st.fixed_dictionaries({"n": anything, "what": st.sampled_from(sorted(INTEGERS))})


@law(LAWS, 600, big_int_strategy)
def too_big_is_refused(case, ctx):
    """An integer that does not fit its field, as it is too large or negative, is refused, never silently encoded as another integer."""
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    n, what = case["n"], case["what"]
    t, width = INTEGERS[what]
    ctx.label(what)
    exact = abs(n) < 1 << 52      # as a floating point number of seconds
    if what.endswith("_ms") and not exact:
        ctx.exclude("not a number of milliseconds that a time can hold")
        return
    if what == "expiry_dt" and not -60_000_000_000_000 < n < 253_402_000_000_000:
        ctx.exclude("not a time of a datetime")
        return
    make = {"tlv": lambda: Tlv.create_varint(9, n), "expiry": lambda: Tlv.create_uint64(6, n),
            "final": lambda: FinalChunkId(n), "chunk": lambda: Name([]).append_chunk_id(n), "manifest": lambda: Name([]).append_manifest_id(n),
            "key": lambda: KeyNumber(n), "ncid": lambda: NcId(n), "size": lambda: SubtreeSize(n), "leaf": lambda: LeafSize(n),
            "start": lambda: StartSegmentId(n), "kdf": lambda: KdfAlg(n),
            "expiry_ms": lambda: ExpiryTime(n / 1000.0), "sigtime_ms": lambda: SignatureTime(n / 1000.0),
            "expiry_dt": lambda: ExpiryTime.from_datetime(dt(n)),
            "tlv type": lambda: Tlv(n, A(b"x")), "component": lambda: NameComponent(n, A(b"x")), "hash": lambda: HashValue(n, A(b"x" * 32)),
            "ptype": lambda: PayloadType(n)}[what]
    try:
        obj = make()
        wire = b(obj.serialize())
    except Exception:
        wire = None
    most = 1 << (8 * (width or 8))
    fits = 0 <= n < most
    ctx.label("fits" if fits else "negative" if n < 0 else "too large")
    ctx.nontrivial(not fits)
    if fits and what in ("ptype", "hash", "kdf"):
        ctx.exclude("not every number has a meaning there")
    elif fits:
        if width == 2:
            require(wire is not None and wire[:2] == n.to_bytes(2, "big"), "%d as %s", n, what)
        else:
            value = n.to_bytes(8, "big") if width == 8 else ref.varint(n)
            want = ref.tlv(t, value)
            require(wire is not None and wire.endswith(want), "%d as %s is %s", n, what, wire)
    else:
        require(wire is None, "%d was encoded as %s", n, wire)


# ---------------------------------------------------------------------------------------------- small types

def small_type_strategy(tier):
    return st.one_of(
        st.tuples(st.just("hash"), hash_spec),
        st.tuples(st.just("keyid"), hash_spec),
        st.tuples(st.just("link"), link_spec),
        st.tuples(st.just("keylink"), link_spec),
        st.tuples(st.just("payload"), blob_spec),
        st.tuples(st.just("valpayload"), blob_spec),
        st.tuples(st.just("pad"), st.integers(0, 300)),
        st.tuples(st.just("ptype"), st.integers(0, 255)),
        st.tuples(st.just("expiry"), ms_spec),
        st.tuples(st.just("expiry_dt"), datetime_ms),
        st.tuples(st.just("sigtime"), ms_spec),
        st.tuples(st.just("sigtime_dt"), datetime_ms),
        st.tuples(st.just("final"), interesting_ints),
        st.tuples(st.just("name"), name_spec),
    ).map(list)


@law(LAWS, 2400, small_type_strategy)
def field_types(case, ctx):
    """Every field of a content object or validation section has the documented encoding and parses back to an equal
    object with the same values."""
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.KeyId import KeyId
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.Link import Link
    from ccnpy.core.Name import Name
    from ccnpy.core.Pad import Pad
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.ValidationPayload import ValidationPayload
    kind, v = case
    ctx.label(kind)
    ctx.nontrivial(v not in (0, b"", []))

    if kind == "link":
        obj, want = link_obj(v), link_plain(v)
        require_eq(b(obj.serialize()), want, "link")
        require_eq(len(obj), len(want), "link length")
        for buf in (A(want),):
            back = Link.deserialize(buf)
            require(back == obj, "parsed link %r differs from %r", back, obj)
            require_eq(b(back.serialize()), want, "link re-encoding")
            require_eq(back.name() is None, v["name"] is None, "link has a name")
            require(back.name() == name_obj(v["name"]), "link name")
            require(back.keyid() == hash_obj(v["keyid"]), "link keyid")
            require(back.digest() == hash_obj(v["digest"]), "link digest")
        return

    if kind == "hash":
        cls, obj, want = HashValue, hash_obj(v), ref.tlv(*v)
    elif kind == "keyid":
        cls, obj, want = KeyId, KeyId(hash_obj(v)), ref.tlv(ref.T_KEYID, ref.tlv(*v))
    elif kind == "keylink":
        cls, obj, want = KeyLink, KeyLink(link_obj(v)), ref.tlv(ref.T_KEYLINK, link_plain(v))
    elif kind == "payload":
        cls, obj, want = Payload, Payload(payload_plain(v)), ref.tlv(ref.T_PAYLOAD, payload_plain(v))
    elif kind == "valpayload":
        cls, obj, want = (ValidationPayload, ValidationPayload(A(payload_plain(v))),
                          ref.tlv(ref.T_VALPAYLOAD, payload_plain(v)))
    elif kind == "pad":
        cls, obj, want = Pad, Pad(v), ref.tlv(ref.T_PAD, bytes(v))
    elif kind == "ptype":
        cls, obj, want = PayloadType, PayloadType(v), ref.tlv(ref.T_PAYLDTYPE, bytes([v]))
    elif kind in ("expiry", "expiry_dt"):
        cls = ExpiryTime
        obj = ExpiryTime(v / 1000.0) if kind == "expiry" else ExpiryTime.from_datetime(dt(v))
        want = ref.tlv(ref.T_EXPIRY, struct.pack("!Q", v))
    elif kind in ("sigtime", "sigtime_dt"):
        cls = SignatureTime
        obj = SignatureTime(v / 1000.0) if kind == "sigtime" else SignatureTime.from_datetime(dt(v))
        want = ref.tlv(ref.T_SIGTIME, struct.pack("!Q", v))
    elif kind == "final":
        cls, obj, want = FinalChunkId, FinalChunkId(v), ref.tlv(ref.T_FINALCHUNK, ref.varint(v))
    else:
        cls, obj, want = Name, name_obj(v), ref.name(name_plain(v))

    require_eq(b(obj.serialize()), want, kind)
    require_eq(len(obj), len(want), kind + " length")
    for buf in (A(want),):
        back = cls.parse(Tlv.deserialize(buf))
        require(back == obj, "%s: the parsed object %s differs from the original", kind, back.serialize())
        require_eq(b(back.serialize()), want, kind + " re-encoding")
        if kind == "keyid":
            require(back.digest() == hash_obj(v), "keyid digest")
        elif kind == "hash":
            require_eq((back.hash_algorithm(), b(back.value())), (v[0], v[1]), "hash value")
        elif kind in ("payload",):
            require_eq(back.value_bytes() if not isinstance(back.value(), bytes) else back.value(),
                       payload_plain(v), "payload value")
        elif kind == "valpayload":
            require_eq(b(back.payload()), payload_plain(v), "validation payload")
        elif kind == "ptype":
            require_eq((back.is_data(), back.is_key(), back.is_link(), back.is_manifest()),
                       (v == 0, v == 1, v == 2, v == 3), "payload type %d" % v)
        elif kind in ("expiry", "expiry_dt", "sigtime", "sigtime_dt"):
            require_eq(back.milliseconds(), v, kind + " milliseconds")
            if v <= 253_402_300_799_000:
                require(abs((back.datetime() - dt(v)).total_seconds()) < 0.001, "%s datetime %r", kind, back.datetime())
        elif kind == "name":
            require_eq(back.count(), len(v), "component count")
            for i, c in enumerate(v):
                t, val = component_plain(c)
                require_eq((back.component(i).type(), b(back.component(i).value())), (t, val), "component %d" % i)


# ------------------------------------------------------------------------------------------ content objects

@law(LAWS, 1600, lambda tier: content_spec(big=True))
def content_objects(case, ctx):
    """A content object serializes to its fields in the standard order and parses back to an equal object."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Tlv import Tlv
    want = content_plain(case)
    obj = content_obj(case)
    present = [k for k, v in case.items() if v is not None]
    ctx.nontrivial(len(present) >= 2)
    ctx.label("fields:%d" % len(present), "size>60000" if len(want) > 60000 else "size>255" if len(want) > 255 else "small")
    require_eq(b(obj.serialize()), want, "content object")
    require_eq(len(obj), len(want), "length")
    back = ContentObject.parse(Tlv.deserialize(A(want)))
    require(back == obj, "the parsed content object differs from the original")
    require_eq(b(back.serialize()), want, "re-encoding")
    for o in (obj, back):
        check_content(o, case)


def check_content(o, case):
    require(o.name() == name_obj(case["name"]), "name %r", o.name())
    payload = payload_plain(case["payload"])
    require_eq(None if o.payload() is None else b(o.payload().value()), payload, "payload")
    require_eq(None if o.expiry_time() is None else o.expiry_time().milliseconds(), case["expiry"], "expiry time")
    require_eq(None if o.final_chunk_id() is None else b(o.final_chunk_id().serialize()),
               None if case["final"] is None else ref.tlv(ref.T_FINALCHUNK, ref.varint(case["final"])), "final chunk id")
    require_eq(None if o.payload_type() is None else b(o.payload_type().serialize()),
               None if case["ptype"] is None else ref.tlv(ref.T_PAYLDTYPE, bytes([case["ptype"]])), "payload type")
    require_eq((o.is_manifest(), o.is_link(), o.is_content_object(), o.is_interest()),
               (case["ptype"] == 3, case["ptype"] == 2, True, False), "kind of object")


def factory_strategy(tier):
    return st.fixed_dictionaries({
        "how": st.sampled_from(["data", "manifest", "link"]),
        "name": st.none() | name_spec,
        "payload": st.none() | blob_spec,
        "wrap": st.booleans(),
        "expiry": st.none() | datetime_ms,
        "expiry_as_tlv": st.booleans(),
        "final": st.none() | interesting_ints,
        "final_as_tlv": st.booleans(),
        "link": link_spec,
    })


@law(LAWS, 800, factory_strategy)
def content_factories(case, ctx):
    """The constructors for data, manifest and link objects give the payload type, times and values that were asked
    for, whichever form the arguments take."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.Payload import Payload
    ctx.label(case["how"])
    ctx.nontrivial(case["expiry"] is not None or case["name"] is not None)
    ms = case["expiry"]
    expiry = None if ms is None else dt(ms)
    payload = payload_plain(case["payload"])
    nm = name_obj(case["name"])
    if case["how"] == "data":
        if ms is not None and case["expiry_as_tlv"]:
            expiry = ExpiryTime.from_datetime(expiry)
        final = case["final"]
        if final is not None and case["final_as_tlv"]:
            final = FinalChunkId(final)
        arg = payload
        if payload is not None:
            arg = Payload(payload) if case["wrap"] else A(payload)
        obj = ContentObject.create_data(name=nm, payload=arg, expiry_time=expiry, final_chunk_id=final)
        want = ref.content_object(name_plain(case["name"]), ms, None if payload is None else 0, payload, case["final"])
    elif case["how"] == "manifest":
        class Thing:
            @staticmethod
            def serialize():
                return A(payload or b"")
        obj = ContentObject.create_manifest(manifest=Thing(), name=nm, expiry_time=expiry)
        want = ref.content_object(name_plain(case["name"]), ms, 3, payload or b"")
    else:
        if nm is None:
            case = dict(case, name=[["n", b"x"]])
            nm = name_obj(case["name"])
        obj = ContentObject.create_link(link=link_obj(case["link"]), name=nm, expiry_time=expiry)
        want = ref.content_object(name_plain(case["name"]), ms, 2, link_plain(case["link"]))
    require_eq(b(obj.serialize()), want, "%s object" % case["how"])


# ---------------------------------------------------------------------------------------------- packets

val_spec = st.one_of(
    st.none(),
    st.fixed_dictionaries({"alg": st.just("crc"), "payload": small_bytes}),
    st.fixed_dictionaries({
        "alg": st.just("rsa"), "payload": st.one_of(small_bytes, st.binary(min_size=128, max_size=128)),
        "keyid": hash_spec, "key": st.none() | st.sampled_from(keys.ALL), "link": st.none() | link_spec,
        "wrap": st.booleans(), "time": datetime_ms}))


def packet_strategy(tier):
    return st.fixed_dictionaries({"co": content_spec(big=False), "val": val_spec})


def val_plain(v):
    if v["alg"] == "crc":
        return ref.validation_alg_crc()
    return ref.validation_alg_rsa(v["keyid"], None if v["key"] is None else keys.public_der(v["key"]),
                                  None if v["link"] is None else link_plain(v["link"]), v["time"])


def val_obj(v):
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    if v["alg"] == "crc":
        return ValidationAlg_Crc32c()
    link = None
    if v["link"] is not None:
        link = link_obj(v["link"])
        if v["wrap"]:
            link = KeyLink(link)
    return ValidationAlg_RsaSha256(keyid=hash_obj(v["keyid"]),
                                   public_key=None if v["key"] is None else keys.public(v["key"]),
                                   key_link=link, signature_time=dt(v["time"]))


@law(LAWS, 1600, packet_strategy)
def packets(case, ctx):
    """A packet serializes to the fixed header, the body and the validation section, with the right total length, and
    parses back to an equal packet, from memory and from a file."""
    from ccnpy.core.Packet import Packet
    from ccnpy.core.ValidationPayload import ValidationPayload
    v = case["val"]
    co = content_obj(case["co"])
    if v is None:
        want = ref.packet(content_plain(case["co"]))
        pkt = Packet.create_content_object(co)
    else:
        want = ref.packet(content_plain(case["co"]), val_plain(v), v["payload"])
        alg = val_obj(v)
        require_eq(len(alg), len(val_plain(v)), "validation algorithm length")
        pkt = Packet.create_signed_content_object(co, alg, ValidationPayload(A(v["payload"])))
    ctx.label("unsigned" if v is None else v["alg"] + ("+key" if v.get("key") else "") + ("+link" if v.get("link") else ""))
    ctx.nontrivial(v is not None or sum(x is not None for x in case["co"].values()) >= 2)
    require_eq(b(pkt.serialize()), want, "packet")
    require_eq(len(pkt), len(want), "packet length")
    backs = [Packet.deserialize(A(want))]
    fd, path = tempfile.mkstemp()
    os.close(fd)
    try:
        pkt.save(path)
        with open(path, "rb") as f:
            require_eq(f.read(), want, "saved file")
        backs.append(Packet.load(path))
    finally:
        os.unlink(path)
    for back in backs:
        require_eq(b(back.serialize()), want, "re-encoding")
        check_content(back.body(), case["co"])
        require(back.body() == co, "body")
        require_eq(back.header().packet_length(), len(want), "header packet length")
        require_eq((back.header().version(), back.header().header_length(), back.header().is_content_object(),
                    back.header().is_interest(), back.header().is_interest_return()), (1, 8, True, False, False), "header")
        require(back.header() == pkt.header(), "header")
        require_eq(b(back.content_object_hash().value()), ref.packet_hash(want), "content object hash")
        if v is None:
            require(back.validation_alg() is None and back.validation_payload() is None, "unsigned packet has validation")
        else:
            require_eq(b(back.validation_payload().payload()), v["payload"], "validation payload")
            require(back.validation_payload() == pkt.validation_payload(), "validation payload")
            require(back.validation_alg() == pkt.validation_alg(), "validation alg")
            require_eq(b(back.validation_alg().serialize()), val_plain(v), "validation alg")
            if v["alg"] == "rsa":
                ra = back.validation_alg()
                require(ra.keyid() == hash_obj(v["keyid"]), "keyid")
                require_eq(None if ra.public_key() is None else ra.public_key().public_key_der(),
                           None if v["key"] is None else keys.public_der(v["key"]), "embedded public key")
                require_eq(ra.key_link() is None, v["link"] is None, "has key link")
                require_eq(ra.signature_time().milliseconds(), v["time"], "signature time")
        if v is None or v["alg"] == "crc":
            require(back == pkt, "the parsed packet differs from the original")


@law(LAWS, 400, lambda tier: st.fixed_dictionaries({"ms": datetime_ms, "zone": zone_names, "name": name_spec, "key": st.sampled_from(["rsa1024a", "rsa1024b"])}))
def time_zones(case, ctx):
    """Times are the same moments in whatever time zone the program runs; a signature made now has the present time."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    ms = case["ms"]
    ctx.label(case["zone"])
    ctx.nontrivial(case["zone"] != "UTC0")
    with time_zone(case["zone"]):
        nm = name_obj(case["name"])
        want = ref.content_object(name_plain(case["name"]), ms, 0, b"x")
        forms = [dt(ms), ExpiryTime.from_datetime(dt(ms)), ExpiryTime(ms / 1000.0)]
        if 90_000_000 < ms < 253_402_000_000_000:
            local = datetime.datetime.fromtimestamp(ms // 1000).replace(microsecond=ms % 1000 * 1000)      # the time by the clock on the wall
            forms += [local, ExpiryTime.from_datetime(local)]
        for form in forms:
            require_eq(b(ContentObject.create_data(name=nm, payload=A(b"x"), expiry_time=form).serialize()), want, "content object")
        for cls in (ExpiryTime, SignatureTime):
            t = cls.from_datetime(dt(ms))
            require_eq(t.milliseconds(), ms, "milliseconds")
            require(abs((t.datetime() - dt(ms)).total_seconds()) < 0.001, "datetime %r of %d", t.datetime(), ms)
            require(cls.from_datetime(t.datetime()) == t, "the time read back")
        signer = RsaSha256Signer(keys.private(case["key"]))
        require_eq(signer.validation_alg(signature_time=dt(ms)).signature_time().milliseconds(), ms, "signature time")
        now = time.time()
        for t in (signer.validation_alg().signature_time(), SignatureTime.now()):
            require(abs(t.milliseconds() / 1000.0 - now) < 600, "the present time is %r, not %r", now, t.milliseconds())


def header_strategy(tier):
    return st.fixed_dictionaries({"type": st.integers(0, 255), "len": st.integers(8, 65535),
                                  "fields": st.lists(st.integers(0, 255), min_size=3, max_size=3),
                                  "hlen": st.integers(8, 255), "tail": st.binary(max_size=4)})


@law(LAWS, 400, header_strategy)
def fixed_headers(case, ctx):
    """The fixed header keeps all of its fields across the wire."""
    from ccnpy.core.FixedHeader import FixedHeader
    want = struct.pack("!BBHBBBB", 1, case["type"], case["len"], *case["fields"], case["hlen"])
    h = FixedHeader(packet_type=case["type"], packet_length=case["len"], fields=case["fields"], header_length=case["hlen"])
    ctx.nontrivial()
    require_eq(b(h.serialize()), want, "fixed header")
    for buf in (A(want + case["tail"]), want + case["tail"]):
        back = FixedHeader.deserialize(buf)
        require_eq(b(back.serialize()), want, "fixed header re-encoding")
        require(back == h, "fixed header")
        require_eq((back.packet_length(), back.header_length()), (case["len"], case["hlen"]), "lengths")
        require_eq((back.is_interest(), back.is_content_object(), back.is_interest_return()),
                   (case["type"] == 0, case["type"] == 1, case["type"] == 2), "packet type")
    for h, want in ((FixedHeader.create_interest(case["len"], case["fields"][0]), (1, 0, case["len"], case["fields"][0], 0, 0, 8)),
                    (FixedHeader.create_content_object(case["len"]), (1, 1, case["len"], 0, 0, 0, 8))):
        require_eq(b(h.serialize()), struct.pack("!BBHBBBB", *want), "fixed header of an interest or a content object")
        require(FixedHeader.deserialize(h.serialize()) == h, "fixed header of an interest or a content object")
