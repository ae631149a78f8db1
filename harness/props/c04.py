"""C04: manifests and all their parts keep their meaning and their bytes across the wire."""
import uuid

from hypothesis import strategies as st

from vh import flic_model as fm
from vh import ref
from vh.core_model import (A, b, blob_spec, datetime_ms, dt, hash_obj, hash_spec, interesting_ints, name_obj, name_plain,
                           name_spec, payload_plain, small_bytes)
from vh.engine import law, require, require_eq

PROPERTY = "C04"
RULE = ("Cases are specifications of manifest parts and whole manifests, drawn with Hypothesis; non-trivial = the encoding "
        "is longer than an empty TLV and has at least one inner field; distinct by the specification.")
ASSUMPTIONS = ["Integers are below 2^64; a manifest fits one packet; padded nodes are compared without their padding, "
               "because parsing drops it by design."]
LAWS = []


def roundtrip(cls, obj, want, what, parse=None):
    from ccnpy.core.Tlv import Tlv
    require_eq(b(obj.serialize()), want, what)
    back = (parse or (lambda w: cls.parse(Tlv.deserialize(A(w)))))(want)
    require(back == obj, "%s: parsing %s gives a different object", what, want.hex())
    require_eq(b(back.serialize()), want, what + " re-encoding")
    return back


def hv(spec):
    return None if spec is None else (spec[0], spec[1])


def hv_of(obj):
    return None if obj is None else (obj.digest().hash_algorithm(), b(obj.digest().value()))


def int_of(obj):
    return None if obj is None else obj.value()


# ------------------------------------------------------------------------------------------------ leaves

def leaf_strategy(tier):
    ints = st.tuples(st.sampled_from(["NcId", "StartSegmentId", "SubtreeSize", "LeafSize", "KeyNumber", "AeadMode", "KdfAlg",
                                      "HashAlg"]), interesting_ints)
    octets = st.tuples(st.sampled_from(["AuthTag", "EncryptedNode", "Nonce", "ProtocolFlags", "KdfInfo", "WrappedKey"]),
                       blob_spec)
    digests = st.tuples(st.sampled_from(["SubtreeDigest", "LeafDigest"]), hash_spec)
    return st.one_of(ints, octets, digests, st.tuples(st.just("Vendor"), fm.vendor_spec),
                     st.tuples(st.just("SuffixComponentType"), st.integers(0, 0xFFFF))).map(list)


def leaf_class(name):
    import importlib
    pkg = "ccnpy.flic.RsaOaepCtx." if name in ("HashAlg", "WrappedKey") else "ccnpy.flic.tlvs."
    return getattr(importlib.import_module(pkg + name), name)


TYPES = {"NcId": fm.NCID, "StartSegmentId": fm.START_SEGMENT_ID, "SubtreeSize": fm.SUBTREE_SIZE, "LeafSize": fm.LEAF_SIZE,
         "KeyNumber": fm.KEYNUM, "AeadMode": fm.AEAD_MODE, "KdfAlg": fm.KDF_ALG, "HashAlg": fm.HASH_ALG,
         "AuthTag": fm.AUTH_TAG, "EncryptedNode": fm.ENCRYPTED_NODE, "Nonce": fm.NONCE, "ProtocolFlags": fm.PROTOCOL_FLAGS,
         "KdfInfo": fm.KDF_INFO, "WrappedKey": fm.WRAPPED_KEY, "SubtreeDigest": fm.SUBTREE_DIGEST,
         "LeafDigest": fm.LEAF_DIGEST, "Vendor": fm.ORG, "SuffixComponentType": fm.SUFFIX_TYPE}


@law(LAWS, 1600, leaf_strategy)
def leaf_fields(case, ctx):
    """Every integer, octet, digest and vendor field has the documented encoding, whatever form its value was given in,
    and parses back to the same value."""
    name, v = case
    cls = leaf_class(name)
    t = TYPES[name]
    ctx.label(name)
    ctx.nontrivial(v not in (0, b""))
    if name == "Vendor":
        obj = fm.vendor_obj(v)
        back = roundtrip(cls, obj, fm.vendor_plain(v), name)
        require_eq((back.pen(), b(back.payload())), (v["pen"], v["payload"]), "vendor")
        require_eq(b(cls(v["pen"], list(v["payload"])).serialize()), fm.vendor_plain(v), "vendor from a list")
    elif name == "SuffixComponentType":
        back = roundtrip(cls, cls(v), ref.tlv(t, v.to_bytes(2, "big")), name)
        require_eq(back.value(), v, name)
        require_eq(b(back.create_name_component(v * 65537).serialize()), ref.tlv(v, ref.varint(v * 65537)), "name component")
    elif name in ("SubtreeDigest", "LeafDigest"):
        back = roundtrip(cls, cls(hash_obj(v)), ref.tlv(t, ref.tlv(*v)), name)
        require_eq(hv_of(back), hv(v), name)
    elif isinstance(v, int):
        want = ref.tlv(t, ref.varint(v))
        back = roundtrip(cls, cls(v), want, name)
        require_eq(back.value(), v, name)
        if name == "KeyNumber":
            for form in (v.to_bytes(8, "big"), b"\0" + v.to_bytes(8, "big"), str(v), hex(v)):
                require_eq(b(cls(form).serialize()), want, "key number from %r" % (form,))
    else:
        raw = payload_plain(v)
        want = ref.tlv(t, raw)
        back = roundtrip(cls, cls(raw), want, name)
        require_eq(back.value_bytes(), raw, name)
        for form in (list(raw), A(raw), "0x" + raw.hex()):
            require_eq(b(cls(form).serialize()), want, name + " from another form")
        try:
            text = raw.decode("utf-8")
        except UnicodeDecodeError:
            text = None
        if text and not text.startswith("0x"):
            require_eq(b(cls(text).serialize()), want, name + " from text")
        if name == "KdfInfo" and len(raw) == 16:
            require_eq(b(cls(uuid.UUID(bytes=raw)).serialize()), want, "KDF info from a UUID")


# ------------------------------------------------------------------------------------------- name constructors

@law(LAWS, 1200, lambda tier: fm.ncdef_spec)
def name_constructors(case, ctx):
    """A name constructor definition keeps its id, schema kind, name, suffix type, locators and flags."""
    from ccnpy.flic.tlvs.NcDef import NcDef
    from ccnpy.flic.tlvs.NcSchema import HashSchema, NcSchema, PrefixSchema, SegmentedSchema
    s = case["schema"]
    ctx.label(s["kind"], "locators:%s" % (None if s["locators"] is None else len(s["locators"])))
    ctx.nontrivial(s["locators"] is not None or s["flags"] is not None or s["kind"] != "hash")
    schema = roundtrip(NcSchema, fm.schema_obj(s), fm.schema_plain(s), "schema")
    back = roundtrip(NcDef, fm.ncdef_obj(case), fm.ncdef_plain(case), "definition")
    require_eq(back.nc_id().id(), case["id"], "id")
    for x in (schema, back.schema()):
        require(type(x) is {"hash": HashSchema, "prefix": PrefixSchema, "seg": SegmentedSchema}[s["kind"]],
                "schema class is %s", type(x).__name__)
        check_locators(x.locators(), s["locators"])
        require_eq(x.count(), len(s["locators"] or []), "locator count")
        require_eq(None if x.flags() is None else x.flags().value_bytes(), s["flags"], "flags")
        if s["kind"] != "hash":
            require(x.name() == name_obj(s["name"]), "schema name")
        if s["kind"] == "seg":
            require_eq(x.suffix_type().value(), s["suffix"], "suffix type")


def check_locators(got, want):
    if want is None:
        require(got is None, "locators should be absent")
        return
    require_eq(got.count(), len(want), "number of locators")
    for i, w in enumerate(want):
        require(got[i].name() == name_obj(w["name"]), "locator %d name", i)
    require_eq([b(x.serialize()) for x in got], [b(x.serialize()) for x in fm.locators_obj(want)], "locators")


# ------------------------------------------------------------------------------------------------- node parts

@law(LAWS, 1200, lambda tier: fm.hash_group_spec)
def hash_groups(case, ctx):
    """A hash group keeps its annotations and its pointers, in order."""
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    ctx.label("data:%s" % (case["data"] is not None), "ptrs:%s" % (None if case["ptrs"] is None else len(case["ptrs"])))
    ctx.nontrivial(bool(case["ptrs"]) or case["data"] is not None)
    back = roundtrip(HashGroup, fm.hash_group_obj(case), fm.hash_group_plain(case), "hash group")
    check_group(back, case)
    if case["data"] is not None:
        from ccnpy.flic.tlvs.GroupData import GroupData
        roundtrip(GroupData, fm.group_data_obj(case["data"]), fm.group_data_plain(case["data"]), "group data")
    if case["ptrs"] is not None:
        from ccnpy.flic.tlvs.Pointers import Pointers
        p = roundtrip(Pointers, fm.pointers_obj(case["ptrs"]), fm.pointers_plain(case["ptrs"]), "pointers")
        require_eq(len(p), len(case["ptrs"]), "pointer count")


def check_group(g, s):
    if s["ptrs"] is None:
        require(g.pointers() is None, "pointers should be absent")
    else:
        require_eq([(x.hash_algorithm(), b(x.value())) for x in g.pointers()], [hv(h) for h in s["ptrs"]], "pointers")
    gd = g.group_data()
    if s["data"] is None:
        require(gd is None, "group data should be absent")
    else:
        d = s["data"]
        require_eq([int_of(gd.subtree_size()), hv_of(gd.subtree_digest()), int_of(gd.leaf_size()), hv_of(gd.leaf_digest()),
                    int_of(gd.nc_id()), int_of(gd.start_segment_id())],
                   [d["size"], hv(d["digest"]), d["leaf_size"], hv(d["leaf_digest"]), d["nc"], d["start"]], "group data")


def check_node(n, s):
    require_eq(len(n.hash_groups()), len(s["groups"]), "number of hash groups")
    for g, gs in zip(n.hash_groups(), s["groups"]):
        check_group(g, gs)
    nd = n.node_data()
    require_eq(n.has_node_data(), s["data"] is not None, "has node data")
    if s["data"] is not None:
        d = s["data"]
        require_eq([int_of(nd.subtree_size()), hv_of(nd.subtree_digest())], [d["size"], hv(d["digest"])], "node data")
        check_locators(nd.locators(), d["locators"])
        require_eq([b(x.serialize()) for x in nd.nc_defs()], [fm.ncdef_plain(x) for x in d["ncdefs"]], "name constructors")
        require_eq([b(x.serialize()) for x in nd.vendor_tags() or []], [fm.vendor_plain(x) for x in d["vendors"]], "vendors")


def node_strategy(tier):
    return st.fixed_dictionaries({"node": fm.node_spec, "pad": st.none() | st.integers(-3, 40) | st.integers(0, 2000)})


@law(LAWS, 1000, node_strategy)
def nodes(case, ctx):
    """A node keeps its metadata and its hash groups in order; padding brings it to the requested length and changes
    nothing else."""
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.Node import Node
    s = case["node"]
    ctx.label("groups:%d" % len(s["groups"]), "data:%s" % (s["data"] is not None), "pad:%s" % (case["pad"] is not None))
    ctx.nontrivial(s["data"] is not None or any(g["ptrs"] for g in s["groups"]))
    want = fm.node_plain(s)
    obj = fm.node_obj(s)
    back = roundtrip(Node, obj, want, "node")
    require_eq(len(obj), len(want), "node length")
    require_eq(b(obj.serialized_value()), want[4:], "node value")
    check_node(back, s)
    check_node(obj, s)
    from_value = Node.parse(Node.create_tlv(A(want[4:])))
    require(from_value == obj, "node from its value")
    pointers = [hv(h) for g in s["groups"] for h in (g["ptrs"] or [])]
    require_eq([(x.hash_algorithm(), b(x.value())) for x in back.hash_values()], pointers, "hash values")
    if all(g["data"] is not None and g["data"]["nc"] is not None for g in s["groups"] if g["ptrs"]):
        ctx.label("iterated")
        expect = []
        for g in s["groups"]:
            for i, h in enumerate(g["ptrs"] or []):
                start = g["data"]["start"]
                expect.append((g["data"]["nc"], hv(h), None if start is None else start + i))
        require_eq([(x.nc_id, (x.hash_value.hash_algorithm(), b(x.hash_value.value())), x.segment_id) for x in back],
                   expect, "iteration")
    if case["pad"] is not None:
        # the requested length is rounded like the documented Pad: it needs at least 4 bytes
        target = len(want) + case["pad"]
        padded = fm.node_obj(s, pad=target)
        wire = b(padded.serialize())
        require_eq(len(wire), target if case["pad"] >= 4 else len(want), "padded length for %+d" % case["pad"])
        require_eq(wire[4:len(want)], want[4:], "padded node starts with the node")
        if case["pad"] >= 4:
            require_eq(wire[len(want):], ref.tlv(ref.T_PAD, bytes(case["pad"] - 4)), "padding")
        check_node(Node.parse(Tlv.deserialize(A(wire))), s)


# --------------------------------------------------------------------------------------- security contexts

@law(LAWS, 1000, lambda tier: fm.security_spec)
def security_contexts(case, ctx):
    """A security context keeps key number, nonce, mode, KDF data and, for RSA-OAEP, the key wrapping."""
    from ccnpy.flic.tlvs.AeadCtx import AeadCtx
    from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
    from ccnpy.flic.tlvs.SecurityCtx import SecurityCtx
    a, w = case["aead"], case["wrapper"]
    ctx.label(case["kind"], "kdf:%s" % (a["kdf"] is not None), "wrapper:%s" % (w is not None))
    ctx.nontrivial()
    back = roundtrip(SecurityCtx, fm.security_obj(case), fm.security_plain(case), "security context")
    require(type(back) is (AeadCtx if case["kind"] == "aead" else RsaOaepCtx), "class %s", type(back).__name__)
    d = back.aead_data()
    require_eq((back.key_number().value(), back.nonce().value_bytes(), d.mode().value()), (a["num"], a["nonce"], a["mode"]),
               "AEAD data")
    require_eq((d.mode().is_aes_gcm_128(), d.mode().is_aes_gcm_256(), d.mode().is_aes_ccm_128(), d.mode().is_aes_ccm_256(),
                d.mode().key_bits()), (a["mode"] == 1, a["mode"] == 2, a["mode"] == 3, a["mode"] == 4,
                                      128 if a["mode"] in (1, 3) else 256), "mode")
    require_eq(None if d.kdf_data() is None else b(d.kdf_data().serialize()),
               None if a["kdf"] is None else fm.kdf_plain(a["kdf"]), "KDF data")
    if a["kdf"] is not None:
        require_eq((d.kdf_data().kdf_alg().value(),
                    None if d.kdf_data().kdf_info() is None else d.kdf_data().kdf_info().value_bytes()),
                   (a["kdf"]["alg"], a["kdf"]["info"]), "KDF data")
    if case["kind"] == "oaep":
        if w is None:
            require(back.rsa_oaep_wrapper() is None and back.key_id() is None, "there should be no wrapped key")
        else:
            x = back.rsa_oaep_wrapper()
            require_eq((hv_of(x.key_id()), hv_of(back.key_id()), x.wrapped_key().value_bytes(), x.is_sha_256(), x.is_sha_512(),
                        x.key_link() is None),
                       (hv(w["keyid"]), hv(w["keyid"]), w["wrapped"], w["alg"] == 1, w["alg"] == 2, w["link"] is None),
                       "wrapped key")


# --------------------------------------------------------------------------------------------- short forms

uri_seg = st.text(alphabet="abcxyzABC0189.-_", min_size=1, max_size=8).filter(lambda x: x not in (".", ".."))


@law(LAWS, 200, lambda tier: st.fixed_dictionaries({
    "name": name_spec, "segs": st.lists(uri_seg, min_size=1, max_size=4), "kdf": st.none() | st.binary(max_size=30), "alg": st.integers(1, 3),
    "keyid": st.none() | hash_spec, "digest": st.none() | hash_spec}))
def short_forms(case, ctx):
    """Locators made from a URI or a name, links made from a URI, and KDF data made for HKDF-SHA256 or copied with a name are those made from their parts."""
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.Link import Link
    from ccnpy.core.Name import Name
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.KdfData import KdfData
    from ccnpy.flic.tlvs.KdfInfo import KdfInfo
    from ccnpy.flic.tlvs.Locator import Locator
    from ccnpy.flic.tlvs.Locators import Locators
    ctx.nontrivial()
    text = "ccnx:/" + "/".join(case["segs"])
    plain = [(1, x.encode()) for x in case["segs"]]
    n = name_obj(case["name"])
    for what, uri_form, name_form, cls, wrap in (
            ("locator", Locator.from_uri(text), Locator.from_name(n), Locator, lambda x: x),
            ("locators", Locators.from_uri(text), Locators.from_name(n), Locators, lambda x: ref.tlv(fm.LOCATORS, x))):
        roundtrip(cls, uri_form, wrap(ref.tlv(fm.LINK, ref.name(plain))), what + " from a URI")
        roundtrip(cls, name_form, wrap(ref.tlv(fm.LINK, ref.name(name_plain(case["name"])))), what + " from a name")
    require(Locators.from_uri(None) is None, "locators from no URI")
    keyid, digest = (None if case[k] is None else hash_obj(case[k]) for k in ("keyid", "digest"))
    by_text, by_name = (Link(name=x, keyid=keyid, digest=digest) for x in (text, Name.from_uri(text)))
    require(by_text == by_name, "a link made from a URI differs from one made from the name")
    require_eq(b(KeyLink(by_text).serialize()), b(KeyLink(by_name).serialize()), "a link made from a URI")
    info = None if case["kdf"] is None else KdfInfo(case["kdf"])
    roundtrip(KdfData, KdfData.create_hkdf_sha256(info), fm.kdf_plain({"alg": 1, "info": case["kdf"]}), "KDF data for HKDF-SHA256")
    old = KdfData(kdf_alg=KdfAlg(case["alg"]), kdf_info=info)
    roundtrip(KdfData, KdfData.copy_with_name(old, n), fm.kdf_plain({"alg": case["alg"], "info": ref.name(name_plain(case["name"]))}),
              "KDF data copied with a name")
    require_eq(b(old.serialize()), fm.kdf_plain({"alg": case["alg"], "info": case["kdf"]}), "the KDF data copied from")


# ------------------------------------------------------------------------------------------------ manifests

def manifest_strategy(tier):
    return st.fixed_dictionaries({"m": fm.manifest_spec, "name": st.none() | name_spec, "expiry": st.none() | datetime_ms})


@law(LAWS, 1000, manifest_strategy)
def manifests(case, ctx):
    """A manifest, plain or encrypted, survives being put in a content object and a packet, serialized and parsed."""
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tlvs.Manifest import Manifest
    s = case["m"]
    ctx.label("encrypted" if s["enc"] is not None else "plain", "sec:%s" % (s["sec"] and s["sec"]["kind"]))
    ctx.nontrivial()
    want = fm.manifest_plain(s)
    obj = fm.manifest_obj(s)
    require_eq(len(obj), len(want), "manifest length")
    back = roundtrip(Manifest, obj, want, "manifest", parse=lambda w: Manifest.deserialize(A(w)))
    expiry = None if case["expiry"] is None else ExpiryTime.from_datetime(dt(case["expiry"]))
    packet = obj.packet(name_obj(case["name"]), expiry)
    wire = ref.packet(ref.content_object(None if case["name"] is None else name_plain(case["name"]), case["expiry"], 3, want))
    require_eq(b(packet.serialize()), wire, "manifest packet")
    again = Packet.deserialize(A(wire))
    require(again.body().is_manifest(), "the payload type should be manifest")
    inside = Manifest.from_content_object(again.body())
    require(inside == obj, "the manifest in the packet differs")
    for x in (back, inside):
        require_eq(x.is_encrypted(), s["enc"] is not None, "is encrypted")
        require_eq(None if x.auth_tag() is None else x.auth_tag().value_bytes(), s["tag"], "authentication tag")
        require_eq(None if x.security_ctx() is None else b(x.security_ctx().serialize()),
                   None if s["sec"] is None else fm.security_plain(s["sec"]), "security context")
        if s["enc"] is None:
            check_node(x.node(), s["node"])
        else:
            require_eq(x.node().value_bytes(), payload_plain(s["enc"]), "encrypted node")
