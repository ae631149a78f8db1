"""Plain-data specs of the FLIC manifest TLVs: strategies, constructors (ccnpy) and reference encodings."""
import uuid

from hypothesis import strategies as st

from . import ref
from .core_model import (A, blob_spec, digest32, hash_obj, hash_spec, interesting_ints, link_obj, link_plain, link_spec,
                         name_obj, name_plain, name_spec, payload_plain, small_bytes)

# FLIC numbers
SECURITY_CTX, NODE, ENCRYPTED_NODE, AUTH_TAG = 0, 1, 2, 3
AEAD_CTX, RSAOAEP_CTX = 0, 1
NODE_DATA, HASH_GROUP, SUBTREE_SIZE, SUBTREE_DIGEST, NCDEF, NCID, LOCATORS, PTRS = range(8)
GROUP_DATA, ORG = 0x0B, 0x0FFF
HASH_SCHEMA, PREFIX_SCHEMA, SEGMENTED_SCHEMA = 0x10, 0x11, 0x12
PROTOCOL_FLAGS, SUFFIX_TYPE, LINK = 1, 2, 0x0D
LEAF_SIZE, LEAF_DIGEST, START_SEGMENT_ID = 0, 1, 4
KEYNUM, NONCE, AEAD_MODE, HASH_ALG, WRAPPED_KEY, KDF_DATA, KDF_ALG, KDF_INFO, KEYID, KEYLINK = 0, 1, 2, 3, 4, 5, 6, 7, 9, 14

# ---------------------------------------------------------------------------------------------- strategies

opt = lambda s: st.none() | s

locator_spec = st.fixed_dictionaries({"name": name_spec, "keyid": opt(hash_spec), "digest": opt(hash_spec)})
locators_spec = st.lists(locator_spec, min_size=1, max_size=3)
schema_spec = st.fixed_dictionaries({
    "kind": st.sampled_from(["hash", "prefix", "seg"]),
    "name": name_spec,
    "suffix": st.one_of(st.sampled_from([0x0005, 0x0010]), st.integers(0, 0xFFFF)),
    "locators": opt(locators_spec),
    "flags": opt(small_bytes),
})
ncdef_spec = st.fixed_dictionaries({"id": interesting_ints, "schema": schema_spec})
group_data_spec = st.fixed_dictionaries({
    "size": opt(interesting_ints), "digest": opt(hash_spec), "leaf_size": opt(interesting_ints),
    "leaf_digest": opt(hash_spec), "nc": opt(interesting_ints), "start": opt(interesting_ints)})
pointer_spec = st.one_of(digest32.map(lambda d: [1, d]), digest32.map(lambda d: [1, d]), hash_spec)
pointers_spec = st.lists(pointer_spec, max_size=6)
hash_group_spec = st.fixed_dictionaries({"data": opt(group_data_spec), "ptrs": opt(pointers_spec)})
vendor_spec = st.fixed_dictionaries({"pen": st.one_of(st.integers(0, 0xFFFFFF), st.sampled_from(
    [0, 1, 255, 256, 65535, 65536, 0xFFFFFF])), "payload": small_bytes})
node_data_spec = st.fixed_dictionaries({
    "size": opt(interesting_ints), "digest": opt(hash_spec), "locators": opt(locators_spec),
    "vendors": st.lists(vendor_spec, max_size=2), "ncdefs": st.lists(ncdef_spec, max_size=2)})
node_spec = st.fixed_dictionaries({"data": opt(node_data_spec), "groups": st.lists(hash_group_spec, min_size=1, max_size=3)})
kdf_spec = st.fixed_dictionaries({"alg": st.one_of(st.integers(1, 3), interesting_ints), "info": opt(small_bytes)})
aead_data_spec = st.fixed_dictionaries({
    "num": interesting_ints, "nonce": st.one_of(st.binary(min_size=8, max_size=12), st.binary(max_size=20)),
    "mode": st.integers(1, 4), "kdf": opt(kdf_spec)})
wrapper_spec = st.fixed_dictionaries({
    "keyid": hash_spec, "link": opt(link_spec), "alg": st.one_of(st.integers(1, 2), interesting_ints),
    "wrapped": st.one_of(small_bytes, st.binary(min_size=128, max_size=128))})
security_spec = st.fixed_dictionaries({"kind": st.sampled_from(["aead", "oaep"]), "aead": aead_data_spec,
                                       "wrapper": opt(wrapper_spec)})
manifest_spec = st.fixed_dictionaries({
    "sec": opt(security_spec), "node": node_spec, "enc": opt(blob_spec),
    "tag": opt(st.one_of(st.binary(min_size=16, max_size=16), small_bytes))})


# ------------------------------------------------------------------------------- specs -> reference bytes

def locators_plain(spec):
    return ref.tlv(LOCATORS, b"".join(ref.tlv(LINK, link_plain(x)) for x in spec))


def schema_plain(s):
    out = b""
    if s["kind"] != "hash":
        out += ref.name(name_plain(s["name"]))
    if s["kind"] == "seg":
        out += ref.tlv(SUFFIX_TYPE, s["suffix"].to_bytes(2, "big"))
    if s["locators"] is not None:
        out += locators_plain(s["locators"])
    if s["flags"] is not None:
        out += ref.tlv(PROTOCOL_FLAGS, s["flags"])
    return ref.tlv({"hash": HASH_SCHEMA, "prefix": PREFIX_SCHEMA, "seg": SEGMENTED_SCHEMA}[s["kind"]], out)


def ncdef_plain(s):
    return ref.tlv(NCDEF, ref.tlv(NCID, ref.varint(s["id"])) + schema_plain(s["schema"]))


def _opt(t, v, f):
    return b"" if v is None else ref.tlv(t, f(v))


def group_data_plain(s):
    return ref.tlv(GROUP_DATA, _opt(SUBTREE_SIZE, s["size"], ref.varint) +
                   _opt(SUBTREE_DIGEST, s["digest"], lambda h: ref.tlv(*h)) +
                   _opt(LEAF_SIZE, s["leaf_size"], ref.varint) +
                   _opt(LEAF_DIGEST, s["leaf_digest"], lambda h: ref.tlv(*h)) +
                   _opt(NCID, s["nc"], ref.varint) +
                   _opt(START_SEGMENT_ID, s["start"], ref.varint))


def pointers_plain(s):
    return ref.tlv(PTRS, b"".join(ref.tlv(*h) for h in s))


def hash_group_plain(s):
    return ref.tlv(HASH_GROUP, (b"" if s["data"] is None else group_data_plain(s["data"])) +
                   (b"" if s["ptrs"] is None else pointers_plain(s["ptrs"])))


def vendor_plain(s):
    return ref.tlv(ORG, s["pen"].to_bytes(3, "big") + s["payload"])


def node_data_plain(s):
    return ref.tlv(NODE_DATA, _opt(SUBTREE_SIZE, s["size"], ref.varint) +
                   _opt(SUBTREE_DIGEST, s["digest"], lambda h: ref.tlv(*h)) +
                   (b"" if s["locators"] is None else locators_plain(s["locators"])) +
                   b"".join(ncdef_plain(x) for x in s["ncdefs"]) +
                   b"".join(vendor_plain(x) for x in s["vendors"]))


def node_value_plain(s):
    return (b"" if s["data"] is None else node_data_plain(s["data"])) + b"".join(hash_group_plain(g) for g in s["groups"])


def node_plain(s):
    return ref.tlv(NODE, node_value_plain(s))


def kdf_plain(s):
    return ref.tlv(KDF_DATA, ref.tlv(KDF_ALG, ref.varint(s["alg"])) + _opt(KDF_INFO, s["info"], bytes))


def aead_data_plain(s):
    return (ref.tlv(KEYNUM, ref.varint(s["num"])) + ref.tlv(NONCE, s["nonce"]) + ref.tlv(AEAD_MODE, bytes([s["mode"]])) +
            (b"" if s["kdf"] is None else kdf_plain(s["kdf"])))


def wrapper_plain(s):
    return (ref.tlv(KEYID, ref.tlv(*s["keyid"])) + (b"" if s["link"] is None else ref.tlv(KEYLINK, link_plain(s["link"]))) +
            ref.tlv(HASH_ALG, ref.varint(s["alg"])) + ref.tlv(WRAPPED_KEY, s["wrapped"]))


def security_plain(s):
    if s["kind"] == "aead":
        inner = ref.tlv(AEAD_CTX, aead_data_plain(s["aead"]))
    else:
        inner = ref.tlv(RSAOAEP_CTX, aead_data_plain(s["aead"]) + (b"" if s["wrapper"] is None else wrapper_plain(s["wrapper"])))
    return ref.tlv(SECURITY_CTX, inner)


def manifest_plain(s):
    out = b"" if s["sec"] is None else security_plain(s["sec"])
    out += node_plain(s["node"]) if s["enc"] is None else ref.tlv(ENCRYPTED_NODE, payload_plain(s["enc"]))
    if s["tag"] is not None:
        out += ref.tlv(AUTH_TAG, s["tag"])
    return out


# ---------------------------------------------------------------------------------------- specs -> ccnpy

def locators_obj(spec):
    from ccnpy.flic.tlvs.Locator import Locator
    from ccnpy.flic.tlvs.Locators import Locators
    if spec is None:
        return None
    return Locators([Locator(link_obj(x)) for x in spec])


def schema_obj(s):
    from ccnpy.flic.tlvs.NcSchema import HashSchema, PrefixSchema, SegmentedSchema
    from ccnpy.flic.tlvs.ProtocolFlags import ProtocolFlags
    from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
    flags = None if s["flags"] is None else ProtocolFlags(s["flags"])
    locators = locators_obj(s["locators"])
    if s["kind"] == "hash":
        return HashSchema(locators=locators, flags=flags)
    if s["kind"] == "prefix":
        return PrefixSchema(name=name_obj(s["name"]), locators=locators, flags=flags)
    if s["suffix"] == ref.T_CHUNK:
        return SegmentedSchema.create_for_data(name=name_obj(s["name"]), locators=locators, flags=flags)
    if s["suffix"] == ref.T_MANIFESTID:
        return SegmentedSchema.create_for_manifest(name=name_obj(s["name"]), locators=locators, flags=flags)
    return SegmentedSchema(name=name_obj(s["name"]), suffix_type=SuffixComponentType(s["suffix"]), locators=locators, flags=flags)


def ncdef_obj(s):
    from ccnpy.flic.tlvs.NcDef import NcDef
    from ccnpy.flic.tlvs.NcId import NcId
    return NcDef(NcId(s["id"]), schema_obj(s["schema"]))


def _o(cls, v):
    return None if v is None else cls(v)


def group_data_obj(s):
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.LeafDigest import LeafDigest
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    if s is None:
        return None
    return GroupData(subtree_size=_o(SubtreeSize, s["size"]), subtree_digest=_o(SubtreeDigest, hash_obj(s["digest"])),
                     leaf_size=_o(LeafSize, s["leaf_size"]), leaf_digest=_o(LeafDigest, hash_obj(s["leaf_digest"])),
                     nc_id=_o(NcId, s["nc"]), start_segment_id=_o(StartSegmentId, s["start"]))


def pointers_obj(s):
    from ccnpy.flic.tlvs.Pointers import Pointers
    return None if s is None else Pointers([hash_obj(h) for h in s])


def hash_group_obj(s):
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    return HashGroup(group_data=group_data_obj(s["data"]), pointers=pointers_obj(s["ptrs"]))


def vendor_obj(s):
    from ccnpy.flic.tlvs.Vendor import Vendor
    return Vendor(s["pen"], A(s["payload"]))


def node_data_obj(s):
    from ccnpy.flic.tlvs.NodeData import NodeData
    from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    if s is None:
        return None
    return NodeData(subtree_size=_o(SubtreeSize, s["size"]), subtree_digest=_o(SubtreeDigest, hash_obj(s["digest"])),
                    locators=locators_obj(s["locators"]), vendors=[vendor_obj(v) for v in s["vendors"]],
                    nc_defs=[ncdef_obj(x) for x in s["ncdefs"]])


def node_obj(s, pad=None):
    from ccnpy.flic.tlvs.Node import Node
    return Node(node_data=node_data_obj(s["data"]), hash_groups=[hash_group_obj(g) for g in s["groups"]], pad_length=pad)


def kdf_obj(s):
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.KdfData import KdfData
    from ccnpy.flic.tlvs.KdfInfo import KdfInfo
    if s is None:
        return None
    return KdfData(kdf_alg=KdfAlg(s["alg"]), kdf_info=None if s["info"] is None else KdfInfo(s["info"]))


def aead_data_obj(s):
    from ccnpy.flic.aeadctx.AeadData import AeadData
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    return AeadData(key_number=s["num"], nonce=s["nonce"], mode=AeadMode(s["mode"]), kdf_data=kdf_obj(s["kdf"]))


def wrapper_obj(s):
    from ccnpy.core.KeyId import KeyId
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
    from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    if s is None:
        return None
    return RsaOaepWrapper(key_id=KeyId(hash_obj(s["keyid"])), key_link=None if s["link"] is None else KeyLink(link_obj(s["link"])),
                          hash_alg=HashAlg(s["alg"]), wrapped_key=WrappedKey(s["wrapped"]))


def security_obj(s):
    from ccnpy.flic.tlvs.AeadCtx import AeadCtx
    from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
    if s is None:
        return None
    if s["kind"] == "aead":
        return AeadCtx(aead_data_obj(s["aead"]))
    return RsaOaepCtx(aead_data_obj(s["aead"]), wrapper_obj(s["wrapper"]))


def manifest_obj(s):
    from ccnpy.flic.tlvs.AuthTag import AuthTag
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.tlvs.Manifest import Manifest
    node = node_obj(s["node"]) if s["enc"] is None else EncryptedNode(payload_plain(s["enc"]))
    return Manifest(security_ctx=security_obj(s["sec"]), node=node,
                    auth_tag=None if s["tag"] is None else AuthTag(s["tag"]))
