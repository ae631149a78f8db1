"""
Manifest trees: plain-data specs of a build, the code that runs ccnpy on them, and an independent reader of the packets that
come out (built on vh.ref and on the cryptography library only).
"""
import contextlib
import hashlib
import io

from hypothesis import strategies as st

from . import flic_model as fm
from . import keys, ref
from .core_model import dt, ms_spec, name_obj, name_plain

# ---------------------------------------------------------------------------------------------- strategies

seg_text = st.text(alphabet="abcdefghijklmnopqrstuvwxyz0123456789", min_size=1, max_size=12).map(str.encode)
tree_name = st.lists(seg_text.map(lambda s: ["n", s]), min_size=1, max_size=3)
long_name = st.tuples(st.integers(1, 4), st.integers(1, 40)).map(lambda t: [["n", b"x" * t[1]]] * t[0])
any_name = st.one_of(tree_name, tree_name, long_name,
                     st.lists(st.tuples(st.sampled_from(["n", "i"]), st.binary(max_size=8)).map(list), min_size=1, max_size=3))
locators = st.lists(st.fixed_dictionaries({"name": any_name, "keyid": st.none() | fm.hash_spec.filter(lambda h: len(h[1]) <= 64),
                                           "digest": st.none()}), min_size=1, max_size=1)

kdf_aead = st.fixed_dictionaries({"alg": st.integers(1, 3), "info": st.none() | st.binary(max_size=20)})
aead_enc = st.fixed_dictionaries({
    "kind": st.just("aead"), "mode": st.sampled_from(["GCM", "CCM"]), "bits": st.sampled_from([128, 256]),
    "key": st.integers(0, 1 << 20), "num": st.one_of(st.integers(0, 300), st.integers(0, (1 << 64) - 1)),
    "salt": st.none() | st.integers(0, 0xFFFFFFFF), "kdf": st.none() | kdf_aead,
    "kdf_salt": st.none() | st.integers(0, 0xFFFFFFFF)})
oaep_enc = st.fixed_dictionaries({
    "kind": st.just("oaep"), "mode": st.sampled_from(["GCM", "CCM"]), "bits": st.sampled_from([128, 256]),
    "key": st.integers(0, 1 << 20), "num": st.one_of(st.integers(0, 300), st.integers(0, (1 << 64) - 1)),
    "salt": st.one_of(st.integers(0, 0xFFFFFFFF), st.sampled_from([0, 1, 0x100, 0xFFFFFFFF])), "kdf": st.none() | kdf_aead,
    "kdf_salt": st.none(), "rsa": st.sampled_from(["rsa1024a", "rsa1024b", "rsa1025a", "rsa2048a"]),
    "give": st.sampled_from(["wrapped", "key", "both"])})

signer_spec = st.sampled_from([None, None, "crc", "rsa1024a", "rsa1024b", "rsa2048a"])


def tree_spec(schemas=("hashed", "prefix", "segmented"), enc=None, max_chunks=60, min_chunks=1, tight=False, big=False):
    if enc is None:
        enc = st.one_of(st.none(), st.none(), aead_enc, oaep_enc)
    half = max(min_chunks, max_chunks // 2)
    chunks = st.one_of(st.integers(half, max_chunks), st.integers(half, max_chunks), st.integers(min_chunks, half),
                       st.integers(half, max_chunks), st.integers(min_chunks, max(min_chunks, 6)))
    size = st.one_of(st.integers(0, 40), st.integers(0, 80), st.integers(0, 40), st.integers(0, 300), st.integers(0, 900))
    if tight:
        size = st.one_of(st.integers(-120, 60), st.integers(-300, 0), st.integers(-1000, 60))
    if big:
        size = st.one_of(size, st.sampled_from([1500, 4000, 9000, 30000]))
    return st.fixed_dictionaries({
        "schema": st.sampled_from(list(schemas)), "name": any_name,
        "mprefix": st.none() | any_name, "dprefix": st.none() | any_name,
        "mloc": st.none() | locators, "dloc": st.none() | locators, "same_loc": st.booleans(),
        "slack": size, "degree": st.one_of(st.integers(3, 5), st.integers(3, 9), st.none(), st.integers(2, 5), st.integers(2, 40)),
        "chunks": chunks, "jitter": st.integers(-40, 40), "data": st.tuples(
            st.sampled_from(["shake", "shake", "shake", "zeros", "periodic"]), st.integers(0, 1 << 24)).map(list),
        "node_size": st.booleans(), "group_size": st.booleans(), "leaf_size": st.booleans(),
        "root_ms": st.none() | ms_spec, "manifest_ms": st.none() | ms_spec, "data_ms": st.none() | ms_spec,
        "enc": enc, "signer": signer_spec, "nc_start": st.sampled_from([1, 1, 1, 2, 254, 255, 65535]),
        "debug": st.sampled_from([False] * 9 + [True]),
    }).map(fix)


def fix(s):
    """Segmented needs two different prefixes."""
    if s["schema"] == "segmented":
        m = s["mprefix"] if s["mprefix"] is not None else s["name"]
        d = s["dprefix"] if s["dprefix"] is not None else s["name"]
        if name_plain(m) == name_plain(d):
            s = dict(s, dprefix=list(d) + [["n", b"d"]])
    return s


# ------------------------------------------------------------------------------------------------ reference

def mprefix(s):
    return s["mprefix"] if s["mprefix"] is not None else s["name"]


def dprefix(s):
    return s["dprefix"] if s["dprefix"] is not None else s["name"]


def mloc(s):
    return s["mloc"] if s["mloc"] is not None else [{"name": s["name"], "keyid": None, "digest": None}]


def dloc(s):
    if s["same_loc"]:
        return mloc(s)
    return s["dloc"] if s["dloc"] is not None else [{"name": s["name"], "keyid": None, "digest": None}]


def name_len(spec):
    return len(ref.name(name_plain(spec)))


def data_overhead(s):
    """Bytes of a data packet that are not payload, with 3 byte chunk numbers."""
    n = 8 + 4 + 5 + 4
    if s["data_ms"] is not None:
        n += 12
    if s["schema"] != "hashed":
        n += name_len(dprefix(s))
    if s["schema"] == "segmented":
        n += 7 + 7
    return n


def security_len(s, wrapper=False):
    e = s["enc"]
    if e is None:
        return 0
    kdf = 0 if e["kdf"] is None else 4 + 12 + (0 if e["kdf"]["info"] is None else 4 + len(e["kdf"]["info"]))
    n = 4 + 4 + 12 + 16 + 5 + kdf + 4 + 16
    if wrapper:
        n += 4 + 36 + 12 + 4 + 256
    return n


def sufficient_size(s):
    """A packet size with which the tree can certainly be built: an upper bound for every part of every packet."""
    return max(manifest_size(s), root_size(s), data_overhead(s) + 1)


def manifest_size(s):
    """An upper bound for a manifest below the root, with two pointers."""
    group = 4 + 4 + 12 + 12 + 12 + 12 + 4
    manifest = 8 + 4 + 12 + 5 + 4 + security_len(s) + 4 + 4 + 12 + 2 * group + 2 * 36 + 4
    if s["schema"] == "prefix":
        manifest += name_len(mprefix(s))
    if s["schema"] == "segmented":
        manifest += name_len(mprefix(s)) + 12
    return manifest


def root_size(s):
    """An upper bound for a root manifest packet that is not signed."""
    group = 4 + 4 + 12 + 12 + 12 + 12 + 4
    schema = 0
    for nm, loc in ((mprefix(s), mloc(s)), (dprefix(s), dloc(s))):
        schema += 4 + 12 + 4 + (len(fm.locators_plain(loc)) if s["schema"] == "hashed" else name_len(nm) + 6)
    return 8 + 4 + name_len(s["name"]) + 12 + 5 + 4 + security_len(s, True) + 4 + 4 + 12 + schema + group + 36


def signature_size(s):
    if s["signer"] is None:
        return 0
    if s["signer"] == "crc":
        return 4 + 4 + 4 + 4
    return 4 + 4 + 40 + 12 + 4 + (keys.modulus_bits(s["signer"]) + 7) // 8


def packet_size(s):
    return max(1, min(65535, sufficient_size(s) + s["slack"]))


def data_bytes(s):
    payload = max(1, packet_size(s) - data_overhead(s))
    n = max(1, s["chunks"] * payload + s["jitter"])
    return ref.blob(s["data"][0], s["data"][1], n)


def aes_key(e):
    if "raw" in e:
        return e["raw"]
    return hashlib.shake_128(b"key%d" % e["key"]).digest(e["bits"] // 8)


# ---------------------------------------------------------------------------------------------------- ccnpy

def aead_params(e):
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
    cls = AeadGcm if e["mode"] == "GCM" else AeadCcm
    return AeadParameters(key=cls(aes_key(e)), key_number=e["num"], aead_salt=e["salt"], kdf_data=fm.kdf_obj(e["kdf"]),
                          kdf_salt=e["kdf_salt"])


def encryptor(e):
    if e is None:
        return None
    if e["kind"] == "aead":
        from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
        return AeadEncryptor(aead_params(e))
    from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
    return RsaOaepEncryptor(wrapping_key=keys.private(e["rsa"]), params=aead_params(e))


def signer(name):
    if name is None:
        return None
    if name == "crc":
        from ccnpy.crypto.Crc32c import Crc32cSigner

        return Crc32cSigner()
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    return RsaSha256Signer(keys.private(name))


def keystore(*specs):
    """What a reader needs."""
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    ks = InsecureKeystore()
    private = set()
    for s in specs:
        e = s["enc"]
        if e is not None and e["kind"] == "oaep" and e["give"] in ("wrapped", "both"):
            private.add(e["rsa"])
    for name in sorted(private):
        ks.add_rsa_key(name, keys.private(name))
    for s in specs:
        if s["signer"] not in (None, "crc") and s["signer"] not in private:
            ks.add_rsa_key(s["signer"], keys.public(s["signer"]))
        e = s["enc"]
        if e is not None and (e["kind"] == "aead" or e["give"] in ("key", "both")):
            ks.add_aes_key(aead_params(e))
    return ks


def options(s, **over):
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
    from ccnpy.flic.name_constructor.SchemaType import SchemaType

    def ms(v):
        return None if v is None else ExpiryTime(v / 1000.0)

    kw = dict(name=name_obj(s["name"]), schema_type=SchemaType.parse(s["schema"]), signer=signer(s["signer"]),
              root_expiry_time=ms(s["root_ms"]), manifest_expiry_time=ms(s["manifest_ms"]), data_expiry_time=ms(s["data_ms"]),
              manifest_encryptor=encryptor(s["enc"]), add_node_subtree_size=s["node_size"],
              add_group_subtree_size=s["group_size"], add_group_leaf_size=s["leaf_size"], max_tree_degree=s["degree"],
              max_packet_size=packet_size(s))
    if s.get("debug"):
        kw["debug"] = True
    if s["schema"] == "hashed":
        kw["manifest_locators"] = fm.locators_obj(s["mloc"])
        kw["data_locators"] = fm.locators_obj(s["mloc"] if s["same_loc"] else s["dloc"])
    else:
        kw["manifest_prefix"] = name_obj(s["mprefix"])
        kw["data_prefix"] = name_obj(s["dprefix"])
    kw.update(over)
    return ManifestTreeOptions(**kw)


class Built:
    pass


class Collector:
    """Keeps the wire format of what is written, at the time it is written, besides handing it to another writer."""

    def __init__(self, other=None, pause=None):
        self.wires = []
        self.other = other
        self.pause = pause

    def put(self, packet):
        if self.pause is not None:
            self.pause()
        self.wires.append(bytes(packet.serialize()))
        if self.other is not None:
            self.other.put(packet)


class ShortReads:
    """A stream that returns fewer bytes than asked for, like a pipe."""

    def __init__(self, data, pattern, pause=None):
        self.pause = pause
        self.f = io.BytesIO(data)
        self.pattern = pattern
        self.i = 0

    def read(self, n=-1):
        if self.pause is not None:
            self.pause()
        if self.pattern and n > 0:
            n = max(1, n * self.pattern[self.i % len(self.pattern)] // 100)
            self.i += 1
        return self.f.read(n)


def skip_nc_ids(n):
    """Uses up n name constructor ids, which are handed out one by one in a process."""
    from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.name_constructor.SchemaType import SchemaType
    from ccnpy.flic.tlvs.Locators import Locators
    if n > 1000:
        # too many to use up one by one in every case
        if hasattr(SchemaImplFactory, "_next_nc_id"):
            SchemaImplFactory._next_nc_id += n
        return
    if n > 0:
        o = ManifestTreeOptions(name=name_obj([["n", b"x"]]), schema_type=SchemaType.HASHED, signer=None)
        locs = Locators.from_name(o.name)
        for _ in range(n):
            SchemaImplFactory.create(o, locators=locs)


def build(s, writer=None, graph=None, stages="build", reads=None):
    """Runs ManifestTree on a spec."""
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    SchemaImplFactory.reset_nc_id()
    skip_nc_ids(s["nc_start"] - 1)
    if s.get("debug"):
        with contextlib.redirect_stdout(io.StringIO()):
            return build_tree(s, writer, graph, stages, reads)
    return build_tree(s, writer, graph, stages, reads)


def build_tree(s, writer, graph, stages, reads, pause=None, tree_options=None):
    """
    :param pause: called before each read and each write
    """
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    from ccnpy.flic.tree.TreeIO import TreeIO
    out = Built()
    out.spec = s
    out.data = data_bytes(s)
    out.options = options(s) if tree_options is None else tree_options
    out.memory = TreeIO.PacketMemoryWriter() if writer is None else writer
    out.collector = Collector(out.memory, pause)
    data_input = io.BytesIO(out.data) if reads is None and pause is None else ShortReads(out.data, reads, pause)
    if stages == "metadata":
        # the data is cut by the caller, before the tree is made
        ctx = NameConstructorContext.create(out.options)
        meta = ctx.data_schema_impl.chunk_data(data_input, out.collector)
        out.tree = ManifestTree(data_input=meta, packet_output=out.collector, tree_options=out.options, manifest_graph=graph,
                                name_context=ctx)
        out.root = out.tree.build()
    else:
        out.tree = ManifestTree(data_input=data_input, packet_output=out.collector, tree_options=out.options,
                                manifest_graph=graph)
        if stages == "build":
            out.root = out.tree.build()
        else:
            out.top = out.tree.build_top()
            out.root = out.tree.build_root(out.top)
    out.wires = out.collector.wires
    return out


# ------------------------------------------------------------- trees of data of which only hashes and sizes are given

_digests = []
_hash_values = []


def big_spec(schemas=("hashed", "prefix", "segmented"), most=1500, **kw):
    """A tree over file metadata: wide or narrow manifests, thousands of them."""
    def make(t):
        s, degree, free, manifests, jitter, payload, last, bytes_ = t
        if degree > 250:
            manifests = 1 + manifests % (40000 // degree)
        if free:
            n = manifests * (degree - 1) + jitter
            return dict(s, degree=None, slack=32 * degree, n=max(1, n), payload=payload, last=1 + last % payload)
        return dict(s, degree=degree, slack=32 * degree + 100, n=max(1, manifests * (degree - 1) + jitter), payload=payload,
                    last=1 + last % payload)
    sizes = st.one_of(st.integers(most // 2, most), st.integers(most // 10, most), st.integers(1, most // 10))
    return st.tuples(tree_spec(schemas, max_chunks=1, enc=st.sampled_from([None, None, None, None, FIXED_ENC]), **kw),
                     st.one_of(st.integers(2, 12), st.integers(10, 60), st.integers(30, 80), st.integers(60, 200), st.integers(251, 1100)),
                     st.booleans(), sizes, st.integers(-80, 80), st.one_of(st.integers(1, 70000), st.integers(1, 300), st.integers(1 << 20, 1 << 33)),
                     st.integers(0, 1 << 33), st.booleans()).map(make)


FIXED_ENC = {"kind": "aead", "mode": "GCM", "bits": 128, "key": 3, "num": 3, "salt": None, "kdf": None, "kdf_salt": None}


def build_big(s):
    """The manifests of a tree over n chunks of `payload` bytes (the last of `last` bytes), which are not made themselves."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    n = s["n"]
    while len(_digests) < n:
        d = hashlib.sha256(b"chunk%d" % len(_digests)).digest()
        _digests.append(d)
        _hash_values.append(HashValue.create_sha256(d))
    SchemaImplFactory.reset_nc_id()
    skip_nc_ids(s["nc_start"] - 1)
    sizes = [s["payload"]] * (n - 1) + [s["last"]]
    meta = FileMetadata(chunk_metadata=[ChunkMetadata(chunk_number=i, payload_bytes=sizes[i], content_object_hash=_hash_values[i])
                                        for i in range(n)], total_bytes=sum(sizes))
    out = Built()
    out.spec = s
    out.options = options(s)
    out.collector = Collector()
    out.tree = ManifestTree(data_input=meta, packet_output=out.collector, tree_options=out.options)
    out.root = out.tree.build()
    out.wires = out.collector.wires
    out.leaves = {_digests[i]: {"ptype": 0, "payload": None, "size": sizes[i], "number": i, "name": None} for i in range(n)}
    out.visits = walk(s, out.wires, out.wires[-1], out.leaves)
    return out


# ------------------------------------------------------------------------------- reading packets back, by hand

class Bad(Exception):
    """The packets do not make a well formed tree."""


def parse_packet(wire):
    """dict of the fields of a packet; strict."""
    if len(wire) < 8 or wire[0] != 1 or wire[1] != 1 or int.from_bytes(wire[2:4], "big") != len(wire) or wire[7] != 8:
        raise Bad("fixed header %r" % wire[:8])
    top = ref.tlvs(wire[8:])
    if top[0][0] != ref.T_OBJECT:
        raise Bad("no content object")
    fields = ref.tlvs(top[0][1])
    p = {"wire": wire, "digest": ref.packet_hash(wire), "name": None, "expiry": None, "ptype": None, "payload": None,
         "final": None, "val": [t for t, _ in top[1:]], "body": ref.tlv(*top[0]), "tail": top[1:]}
    for t, v in fields:
        if t == ref.T_NAME:
            p["name"] = ref.tlvs(v)
        elif t == ref.T_EXPIRY:
            p["expiry"] = int.from_bytes(v, "big")
        elif t == ref.T_PAYLDTYPE:
            p["ptype"] = v[0]
        elif t == ref.T_PAYLOAD:
            p["payload"] = v
        elif t == ref.T_FINALCHUNK:
            p["final"] = int.from_bytes(v, "big")
        else:
            raise Bad("content object field %d" % t)
    return p


def derive(e, kdf, key_mode):
    """The key of an encryption spec, for the KDF data (alg, info) of a security context."""
    key = aes_key(e)
    if kdf is None:
        return key
    alg, info = kdf
    fixed = b"FLIC" + ref.tlv(fm.KEYNUM, ref.varint(e["num"])) + ref.tlv(fm.AEAD_MODE, bytes([key_mode])) + (
        b"" if info is None else ref.tlv(fm.KDF_INFO, info))
    salt = None if e["kdf_salt"] is None else e["kdf_salt"].to_bytes(4, "big")
    return ref.hkdf({1: "sha256", 2: "sha384", 3: "sha512"}[alg], key, len(key), fixed, salt)


def mode_number(e):
    return {("GCM", 128): 1, ("GCM", 256): 2, ("CCM", 128): 3, ("CCM", 256): 4}[(e["mode"], e["bits"])]


def parse_security(v):
    """(kind, aead dict, wrapper dict or None) of the value of a SecurityCtx TLV."""
    (kind, inner), = ref.tlvs(v)
    f = {}
    order = []
    for t, x in ref.tlvs(inner):
        if t in f:
            raise Bad("duplicate TLV in the security context")
        f[t] = x
        order.append(t)
    aead = {"num": int.from_bytes(f[fm.KEYNUM], "big"), "nonce": f[fm.NONCE], "mode": int.from_bytes(f[fm.AEAD_MODE], "big"),
            "kdf": None}
    if fm.KDF_DATA in f:
        k = dict(ref.tlvs(f[fm.KDF_DATA]))
        aead["kdf"] = (int.from_bytes(k[fm.KDF_ALG], "big"), k.get(fm.KDF_INFO))
    wrapper = None
    if fm.WRAPPED_KEY in f:
        wrapper = {"keyid": f[fm.KEYID], "alg": int.from_bytes(f[fm.HASH_ALG], "big"), "wrapped": f[fm.WRAPPED_KEY]}
    return kind, aead, wrapper


def decrypt(e, aead, security_tlv, ciphertext, tag):
    from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM
    key = derive(e, aead["kdf"], aead["mode"])
    iv = (b"" if e["salt"] is None else e["salt"].to_bytes(4, "big")) + aead["nonce"]
    impl = AESGCM(key) if aead["mode"] in (1, 2) else AESCCM(key)
    return impl.decrypt(iv, ciphertext + tag, security_tlv)


def parse_node(value):
    """The fields of a Node value."""
    node = {"size": None, "ncdefs": [], "groups": [], "has_data": False}
    for t, v in ref.tlvs(value):
        if t == fm.NODE_DATA:
            node["has_data"] = True
            for tt, vv in ref.tlvs(v):
                if tt == fm.SUBTREE_SIZE:
                    node["size"] = int.from_bytes(vv, "big")
                elif tt == fm.NCDEF:
                    (ti, ncid), (ts, sch) = ref.tlvs(vv)
                    node["ncdefs"].append(parse_ncdef(ncid, ts, sch))
                else:
                    raise Bad("node data field %d" % tt)
        elif t == fm.HASH_GROUP:
            g = {"size": None, "leaf": None, "nc": None, "start": None, "ptrs": [], "has_data": False}
            for tt, vv in ref.tlvs(v):
                if tt == fm.GROUP_DATA:
                    g["has_data"] = True
                    for t3, v3 in ref.tlvs(vv):
                        k = {fm.SUBTREE_SIZE: "size", fm.LEAF_SIZE: "leaf", fm.NCID: "nc", fm.START_SEGMENT_ID: "start"}.get(t3)
                        if k is None:
                            raise Bad("group data field %d" % t3)
                        g[k] = int.from_bytes(v3, "big")
                elif tt == fm.PTRS:
                    for t3, v3 in ref.tlvs(vv):
                        if t3 != 1 or len(v3) != 32:
                            raise Bad("pointer %d of %d bytes" % (t3, len(v3)))
                        g["ptrs"].append(v3)
                else:
                    raise Bad("hash group field %d" % tt)
            node["groups"].append(g)
        else:
            raise Bad("node field %d" % t)
    return node


def parse_ncdef(ncid, ts, sch):
    d = {"id": int.from_bytes(ncid, "big"), "kind": {fm.HASH_SCHEMA: "hashed", fm.PREFIX_SCHEMA: "prefix",
                                                     fm.SEGMENTED_SCHEMA: "segmented"}[ts],
         "name": None, "suffix": None, "locators": None}
    for t, v in ref.tlvs(sch):
        if t == ref.T_NAME:
            d["name"] = ref.tlvs(v)
        elif t == fm.SUFFIX_TYPE and ts == fm.SEGMENTED_SCHEMA:
            d["suffix"] = int.from_bytes(v, "big")
        elif t == fm.LOCATORS:
            d["locators"] = v
        else:
            raise Bad("schema field %d" % t)
    return d


def parse_manifest(s, packet):
    """Adds 'node', 'sec' to a parsed packet."""
    if packet["ptype"] != 3:
        raise Bad("not a manifest")
    items = ref.tlvs(packet["payload"])
    sec = node_value = enc = tag = sec_tlv = None
    for t, v in items:
        if t == fm.SECURITY_CTX:
            sec, sec_tlv = parse_security(v), ref.tlv(t, v)
        elif t == fm.NODE:
            node_value = v
        elif t == fm.ENCRYPTED_NODE:
            enc = v
        elif t == fm.AUTH_TAG:
            tag = v
        else:
            raise Bad("manifest field %d" % t)
    if enc is not None:
        if sec is None or tag is None or s["enc"] is None:
            raise Bad("encrypted without a security context, a tag or a key")
        node_value = decrypt(s["enc"], sec[1], sec_tlv, enc, tag)
    elif s["enc"] is not None:
        raise Bad("the manifest is not encrypted")
    packet["sec"] = sec
    packet["node"] = parse_node(node_value)
    return packet


class Visit:
    __slots__ = ("name", "digest", "packet", "is_manifest", "depth", "parent", "group", "index", "size", "children", "nc")


def walk(s, wires, root_wire, leaves=None):
    """
    The reference traversal: the pre-order list of visits.  A visit has the name that has to be asked for, which is built from
    the name constructors in scope.  Raises Bad when a pointer leads nowhere.

    :param leaves: digest -> pseudo packet, for data packets of which no more is known than hash, number and size
    """
    store = {}
    for w in wires:
        store.setdefault(ref.packet_hash(w), w)
    parsed = {}
    visits = []

    def get(digest):
        if leaves is not None and digest in leaves:
            return leaves[digest]
        if digest not in store:
            raise Bad("nothing is stored under %s" % digest.hex())
        if digest not in parsed:
            p = parse_packet(store[digest])
            if p["ptype"] == 3:
                parse_manifest(s, p)
            parsed[digest] = p
        return parsed[digest]

    def visit(name, digest, depth, parent, group, index, nc):
        p = get(digest)
        v = Visit()
        v.name, v.digest, v.packet, v.depth, v.parent, v.group, v.index = name, digest, p, depth, parent, group, index
        v.is_manifest = p["ptype"] == 3
        v.children = []
        v.nc = nc
        v.size = 0
        visits.append(v)
        if len(visits) > 400000:
            raise Bad("the tree does not end")
        if not v.is_manifest:
            if p["ptype"] != 0:
                raise Bad("payload type %r" % p["ptype"])
            v.size = len(p["payload"]) if p["payload"] is not None else p["size"]
        if parent is not None:
            parent.children.append(v)
        return v

    def children(v, scope):
        """Yields the arguments to visit the children."""
        if not v.is_manifest:
            return
        node = v.packet["node"]
        if node["ncdefs"]:
            scope = dict(scope)
            for d in node["ncdefs"]:
                scope[d["id"]] = d
        for gi, g in enumerate(node["groups"]):
            if g["nc"] not in scope:
                raise Bad("name constructor %r is not defined" % g["nc"])
            d = scope[g["nc"]]
            for i, ptr in enumerate(g["ptrs"]):
                if d["kind"] == "hashed":
                    nm = None
                elif d["kind"] == "prefix":
                    nm = d["name"]
                else:
                    if g["start"] is None:
                        raise Bad("segmented hash group without a start segment id")
                    nm = d["name"] + [(d["suffix"], ref.varint(g["start"] + i))]
                yield (nm, ptr, v.depth + 1, v, gi, i, g["nc"]), scope

    top = visit(parse_packet(root_wire)["name"], ref.packet_hash(root_wire), 0, None, None, None, None)
    stack = [children(top, {})]
    while stack:
        nxt = next(stack[-1], None)
        if nxt is None:
            stack.pop()
            continue
        args, scope = nxt
        stack.append(children(visit(*args), scope))
    for v in reversed(visits):
        if v.parent is not None:
            v.parent.size += v.size
    return visits


def walked_data(visits):
    return b"".join(v.packet["payload"] for v in visits if not v.is_manifest)


class Sink:
    """All that is asked of a writer of data: a write method.  (Its length is what was not yet taken out, which is nothing.)"""

    def __init__(self):
        self.buffer = io.BytesIO()

    def write(self, data):
        self.buffer.write(bytes(data))

    def __len__(self):
        return 0


def traverse(packet_input, ks, root_name, root_hash, build_graph=False, sink=False):
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    if sink:
        buf = Sink()
        t = Traversal(packet_input=packet_input, data_writer=buf, keystore=ks, build_graph=build_graph)
        t.traverse(root_name, root_hash)
        return t, buf.buffer.getvalue()
    buf = TreeIO.DataBuffer()
    t = Traversal(packet_input=packet_input, data_writer=buf, keystore=ks, build_graph=build_graph)
    t.traverse(root_name, root_hash)
    return t, buf.buffer.tobytes()
