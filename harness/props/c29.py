"""C29: the manifest factory."""
from hypothesis import strategies as st

from props import c09, c10
from vh import flic_model as fm
from vh import keys, ref
from vh import tree_model as tm
from vh.core_model import A, b, interesting_ints, name_obj, name_plain, name_spec, ms_spec
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C29"
RULE = ("Cases are options and requests to one factory; non-trivial = at least three annotations are asked for, or the manifest is "
        "encrypted or signed; distinct by the case.")
ASSUMPTIONS = ["The reference for encryption is the cryptography library.",
               "A list of name constructor definitions is absent or not empty."]
LAWS = []

opt = lambda s: st.none() | s | s
group_spec = st.fixed_dictionaries({"data": fm.hash_group_spec.map(lambda g: g["data"]), "ptrs": fm.pointers_spec})
whole_node = st.fixed_dictionaries({"data": fm.node_spec.map(lambda n: n["data"]), "groups": st.lists(group_spec, min_size=1, max_size=3)})
pointers = st.one_of(fm.pointers_spec, st.lists(fm.digest32.map(lambda d: [1, d]), max_size=12),
                     st.tuples(st.integers(0, 60), st.integers(0, 1000)).map(lambda t: [[1, ref.blob("shake", t[1] + i, 32)] for i in range(t[0])]))
source = st.one_of(
    st.fixed_dictionaries({"kind": st.just("pointers"), "ptrs": pointers}),
    st.fixed_dictionaries({"kind": st.just("pointers"), "ptrs": pointers}),
    st.fixed_dictionaries({"kind": st.just("group"), "groups": st.lists(group_spec, min_size=1, max_size=1)}),
    st.fixed_dictionaries({"kind": st.just("groups"), "groups": st.lists(group_spec, min_size=1, max_size=4)}),
    st.fixed_dictionaries({"kind": st.just("node"), "node": whole_node}),
    st.fixed_dictionaries({"kind": st.just("bad"), "what": st.sampled_from(["int", "str", "bytes", "none", "hash", "dict", "manifest"])}))
request = st.fixed_dictionaries({
    "source": source, "ncdefs": opt(st.lists(fm.ncdef_spec, min_size=1, max_size=2)), "size": opt(interesting_ints),
    "group_size": opt(interesting_ints), "leaf_size": opt(interesting_ints), "nc": opt(interesting_ints), "start": opt(interesting_ints),
    "typed": st.booleans(), "name": opt(name_spec), "expiry": opt(ms_spec), "signer": st.sampled_from([None, None, "crc", "rsa1024a", "rsa2048a"]),
    "full": st.booleans()})
options = st.fixed_dictionaries({"node_size": st.sampled_from([True, True, False]), "group_size": st.sampled_from([True, True, False]),
                                 "leaf_size": st.sampled_from([True, True, False]), "enc": st.one_of(st.none(), st.none(), tm.aead_enc, tm.oaep_enc),
                                 "max": st.sampled_from([1500, 1500, 1500, 60000, 60000, 300, 100]), "signer": st.sampled_from([None, "crc", "rsa1024b"]),
                                 "graph": st.booleans()})


def node_spec(req, o):
    s = req["source"]
    if s["kind"] == "node":
        return s["node"]
    size = req["size"] if o["node_size"] else None
    data = None
    if size is not None or req["ncdefs"] is not None:
        data = {"size": size, "digest": None, "locators": None, "vendors": [], "ncdefs": req["ncdefs"] or []}
    if s["kind"] != "pointers":
        return {"data": data, "groups": s["groups"]}
    g = {"size": req["group_size"] if o["group_size"] else None, "digest": None, "leaf_size": req["leaf_size"] if o["leaf_size"] else None,
         "leaf_digest": None, "nc": req["nc"], "start": req["start"]}
    if all(v is None for v in g.values()):
        g = None
    return {"data": data, "groups": [{"data": g, "ptrs": s["ptrs"]}]}


def source_obj(s):
    if s["kind"] == "pointers":
        return fm.pointers_obj(s["ptrs"])
    if s["kind"] == "group":
        return fm.hash_group_obj(s["groups"][0])
    if s["kind"] == "groups":
        return [fm.hash_group_obj(g) for g in s["groups"]]
    if s["kind"] == "node":
        return fm.node_obj(s["node"])
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tlvs.Manifest import Manifest
    return {"int": 5, "str": "pointers", "bytes": b"\0" * 32, "none": None, "hash": HashValue(1, b"\0" * 32), "dict": {},
            "manifest": Manifest(node=fm.node_obj({"data": None, "groups": [{"data": None, "ptrs": []}]}))}[s["what"]]


def arguments(req):
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize

    def o(cls, v):
        return None if v is None else cls(v)

    t = req["typed"]
    kw = dict(nc_defs=None if req["ncdefs"] is None else [fm.ncdef_obj(x) for x in req["ncdefs"]],
              node_subtree_size=o(SubtreeSize, req["size"]) if t else req["size"],
              group_subtree_size=o(SubtreeSize, req["group_size"]) if t else req["group_size"],
              group_leaf_size=o(LeafSize, req["leaf_size"]) if t else req["leaf_size"], nc_id=o(NcId, req["nc"]),
              start_segment_id=o(StartSegmentId, req["start"]), name=name_obj(req["name"]),
              expiry_time=None if req["expiry"] is None else ExpiryTime(req["expiry"] / 1000.0), signer=tm.signer(req["signer"]))
    kw = {k: v for k, v in kw.items() if v is not None}
    if req["full"]:
        kw["include_full_security_context"] = True
    return kw


def manifest_size(o, req, value):
    """Bytes of the manifest, with or without encryption."""
    n = 4 + len(value)
    e = o["enc"]
    if e is not None:
        wrapper = b""
        if e["kind"] == "oaep" and req["full"]:
            wrapper = c10.wrapper_tlvs(e, b"\0" * ((keys.modulus_bits(e["rsa"]) + 7) // 8))
        nonce = 12 if e["salt"] is None else 8
        n += len(c09.ctx_plain(e, b"\0" * nonce, e["kind"], wrapper)) + 4 + 16
    return n


def check_packet(wire, req, o, value, spec):
    p = tm.parse_packet(wire)
    require_eq(p["name"], name_plain(req["name"]), "name of the packet")
    require_eq(p["expiry"], req["expiry"], "expiry time of the packet")
    require_eq((p["ptype"], p["final"]), (3, None), "payload type and final chunk of the packet")
    if req["signer"] is None:
        require_eq(p["tail"], [], "validation of a packet that is not signed")
    else:
        require_eq(p["val"], [3, 4], "validation of a signed packet")
        (_, alg), (_, val) = p["tail"]
        signed = p["body"] + ref.tlv(3, alg)
        if req["signer"] == "crc":
            require_eq(val, ref.crc32c(signed).to_bytes(4, "big"), "CRC of the packet")
        else:
            from cryptography.hazmat.primitives import hashes
            from cryptography.hazmat.primitives.asymmetric import padding
            keys.crypto_key(req["signer"]).public_key().verify(val, signed, padding.PKCS1v15(), hashes.SHA256())
            require_eq(ref.find(ref.find(alg, ref.T_RSASHA256), ref.T_KEYID), ref.tlv(1, keys.keyid(req["signer"])), "key id of the signature")
    items = ref.tlvs(p["payload"])
    if o["enc"] is None:
        require_eq(items, [(fm.NODE, value)], "manifest")
        return p
    e = o["enc"]
    require_eq([t for t, _ in items], [fm.SECURITY_CTX, fm.ENCRYPTED_NODE, fm.AUTH_TAG], "parts of an encrypted manifest")
    kind, aead, wrapper = tm.parse_security(items[0][1])
    require_eq(kind, 1 if e["kind"] == "oaep" else 0, "kind of security context")
    require_eq(wrapper is not None, e["kind"] == "oaep" and req["full"], "wrapped key in the security context")
    if wrapper is not None:
        require_eq(c10.ref_unwrap(e, wrapper["wrapped"]), c10.secret(e), "wrapped salt and key")
    require_eq((aead["num"], aead["mode"], aead["kdf"]), (e["num"], tm.mode_number(e), c09.kdf_of(e)), "key number, mode and KDF")
    require_eq(tm.decrypt(e, aead, ref.tlv(*items[0]), items[1][1], items[2][1]), value, "decrypted manifest")
    return p


@law(LAWS, 2500, lambda tier: st.fixed_dictionaries({"options": options, "requests": st.lists(request, min_size=1, max_size=4)}))
def build_packet(case, ctx):
    """
    One factory, several requests: each packet is, byte for byte, the one of the reference with the annotations asked for and allowed
    (but for random nonces and signature times); too large ones and unknown sources are refused and leave nothing behind; the
    counters of the factory and its graph tell what was built.
    """
    from ccnpy.core.Name import Name
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
    from ccnpy.flic.name_constructor.SchemaType import SchemaType
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    o = case["options"]
    opts = ManifestTreeOptions(name=Name.from_uri("ccnx:/options"), schema_type=SchemaType.HASHED, signer=tm.signer(o["signer"]),
                               manifest_encryptor=tm.encryptor(o["enc"]), add_node_subtree_size=o["node_size"],
                               add_group_subtree_size=o["group_size"], add_group_leaf_size=o["leaf_size"], max_packet_size=o["max"])
    graph = ManifestGraph() if o["graph"] else None
    f = ManifestFactory(opts) if graph is None else ManifestFactory(opts, graph)
    count = size = annotations = 0
    for req in case["requests"]:
        src, kw = source_obj(req["source"]), arguments(req)
        if req["source"]["kind"] == "bad":
            must_raise(Exception, lambda: f.build_packet(src, **kw), "building from a source that is none")
        else:
            spec = node_spec(req, o)
            value = fm.node_value_plain(spec)
            n = manifest_size(o, req, value)
            if n > o["max"]:
                must_raise(ValueError, lambda: f.build_packet(src, **kw), "building a manifest of %d bytes, with a limit of %d" % (n, o["max"]))
                ctx.label("too large")
            else:
                try:
                    pkt = f.build_packet(src, **kw)
                except ValueError as e:
                    require(False, "a manifest of %d bytes, with a limit of %d, is refused: %s", n, o["max"], e)
                wire = b(pkt.serialize())
                p = check_packet(wire, req, o, value, spec)
                m = Manifest.from_content_object(pkt.body())
                require_eq(b(m.serialize()), p["payload"], "the manifest of the packet")
                require_eq(m.is_encrypted(), o["enc"] is not None, "is_encrypted")
                if o["enc"] is None and all(g["data"] is not None and g["data"]["nc"] is not None for g in spec["groups"]):
                    ptrs = [ref.tlv(*h) for g in spec["groups"] for h in g["ptrs"] or []]
                    require_eq([b(h.hash_value.serialize()) for h in m.hash_values()], ptrs, "pointers of the manifest")
                count += 1
                size += len(wire)
                ctx.label(req["source"]["kind"], "enc:%s" % (o["enc"] and o["enc"]["kind"]), "signer:%s" % req["signer"])
                annotations = max(annotations, sum(req[k] is not None for k in ("ncdefs", "size", "group_size", "leaf_size", "nc", "start")))
                ctx.nontrivial(annotations >= 3 or o["enc"] is not None or req["signer"] is not None)
        require_eq((f.cnt_manifests, f.cnt_manifest_bytes), (count, size), "manifests and bytes counted")
