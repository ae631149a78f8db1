"""C07: content object hashes, and what they identify."""
import hashlib
import tempfile

from hypothesis import strategies as st

from props import c03
from vh import mutate, ref
from vh import tree_model as tm
from vh.core_model import A, b, content_obj, content_plain, content_spec
from vh.engine import law, require, require_eq

PROPERTY = "C07"
RULE = ("Cases are packets, damaged packets, sets of packets and trees; non-trivial = the packet is signed or has two fields, or there "
        "are two different packets, or more than one manifest below the root; distinct by the case.")
ASSUMPTIONS = ["SHA-256 has no collisions."]
LAWS = []


def make(case):
    """(packet, wire by the reference)"""
    from ccnpy.core.Packet import Packet
    from ccnpy.core.ValidationPayload import ValidationPayload
    co, v = content_obj(case["co"]), case["val"]
    if v is None:
        return Packet.create_content_object(co), ref.packet(content_plain(case["co"]))
    return (Packet.create_signed_content_object(co, c03.val_obj(v), ValidationPayload(A(v["payload"]))),
            ref.packet(content_plain(case["co"]), c03.val_plain(v), v["payload"]))


def is_hash(h, wire, what):
    require_eq(b(h.value()), hashlib.sha256(wire[8:]).digest(), what)
    require_eq(b(h.serialize()), ref.tlv(1, hashlib.sha256(wire[8:]).digest()), what + " as a TLV")


def packet_spec(tier):
    return st.fixed_dictionaries({"co": content_spec(), "val": c03.val_spec, "header": st.lists(st.integers(0, 255), min_size=3, max_size=3)})


@law(LAWS, 1600, packet_spec)
def hashes(case, ctx):
    """The hash of a packet is the SHA-256 of all that follows its headers, made or parsed, whatever is in the fixed header."""
    from ccnpy.core.Packet import Packet
    pkt, wire = make(case)
    is_hash(pkt.content_object_hash(), wire, "hash of a packet that was made")
    back = Packet.deserialize(A(wire))
    is_hash(back.content_object_hash(), wire, "hash of a packet that was parsed")
    require(back.content_object_hash() == pkt.content_object_hash(), "the two hashes differ")
    require(hash(back.content_object_hash()) == hash(pkt.content_object_hash()), "the two hash values hash differently")
    other = wire[:4] + bytes(case["header"]) + wire[7:]
    is_hash(Packet.deserialize(A(other)).content_object_hash(), wire, "hash with another fixed header")
    ctx.label("unsigned" if case["val"] is None else case["val"]["alg"])
    ctx.nontrivial(case["val"] is not None or sum(x is not None for x in case["co"].values()) >= 2)


@law(LAWS, 1600, lambda tier: st.fixed_dictionaries({"p": packet_spec(tier), "muts": st.lists(mutate.mutation, min_size=1, max_size=3)}))
def damage(case, ctx):
    """
    The hash of whatever can be parsed is the hash of what it is encoded as; so two packets have the same hash if and only if the
    encoding after the headers is the same.
    """
    from ccnpy.core.Packet import Packet
    pkt, wire = make(case["p"])
    body = mutate.apply(wire[8:], case["muts"])
    if 8 + len(body) > 65535:
        ctx.exclude("too long")
        return
    bad = wire[:2] + (8 + len(body)).to_bytes(2, "big") + wire[4:8] + body
    try:
        back = Packet.deserialize(A(bad))
    except Exception:
        ctx.label("not parsed")
        return
    again = b(back.serialize())
    is_hash(back.content_object_hash(), again, "hash of a damaged packet")
    same = again[8:] == wire[8:]
    require_eq(back.content_object_hash() == pkt.content_object_hash(), same, "hash unchanged (encoding unchanged: %s)" % same)
    ctx.label("parsed, same" if same else "parsed, different")
    ctx.nontrivial(not same)


def stores(tier):
    return st.fixed_dictionaries({
        "packets": st.lists(packet_spec(tier), min_size=1, max_size=5),
        "order": st.lists(st.integers(0, 4), min_size=1, max_size=8),
        "kind": st.sampled_from(["memory", "list", "directory"])})


@law(LAWS, 800, stores)
def fetching(case, ctx):
    """Asking a store for a hash (and the right name) gives the packet that has that hash, whatever else was put in and in what order."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    made = [make(c) for c in case["packets"]]
    seq = [made[i % len(made)] for i in case["order"]]
    with tempfile.TemporaryDirectory(prefix="c07-") as d:
        if case["kind"] == "memory":
            store = TreeIO.PacketMemoryWriter()
        elif case["kind"] == "directory":
            store = TreeIO.PacketDirectoryWriter(directory=d)
        if case["kind"] == "list":
            reader = TreeIO.PacketMemoryReader([p for p, _ in seq])
        else:
            for p, _ in seq:
                store.put(p)
            reader = store if case["kind"] == "memory" else TreeIO.PacketDirectoryReader(d)
        for p, wire in seq:
            got = reader.get(p.body().name(), p.content_object_hash())
            require_eq(b(got.serialize()), wire, "the packet of a hash")
            is_hash(got.content_object_hash(), wire, "hash of a fetched packet")
    ctx.label(case["kind"])
    ctx.nontrivial(len({w for _, w in seq}) > 1)


@law(LAWS, 1000, lambda tier: st.fixed_dictionaries({"tree": tm.tree_spec(max_chunks=50 if tier == "quick" else 300), "meta": st.booleans()}))
def pointers(case, ctx):
    """
    Every pointer in a tree is the hash of a packet that was written; what is recorded about a chunk is the hash and the payload size of
    its packet.
    """
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    import io
    s = case["tree"]
    if case["meta"]:
        opts = tm.options(s)
        col = tm.Collector()
        meta = NameConstructorContext.create(opts).data_schema_impl.chunk_data(io.BytesIO(tm.data_bytes(s)), col)
        require_eq(len(meta), len(col.wires), "number of chunks recorded")
        require_eq(meta.total_bytes, len(tm.data_bytes(s)), "total bytes recorded")
        for i, w in enumerate(col.wires):
            p = tm.parse_packet(w)
            m = meta[i]
            require_eq((m.chunk_number, m.payload_bytes), (i, len(p["payload"])), "chunk record %d" % i)
            is_hash(m.content_object_hash, w, "hash recorded for chunk %d" % i)
        it = meta.reverse_iterator()
        back = []
        while True:
            try:
                back.append(it.next().chunk_number)
            except StopIteration:
                break
        require_eq(back, list(range(len(col.wires)))[::-1], "chunks in reverse order")
        ctx.label("chunks:%s" % ("1" if len(meta) == 1 else ">1"))
        ctx.nontrivial(len(meta) > 1)
        return
    t = tm.build(s)
    digests = {ref.packet_hash(w) for w in t.wires}
    require_eq({b(p.content_object_hash().value()) for p in t.memory}, digests, "hashes of the packets written")
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    for v in visits:
        require(v.digest in digests, "a pointer that leads nowhere")
    ctx.label("tree")
    ctx.nontrivial(sum(1 for v in visits if v.is_manifest) > 2)
