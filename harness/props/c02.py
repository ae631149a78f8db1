"""C02: packets are no larger, and manifests no wider, than was asked for."""
import math

from hypothesis import strategies as st

from vh import flic_model as fm
from vh import ref
from vh import tree_model as tm
from vh.core_model import b, name_plain
from vh.engine import law, require, require_eq

PROPERTY = "C02"
RULE = ("Cases are build specifications around the smallest packet size with which a tree can be built, of data or (big, plans) of the "
        "hashes and sizes of chunks; non-trivial = the build succeeds with at least two levels of manifests below the root, or "
        "(plans) there are more than 65536 manifests; distinct by the specification.")
ASSUMPTIONS = ["The data is not empty.", "A build may refuse (ValueError) a packet size below what one manifest with two pointers, "
               "the root manifest and one byte of data need; a root manifest may exceed such a size."]
LAWS = []


def check_limits(s, t, visits, ctx, tight):
    size = tm.packet_size(s)
    root = b(t.root.serialize())
    for w in t.wires:
        if w == root:
            bound = max(size, tm.root_size(s) + tm.signature_size(s))
            require(len(w) <= bound, "a root packet of %d bytes, it should need at most %d", len(w), bound)
            continue
        require(len(w) <= size, "a packet of %d bytes, the limit is %d", len(w), size)
    for v in visits:
        if v.is_manifest and s["degree"] is not None:
            n = sum(len(g["ptrs"]) for g in v.packet["node"]["groups"])
            require(n <= s["degree"], "a manifest with %d pointers, the limit is %d", n, s["degree"])
    data = [v for v in visits if not v.is_manifest]
    sizes = [len(v.packet["payload"]) for v in data]
    require(all(n >= 1 for n in sizes), "a data packet without payload")
    depth = max(v.depth for v in visits)
    slack = [size - len(v.packet["wire"]) for v in data[:-1]]
    if slack:
        ctx.label("data slack <= %d" % (0 if max(slack) == 0 else 1 << max(slack).bit_length()))
        require(max(slack) <= 24, "a data packet before the last with %d bytes to spare", max(slack))
    full = max([len(v.packet["wire"]) for v in visits if v.is_manifest and v.depth > 0])
    ctx.label("largest manifest " + ("= limit" if full == size else "within 36 of the limit" if size - full < 36 else "smaller"),
              "degree limited" if s["degree"] is not None else "degree free", "depth:%d" % min(depth, 8), s["schema"],
              "enc:%s" % (s["enc"]["kind"] if s["enc"] else "none"))
    ctx.nontrivial(depth >= 3)


@law(LAWS, 1600, lambda tier: st.fixed_dictionaries({"tree": tm.tree_spec(max_chunks=40 if tier == "quick" else 300, big=tier != "quick")}))
def limits(case, ctx):
    """With a sufficient packet size, all packets keep to the packet size and all manifests to the degree."""
    s = case["tree"]
    t = tm.build(s)
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    check_limits(s, t, visits, ctx, False)


@law(LAWS, 1600, lambda tier: st.fixed_dictionaries({"tree": tm.tree_spec(max_chunks=40, tight=True)}))
def tight(case, ctx):
    """Whatever the packet size, either the build is refused with ValueError, or the limits hold and the data can be read back."""
    s = case["tree"]
    try:
        t = tm.build(s)
    except ValueError as e:
        require(s["slack"] < 0, "refused: %s", e)
        ctx.label("refused")
        return
    ctx.label("built")
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    require_eq(tm.walked_data(visits), t.data, "data")
    check_limits(s, t, visits, ctx, True)


@law(LAWS, 60, lambda tier: st.fixed_dictionaries({"tree": tm.big_spec(most=150 if tier == "quick" else 1200)}))
def big(case, ctx):
    """The limits hold for trees over thousands of chunks, of up to gigabytes each, given by their hashes and sizes."""
    s = case["tree"]
    t = tm.build_big(s)
    size = tm.packet_size(s)
    for w in t.wires[:-1]:
        require(len(w) <= size, "a packet of %d bytes, the limit is %d", len(w), size)
    manifests = [v for v in t.visits if v.is_manifest]
    widest = max(len(v.children) for v in manifests)
    if s["degree"] is not None:
        require(widest <= s["degree"], "a manifest with %d pointers, the limit is %d", widest, s["degree"])
    depth = max(v.depth for v in t.visits)
    ctx.label(s["schema"], "depth:%d" % min(depth, 8), "manifests<%d" % (1 << len(manifests).bit_length()),
              "bytes<2^%d" % (8 * -(-t.visits[0].size.bit_length() // 8)), "size:" + ("node " if s["node_size"] else "") + ("group " if s["group_size"] else "") +
              ("leaf" if s["leaf_size"] else ""))
    ctx.nontrivial(depth >= 3)


def manifest_length(s, size, groups):
    """Bytes of a manifest with an id over 65535 and groups of (pointers, total size, size of the data pointed to)."""
    start = 65536 if s["schema"] == "segmented" else None
    node = {"data": {"size": size, "digest": None, "locators": None, "ncdefs": [], "vendors": []} if s["node_size"] else None, "groups": []}
    count = 0
    for pointers, total, direct in groups:
        node["groups"].append({"ptrs": [(1, b"x" * 32)], "data": {
            "size": total if s["group_size"] else None, "digest": None, "leaf_size": direct if s["leaf_size"] else None, "leaf_digest": None,
            "nc": 1, "start": start}})
        count += pointers - 1
    length = 4 + len(fm.node_value_plain(node)) + 36 * count
    if s["enc"] is not None:
        e = s["enc"]
        nonce = 12 if e["salt"] is None else 8
        length += 4 + 4 + 4 + len(ref.varint(e["num"])) + 4 + nonce + 5 + 4 + 16
        if e["kdf"] is not None:
            length += len(fm.kdf_plain(e["kdf"]))
    name = None
    if s["schema"] == "prefix":
        name = name_plain(tm.mprefix(s))
    elif s["schema"] == "segmented":
        name = name_plain(tm.mprefix(s)) + [(0x10, ref.varint(65536))]
    return length + len(ref.packet(ref.content_object(name_components=name, expiry_ms=s["manifest_ms"], payload_type=3, payload=b"")))


def one_side(s):
    """Whether data and manifests share a name constructor, so that all pointers are in one group."""
    if s["schema"] == "hashed":
        return fm.locators_plain(tm.mloc(s)) == fm.locators_plain(tm.dloc(s))
    return name_plain(tm.mprefix(s)) == name_plain(tm.dprefix(s))


@law(LAWS, 300, lambda tier: st.fixed_dictionaries({
    "tree": st.tuples(tm.tree_spec(max_chunks=1), st.sampled_from([1, 2, 3, 4, 5, 0]), st.integers(0, 200)).map(
        lambda t: dict(t[0], degree=None if t[1] else t[0]["degree"], slack=t[2] if t[1] < 4 else t[0]["slack"])),
    "n": st.one_of(st.integers(1 << 22, 1 << 23), st.integers(1 << 22, 1 << 23), st.integers(1, 1 << 23)),
    "payload": st.one_of(st.integers(1, 2000), st.integers(1, 1 << 40))}))
def plans(case, ctx):
    """
    The number of pointers that is planned for the manifests of a tree over millions of chunks leaves room for what a full manifest
    of such a tree has to hold.
    """
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
    s, n = case["tree"], case["n"]
    payload = min(case["payload"], (1 << 60) // n)
    digest = HashValue.create_sha256(b"x" * 32)
    chunks = [ChunkMetadata(n // 2, payload, digest)] * n
    chunks[0] = ChunkMetadata(0, payload, digest)
    chunks[-1] = ChunkMetadata(n - 1, payload, digest)
    meta = FileMetadata(chunk_metadata=chunks, total_bytes=n * payload)
    lengths = plan_fits(s, meta, payload, tm.packet_size(s), ctx)
    # one byte less than what such a plan needs
    for length in lengths:
        try:
            plan_fits(s, meta, payload, length - 1, ctx)
        except ValueError:
            ctx.label("one byte less: no plan")
            continue
        ctx.label("one byte less: another plan")


def plan_fits(s, meta, payload, limit, ctx):
    """Checks the plan for a packet size; gives the lengths of a full leaf and interior manifest."""
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.tree.TreeParameters import TreeParameters
    SchemaImplFactory.reset_nc_id()
    opts = tm.options(s, max_packet_size=limit)
    p = TreeParameters.create_optimized_tree(file_metadata=meta, manifest_factory=ManifestFactory(tree_options=opts),
                                             name_ctx=NameConstructorContext.create(opts))
    q = p.num_pointers_per_node()
    require(q >= 2, "%d pointers per manifest", q)
    if s["degree"] is not None:
        require(q <= s["degree"], "%d pointers per manifest with a maximum of %d", q, s["degree"])
    d, m = p.internal_direct_per_node(), p.internal_indirect_per_node()
    out = []
    # However manifests are numbered, their ids are different; and each manifest off the left edge is full.  So when there are
    # enough of a kind, one of them is full, has an id over 65535, and points to data and manifests over 65535.
    if m > 0:
        total = p.total_nodes()
        interior = (total // (m + 1) if m > 1 else total) - 200
        leaves = total - -(-total // m) - 200
        if leaves > 65536 + 65536 // q + 100:
            length = manifest_length(s, q * payload, [(q, q * payload, q * payload)])
            require(length <= limit, "%d pointers per manifest: a leaf manifest has %d bytes then, the limit is %d", q, length, limit)
            ctx.label("leaves", s["schema"], "degree limited" if q == s["degree"] else "leaf slack:%d" % min(80, 8 * ((limit - length) // 8)))
            ctx.nontrivial()
            out.append(length)
        if d > 0 and interior > 2 * 65536 + 65536 // d + 200:
            groups = [(d, d * payload, d * payload), (m, m * payload, 0)]
            if one_side(s):
                groups = [(q, q * payload, d * payload)]
            length = manifest_length(s, q * payload, groups)
            require(length <= limit, "%d + %d pointers per manifest: an interior manifest has %d bytes then, the limit is %d", d, m, length, limit)
            ctx.label("interior", "degree limited" if q == s["degree"] else "interior slack:%d" % min(80, 4 * ((limit - length) // 4)))
            out.append(length)
    return out


def many_chunks(tier):
    for spec in (dict(data_ms=None), dict(data_ms=1234567890123)):
        yield dict({"n": 66000 if tier == "quick" else 140000, "schema": "segmented"}, **spec)


@law(LAWS, 0, lambda tier: st.just({}), enumerate_cases=many_chunks)
def chunk_numbers(case, ctx):
    """Data packets with chunk numbers of three bytes are within the limit, too."""
    base = dict(schema="segmented", name=[["n", b"a"]], mprefix=None, dprefix=[["n", b"d"]], mloc=None, dloc=None, same_loc=False, slack=0,
                degree=None, chunks=1, jitter=0, data=["zeros", 0], node_size=False, group_size=False, leaf_size=False, root_ms=None,
                manifest_ms=None, data_ms=case["data_ms"], enc=None, signer=None, nc_start=1)
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    size = tm.data_overhead(base) + 1
    opts = tm.options(base, max_packet_size=size)
    seen = []

    class Sizes:
        def put(self, packet):
            n = len(packet.serialize())
            require(n <= size, "data packet %d has %d bytes, the limit is %d", len(seen), n, size)
            seen.append(n)

    data = b"x" * case["n"]
    meta = NameConstructorContext.create(opts).data_schema_impl.chunk_data(tm.io.BytesIO(data), Sizes())
    require_eq((len(meta), meta.total_bytes), (len(seen), len(data)), "chunks and bytes recorded")
    require(len(seen) > 65536, "only %d chunks", len(seen))
    ctx.nontrivial()
