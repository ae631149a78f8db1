"""C14: the shape of a manifest tree."""
import collections

from hypothesis import strategies as st

from vh import ref
from vh import tree_model as tm
from vh.core_model import b, name_plain
from vh.engine import law, require, require_eq

PROPERTY = "C14"
RULE = ("Cases are build specifications; non-trivial = at least two levels of manifests below the root; distinct by the "
        "specification.")
ASSUMPTIONS = ["The packet size is sufficient for the tree and the data is not empty."]
LAWS = []


def check_shape(s, t, visits, ctx):
    root, top = visits[0], visits[1]
    require(root.is_manifest, "the root is not a manifest")
    require_eq([len(g["ptrs"]) for g in root.packet["node"]["groups"]], [1], "pointers of the root")
    require(top.is_manifest, "the root does not point to a manifest")
    require_eq(t.wires[-1] == root.packet["wire"], True, "the root manifest is the last packet to be written")
    for v in visits:
        if not v.is_manifest:
            continue
        kinds = [c.is_manifest for c in v.children]
        require(kinds == sorted(kinds), "data is pointed to after a manifest, at depth %d: %r", v.depth, kinds)
        require(len(kinds) >= 1, "a manifest without pointers")
        groups = v.packet["node"]["groups"]
        require(1 <= len(groups) <= 2, "%d hash groups", len(groups))
        if v.depth > 0:
            require_eq(v.packet["node"]["ncdefs"], [], "name constructors below the root")
    # what was written is what is reached, and it is reached once
    require_eq(collections.Counter(ref.packet_hash(w) for w in t.wires), collections.Counter(v.digest for v in visits),
               "packets written and packets reached")
    # the data is cut in full pieces, but for the last
    pieces = [len(v.packet["payload"]) for v in visits if not v.is_manifest]
    require(len(set(pieces[:-1])) <= 1 and 0 < pieces[-1] <= pieces[0], "sizes of the data packets: %r", pieces)
    if len(pieces) > 1:
        # room is kept for names and numbers, not for what is not there
        require(pieces[0] >= tm.packet_size(s) - tm.data_overhead(s), "data packets of %d bytes of data, there is room for %d", pieces[0],
                tm.packet_size(s) - tm.data_overhead(s))
    require_eq(tm.walked_data(visits), t.data, "the data in the order of the tree")
    # bottom up: a packet is written before what points to it
    position = {}
    for i, w in enumerate(t.wires):
        position.setdefault(ref.packet_hash(w), i)
    last = {}
    for i, w in enumerate(t.wires):
        last[ref.packet_hash(w)] = i
    for v in visits:
        for c in v.children:
            require(position[c.digest] < last[v.digest], "a manifest is written before what it points to")
    depth = max(v.depth for v in visits)
    manifests = sum(1 for v in visits if v.is_manifest)
    ctx.label("depth:%d" % min(depth, 8), s["schema"], "hash groups:%d" % max(len(v.packet["node"]["groups"]) for v in visits if v.is_manifest),
              "manifests<%d" % (1 << manifests.bit_length()))
    ctx.nontrivial(depth >= 3)
    return manifests, depth


@law(LAWS, 2400, lambda tier: st.fixed_dictionaries({"tree": tm.tree_spec(max_chunks=60 if tier == "quick" else 400, big=tier != "quick")}))
def shape(case, ctx):
    """
    The root has one pointer, to the top manifest; in a manifest, pointers to data come before pointers to manifests; name
    constructors are defined in the root only; the packets written are the packets reached, each exactly once.
    """
    s = case["tree"]
    t = tm.build(s)
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    check_shape(s, t, visits, ctx)


@law(LAWS, 2000, lambda tier: st.fixed_dictionaries({"tree": tm.tree_spec(min_chunks=2, max_chunks=100 if tier == "quick" else 600,
                                                                          big=tier != "quick")}))
def packing(case, ctx):
    """
    Below the root, every manifest that is not on the left edge is full: it has as many pointers as any other one, and, when it
    points to manifests, as many pointers to manifests as any other one; the tree is no deeper than such a tree has to be.
    """
    s = case["tree"]
    t = tm.build(s)
    check_packing(s, tm.walk(s, t.wires, b(t.root.serialize())), ctx)


def check_packing(s, visits, ctx):
    n = sum(1 for v in visits if not v.is_manifest)
    left = set()
    v = visits[1]
    while True:
        left.add(id(v))
        below = [c for c in v.children if c.is_manifest]
        if not below:
            break
        v = below[0]
    shapes = [(id(v) in left, sum(1 for c in v.children if not c.is_manifest), sum(1 for c in v.children if c.is_manifest))
              for v in visits[1:] if v.is_manifest]
    full = max(d + m for _, d, m in shapes)
    most = max(m for _, d, m in shapes)
    if len(shapes) > len(left):
        # the degree asked for, or as many as there is certainly room for
        least = 2 + (tm.packet_size(s) - tm.manifest_size(s)) // 36
        if s["degree"] is not None:
            least = min(least, s["degree"])
        require(full >= least, "%d pointers in full manifests, there is room for %d", full, least)
    inner = [(d, m) for on_left, d, m in shapes if m > 0 and not on_left]
    for on_left, d, m in shapes:
        if not on_left:
            require_eq(d + m, full, "pointers of a manifest that is not on the left edge")
            require(m in (0, most), "a manifest that is not on the left edge has %d pointers to manifests, others have %d", m, most)
    if most > 0:
        # the most data under a tree with the given number of levels of manifests
        levels, room = 1, full
        while room < n:
            levels += 1
            room = (full - most) + most * room
        depth = max(v.depth for v in visits) - 1
        require(depth <= levels, "%d levels of manifests, %d are enough for %d data packets and %d + %d pointers", depth, levels, n,
                full - most, most)
    ctx.label(s["schema"], "full interior manifests:%d" % min(8, len(inner)), "left edge:%d" % min(8, len(left)))
    ctx.nontrivial(len(shapes) > len(left))


@law(LAWS, 60, lambda tier: st.fixed_dictionaries({"tree": tm.big_spec(most=150 if tier == "quick" else 1200)}))
def big(case, ctx):
    """
    The same for trees over thousands of chunks, given by their hashes and sizes: the chunks are reached in order, each once, data
    before manifests, each manifest once; manifests off the left edge are full and the tree is no deeper than it has to be.
    """
    s = case["tree"]
    t = tm.build_big(s)
    require_eq([v.packet["number"] for v in t.visits if not v.is_manifest], list(range(s["n"])), "chunks in the order of the tree")
    require_eq(collections.Counter(ref.packet_hash(w) for w in t.wires), collections.Counter(v.digest for v in t.visits if v.is_manifest),
               "manifests written and manifests reached")
    require_eq(len(t.visits[0].children), 1, "pointers of the root")
    for v in t.visits:
        kinds = [c.is_manifest for c in v.children]
        require(kinds == sorted(kinds), "data is pointed to after a manifest, at depth %d", v.depth)
    check_packing(s, t.visits, ctx)
    ctx.label("depth:%d" % min(8, max(v.depth for v in t.visits)), "chunks<%d" % (1 << s["n"].bit_length()))
