"""C01: what goes into a manifest tree comes out of it."""
import tempfile

from hypothesis import strategies as st

from vh import tree_model as tm
from vh.core_model import b
from vh.engine import law, require, require_eq

PROPERTY = "C01"
RULE = ("Cases are build specifications (schema, names, locators, packet size, degree, annotations, expiry times, encryption, "
        "signature, data); non-trivial = the tree has at least two levels of manifests below the root, or is encrypted; distinct by "
        "the specification.")
ASSUMPTIONS = ["The packet size is at least what one manifest with two pointers, the root manifest and one byte of data need; the "
               "data is not empty; the reader has the keys."]
LAWS = []


def labels(ctx, s, visits):
    depth = max(v.depth for v in visits)
    ctx.label(s["schema"], "enc:%s" % (s["enc"]["kind"] if s["enc"] else "none"), "depth:%s" % min(depth, 8),
              "signer:%s" % ("none" if s["signer"] is None else "crc" if s["signer"] == "crc" else "rsa"))
    ctx.nontrivial(depth >= 3 or s["enc"] is not None)


def spec_and(**kw):
    def f(tier):
        d = {"tree": tm.tree_spec(max_chunks=60 if tier == "quick" else 400, big=tier != "quick")}
        d.update({k: v for k, v in kw.items()})
        return st.fixed_dictionaries(d)
    return f


@law(LAWS, 1200, spec_and(stages=st.sampled_from(["build", "build", "two", "metadata"]),
                          reads=st.one_of(st.none(), st.none(), st.lists(st.integers(10, 100), min_size=1, max_size=4)),
                          from_list=st.booleans(), sink=st.sampled_from([False, False, False, True])))
def memory(case, ctx):
    """Building a tree in memory and traversing it gives back the input, byte for byte; so does the reference reader."""
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    s = case["tree"]
    t = tm.build(s, stages=case["stages"], reads=case["reads"])
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    labels(ctx, s, visits)
    require_eq(tm.walked_data(visits), t.data, "data, read by hand")
    source = t.memory
    if case["from_list"]:
        # nothing but the encoded packets survives
        source = TreeIO.PacketMemoryReader([Packet.deserialize(tm.fm.A(w)) for w in t.wires])
    tr, out = tm.traverse(source, tm.keystore(s), t.root.body().name(), t.root.content_object_hash(), sink=case["sink"])
    require_eq(out, t.data, "data")
    require_eq(tr.count(), len(visits), "number of packets visited")


@law(LAWS, 480, spec_and(link=st.booleans(), by_name=st.booleans()))
def directory(case, ctx):
    """The same through a directory of packet files, asking for the root by its hash, or by its name when links are written."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    s = case["tree"]
    if s["schema"] == "prefix":
        case = dict(case, by_name=False)      # the name does not identify one object
    with tempfile.TemporaryDirectory(prefix="c01-") as d:
        t = tm.build(s, writer=TreeIO.PacketDirectoryWriter(directory=d, link_named_objects=case["link"] or case["by_name"]))
        visits = tm.walk(s, t.wires, b(t.root.serialize()))
        labels(ctx, s, visits)
        reader = TreeIO.PacketDirectoryReader(directory=d)
        _, out = tm.traverse(reader, tm.keystore(s), t.root.body().name(),
                             None if case["by_name"] else t.root.content_object_hash())
    ctx.label("by name" if case["by_name"] else "by hash")
    require_eq(out, t.data, "data")


def two_specs(tier):
    one = tm.tree_spec(max_chunks=30)
    return st.fixed_dictionaries({"trees": st.lists(one, min_size=2, max_size=3), "order": st.permutations([0, 1, 2])})


def deep_specs(tier):
    return st.fixed_dictionaries({"tree": tm.tree_spec(min_chunks=20), "chunks": st.integers(400, 1200 if tier == "quick" else 3000)})


@law(LAWS, 8, deep_specs, max_shards=8)
def deep(case, ctx):
    """Chains of manifests, as a degree of two makes them, are limited by memory only."""
    s = dict(case["tree"], degree=2, chunks=case["chunks"], signer=None, slack=min(case["tree"]["slack"], 300))
    t = tm.build(s)
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    labels(ctx, s, visits)
    ctx.label("depth>%d" % (max(v.depth for v in visits) // 200 * 200))
    require_eq(tm.walked_data(visits), t.data, "data, read by hand")
    _, out = tm.traverse(t.memory, tm.keystore(s), t.root.body().name(), t.root.content_object_hash())
    require_eq(out, t.data, "data")


@law(LAWS, 240, two_specs)
def shared_store(case, ctx):
    """Several trees in one store do not disturb each other, in whatever order they are read, also with one keystore."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    specs = case["trees"]
    # one key number means one key
    seen = {}
    fixed = []
    for i, s in enumerate(specs):
        if s["enc"] is not None:
            num = s["enc"]["num"]
            while num in seen:
                num = (num + 1) % (1 << 64)
            seen[num] = True
            s = dict(s, enc=dict(s["enc"], num=num))
        fixed.append(s)
    store = TreeIO.PacketMemoryWriter()
    built = [tm.build(s, writer=store) for s in fixed]
    ks = tm.keystore(*fixed)
    ctx.label("trees:%d" % len(built))
    ctx.nontrivial()
    for i in [x for x in case["order"] if x < len(built)] + [0]:
        t = built[i]
        _, out = tm.traverse(store, ks, t.root.body().name(), t.root.content_object_hash())
        require_eq(out, t.data, "data of tree %d" % i)
