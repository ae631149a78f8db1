"""C18: names of a tree with segmented names."""
from hypothesis import strategies as st

from vh import ref
from vh import tree_model as tm
from vh.core_model import b, interesting_ints, name_plain
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C18"
RULE = ("Cases are build specifications with the segmented schema; non-trivial = at least two levels of manifests below the root; "
        "distinct by the specification.")
ASSUMPTIONS = ["The packet size is sufficient for the tree and the data is not empty."]
LAWS = []
CHUNK, MANIFEST = 5, 0x10


@law(LAWS, 2000, lambda tier: st.fixed_dictionaries({
    "tree": tm.tree_spec(schemas=("segmented",), max_chunks=80 if tier == "quick" else 700, big=tier != "quick"),
    "many": st.sampled_from([False] * 15 + [True]), "stages": st.sampled_from(["build", "build", "metadata"]),
    "reads": st.one_of(st.none(), st.none(), st.lists(st.integers(1, 100), min_size=1, max_size=4))}))
def names(case, ctx):
    """
    Data is named by the data prefix and chunk ids 0, 1, 2... in the order of the data, the last one alone carrying the final
    chunk id; manifests are named by the manifest prefix and manifest ids that are unique, the top one's being 0; the names
    that the hash groups lead to are the names of the packets; the root has the name asked for.
    """
    s = case["tree"]
    if case["many"]:
        # chunk and manifest ids of more than one byte
        s = dict(s, chunks=300 + s["chunks"], enc=None, degree=None if s["degree"] is None else max(s["degree"], 3))
    if case["reads"] is not None and not case["many"]:
        # a stream that gives fewer bytes than it is asked for makes packets that are not full
        ctx.label("short reads")
    t = tm.build(s, stages=case["stages"], reads=None if case["many"] else case["reads"])
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    mp, dp = name_plain(tm.mprefix(s)), name_plain(tm.dprefix(s))
    require_eq(visits[0].packet["name"], name_plain(s["name"]), "name of the root")
    data = [v for v in visits if not v.is_manifest]
    for i, v in enumerate(data):
        require_eq(v.packet["name"], dp + [(CHUNK, ref.varint(i))], "name of data packet %d" % i)
        require_eq(v.packet["final"], len(data) - 1 if i == len(data) - 1 else None, "final chunk id of data packet %d of %d" % (i, len(data)))
    ids = []
    for v in visits[1:]:
        require_eq(v.name, v.packet["name"], "name the pointer leads to, at depth %d" % v.depth)
        if v.is_manifest:
            nm = v.packet["name"]
            require_eq(nm[:-1], mp, "prefix of a manifest's name")
            require_eq(nm[-1][0], MANIFEST, "kind of the last component of a manifest's name")
            ids.append(int.from_bytes(nm[-1][1], "big"))
            require_eq(v.packet["final"], None, "final chunk id of a manifest")
    require_eq(ids[0], 0, "id of the top manifest")
    require(len(set(ids)) == len(ids), "manifest ids are not unique: %r", sorted(ids))
    # the name constructors: one for manifests, one for data
    root = visits[0].packet["node"]
    kinds = {d["id"]: (d["kind"], d["name"], d["suffix"]) for d in root["ncdefs"]}
    require_eq(sorted(kinds.values()), sorted([("segmented", mp, MANIFEST), ("segmented", dp, CHUNK)]), "name constructors")
    for v in visits[1:]:
        require_eq(kinds[v.nc][2], MANIFEST if v.is_manifest else CHUNK, "name constructor used for a packet at depth %d" % v.depth)
    depth = max(v.depth for v in visits)
    ctx.label("depth:%d" % min(depth, 8), "ids>255" if max(ids) > 255 else "ids<256", "chunks>255" if len(data) > 256 else "chunks<256",
              "ids are dense" if max(ids) == len(ids) - 1 else "ids have gaps")
    ctx.nontrivial(depth >= 3)


@law(LAWS, 120, lambda tier: st.fixed_dictionaries({"tree": tm.tree_spec(schemas=("segmented",), max_chunks=6), "which": st.integers(0, 2)}))
def same_prefix(case, ctx):
    """Data and manifests cannot have the same prefix."""
    s = case["tree"]
    p = tm.mprefix(s)
    over = [{"mprefix": p, "dprefix": p}, {"name": p, "mprefix": None, "dprefix": p}, {"name": p, "mprefix": None, "dprefix": None}][case["which"]]
    ctx.nontrivial()
    must_raise(ValueError, lambda: tm.build(dict(s, **over)), "a tree with one prefix for data and manifests")


@law(LAWS, 200, lambda tier: st.fixed_dictionaries({
    "tree": tm.tree_spec(schemas=("segmented",), max_chunks=6), "ids": st.lists(interesting_ints, min_size=1, max_size=4)}))
def context(case, ctx):
    """The name constructor context that a caller may make first gives the same names, through the schemas it exports by id."""
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    s = case["tree"]
    c = NameConstructorContext.create(tm.options(s))
    schemas = c.export_schemas()
    require_eq((c.hash_group_count(), len(schemas), len(c.nc_def())), (2, 2, 2), "hash groups, schemas and definitions")
    for impl, prefix, kind in ((c.manifest_schema_impl, tm.mprefix(s), MANIFEST), (c.data_schema_impl, tm.dprefix(s), CHUNK)):
        for n in case["ids"]:
            require_eq(b(schemas[impl.nc_id().id()].get_name(n).serialize()), ref.name(name_plain(prefix) + [(kind, ref.varint(n))]),
                       "name number %d" % n)
    ctx.nontrivial()


@law(LAWS, 60, lambda tier: st.fixed_dictionaries({"tree": tm.big_spec(schemas=("segmented",), most=150 if tier == "quick" else 1200)}))
def big(case, ctx):
    """
    The same for trees over thousands of chunks, given by their hashes and sizes: the names hash groups lead to are the chunk ids in
    order, and the names of the manifests, which have an id of their own.
    """
    check_names(case["tree"], ctx)


def check_names(s, ctx):
    t = tm.build_big(s)
    mp, dp = name_plain(tm.mprefix(s)), name_plain(tm.dprefix(s))
    ids, i = [], 0
    for v in t.visits[1:]:
        if v.is_manifest:
            require_eq(v.name, v.packet["name"], "name the pointer leads to, at depth %d" % v.depth)
            require_eq((v.name[:-1], v.name[-1][0]), (mp, MANIFEST), "name of a manifest, but for its id")
            ids.append(int.from_bytes(v.name[-1][1], "big"))
        else:
            require_eq((v.name, v.packet["number"]), (dp + [(CHUNK, ref.varint(i))], i), "name the pointer to a chunk leads to")
            i += 1
    require_eq(i, s["n"], "chunks reached")
    require_eq(ids[0], 0, "id of the top manifest")
    require(len(set(ids)) == len(ids), "manifest ids are not unique")
    ctx.label("depth:%d" % min(8, max(v.depth for v in t.visits)), "chunks<%d" % (1 << s["n"].bit_length()),
              "ids<2^%d" % (8 * -(-max(ids).bit_length() // 8)))
    ctx.nontrivial(len(ids) > 2)


def wide_cases(tier):
    base = dict(schema="segmented", name=[["n", b"a"]], mprefix=None, dprefix=[["n", b"d"]], mloc=None, dloc=None, same_loc=False,
                degree=None, chunks=1, jitter=0, data=["zeros", 0], node_size=False, group_size=False, leaf_size=False, root_ms=None,
                manifest_ms=None, data_ms=None, enc=None, signer=None, nc_start=1, payload=4000, last=7)
    yield dict(base, n=67000, slack=32 * 330)
    # manifest ids of three bytes, and interior manifests that lead to chunk ids of three bytes
    yield dict(base, n=70000, slack=36 * 45, degree=41)
    if tier != "quick":
        yield dict(base, n=70001, slack=32 * 1500, mprefix=[["n", b"m"]], enc=tm.FIXED_ENC)
        yield dict(base, n=90000, slack=36 * 50, degree=45, mprefix=[["n", b"m"]])
        yield dict(base, n=70000, slack=36 * 20, degree=17)
        yield dict(base, n=68000, slack=200, degree=2, group_size=True)


@law(LAWS, 0, lambda tier: st.just({}), enumerate_cases=wide_cases)
def wide(case, ctx):
    """The same with chunk ids and manifest ids of three bytes."""
    check_names(case, ctx)
