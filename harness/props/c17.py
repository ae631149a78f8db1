"""C17: hash groups under construction."""
import hashlib

from hypothesis import strategies as st

from vh import flic_model as fm
from vh import ref
from vh import tree_model as tm
from vh.core_model import b, hash_obj, name_obj
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C17"
RULE = ("Cases are limits and a sequence of operations; non-trivial = at least two pointers of each kind are taken and one is refused "
        "or the hash group is made more than once; distinct by the case.")
ASSUMPTIONS = ["Tree builders add data before the manifests that follow it (pairs)."]
LAWS = []

size = st.one_of(st.none(), st.integers(0, 5000), st.sampled_from([0, 1, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32]))
op = st.tuples(st.sampled_from(["append", "prepend", "prepend"]), st.sampled_from(["direct", "indirect"]), size,
               st.sampled_from(["", "", "", "read", "make"]), st.integers(0, 4)).map(list)
limit = st.one_of(st.none(), st.integers(0, 6), st.integers(0, 30))
maker = st.fixed_dictionaries({"nc": st.none() | st.integers(0, 70000), "start": st.none() | st.integers(0, 1 << 40),
                               "leaf": st.booleans(), "subtree": st.booleans()})


def many(one, tier):
    n = 30 if tier == "quick" else 120
    return st.one_of(st.lists(one, max_size=n), st.lists(one, min_size=8, max_size=n), st.lists(one, min_size=8, max_size=n))


def digest(i, repeat):
    """Pointers may repeat: a file may hold the same chunk twice."""
    return hashlib.sha256(b"%d" % (i if repeat else -1)).digest()


class Model:
    def __init__(self, direct, indirect):
        self.max = {"direct": direct, "indirect": indirect}
        self.ptrs = []
        self.count = {"direct": 0, "indirect": 0}
        self.size = {"direct": 0, "indirect": 0}

    def full(self, kind):
        return self.max[kind] is not None and self.count[kind] >= self.max[kind]

    def add(self, where, kind, d, n):
        self.ptrs.insert(len(self.ptrs) if where == "append" else 0, d)
        self.count[kind] += 1
        self.size[kind] += n or 0


def group_wire(m, how):
    data = {"size": m.size["direct"] + m.size["indirect"] if how["subtree"] else None, "digest": None,
            "leaf_size": m.size["direct"] if how["leaf"] else None, "leaf_digest": None, "nc": how["nc"], "start": how["start"]}
    if all(v is None for v in data.values()):
        data = None
    return fm.hash_group_plain({"data": data, "ptrs": [[1, d] for d in m.ptrs]})


def make(builder, how):
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    return builder.hash_group(nc_id=None if how["nc"] is None else NcId(how["nc"]),
                              start_segment_id=None if how["start"] is None else StartSegmentId(how["start"]),
                              include_leaf_size=how["leaf"], include_subtree_size=how["subtree"])


def check_state(builder, m):
    require_eq(builder.direct_count(), m.count["direct"], "direct_count")
    require_eq(builder.indirect_count(), m.count["indirect"], "indirect_count")
    require_eq(builder.direct_size(), m.size["direct"], "direct_size")
    require_eq(builder.indirect_size(), m.size["indirect"], "indirect_size")
    require_eq(bool(builder.is_direct_full()), m.full("direct"), "is_direct_full")
    require_eq(bool(builder.is_indirect_full()), m.full("indirect"), "is_indirect_full")


@law(LAWS, 4000, lambda tier: st.fixed_dictionaries({
    "direct": limit, "indirect": limit, "ops": many(op, tier), "how": maker}))
def builder(case, ctx):
    """
    A builder of one hash group against a list: order, counts, sizes, fullness, refusals (which change nothing), and the wire format
    of the hash groups it makes, at the end and in between.
    """
    from ccnpy.flic.HashGroupBuilder import HashGroupBuilder
    limits = {}
    if case["direct"] is not None:
        limits["max_direct"] = case["direct"]
    if case["indirect"] is not None:
        limits["max_indirect"] = case["indirect"]
    bld = HashGroupBuilder(**limits)
    m = Model(case["direct"], case["indirect"])
    check_state(bld, m)
    made, refused = [], 0
    for i, (where, kind, n, after, rep) in enumerate(case["ops"]):
        d = digest(i, rep > 0)
        fn = getattr(bld, "%s_%s" % (where, kind))
        args = (hash_obj([1, d]),) + (() if n is None else (n,))
        if m.full(kind):
            must_raise(Exception, lambda: fn(*args), "%s_%s beyond the limit" % (where, kind))
            refused += 1
        else:
            fn(*args)
            m.add(where, kind, d, n)
        check_state(bld, m)
        if after == "read":
            require_eq(b(bld.pointers().serialize()), fm.pointers_plain([[1, x] for x in m.ptrs]), "pointers so far")
        elif after == "make":
            hg = make(bld, case["how"])
            made.append((hg, group_wire(m, case["how"])))
            require_eq(b(hg.serialize()), made[-1][1], "the hash group so far")
    hg = make(bld, case["how"])
    made.append((hg, group_wire(m, case["how"])))
    require_eq(b(bld.pointers().serialize()), fm.pointers_plain([[1, x] for x in m.ptrs]), "pointers")
    for hg, wire in made:
        # also those made before more pointers were added
        require_eq(b(hg.serialize()), wire, "hash group")
        require_eq([b(p.value()) for p in hg.pointers()], [wire_ptr for wire_ptr in ptrs_of(wire)], "pointers of the hash group")
    ctx.label("refused:%s" % (refused > 0), "made:%d" % len(made), "pointers:%d" % min(20, len(m.ptrs)))
    ctx.nontrivial(min(m.count.values()) >= 2 and (refused > 0 or len(made) > 1))


def ptrs_of(wire):
    (_, v), = ref.tlvs(wire)
    for t, x in ref.tlvs(v):
        if t == fm.PTRS:
            return [y for _, y in ref.tlvs(x)]
    return []


pair_op = st.tuples(st.sampled_from(["prepend", "prepend", "append"]), st.sampled_from(["direct", "indirect"]), size,
                    st.integers(0, 4)).map(list)


@law(LAWS, 3000, lambda tier: st.fixed_dictionaries({
    "tree": tm.tree_spec(max_chunks=1), "direct": st.one_of(st.integers(0, 6), st.integers(0, 40)),
    "indirect": st.one_of(st.integers(0, 6), st.integers(0, 40)), "ops": many(pair_op, tier),
    "starts": st.lists(st.integers(0, 1 << 34), min_size=2, max_size=2), "leaf": st.booleans(), "subtree": st.booleans(),
    "again": st.booleans()}))
def pair(case, ctx):
    """
    A pair of builders: with one name constructor for both, all pointers are in one group; otherwise those to data are in a first group
    and those to manifests in a second, each with the id of its name constructor and its start number, in the order given.
    """
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tree.HashGroupBuilderPair import HashGroupBuilderPair
    s = case["tree"]
    SchemaImplFactory.reset_nc_id()
    tm.skip_nc_ids(s["nc_start"] - 1)
    name_ctx = NameConstructorContext.create(tm.options(s))
    groups = name_ctx.hash_group_count()
    mid, did = name_ctx.manifest_schema_impl.nc_id().id(), name_ctx.data_schema_impl.nc_id().id()
    require_eq(groups, 1 if mid == did else 2, "number of hash groups")
    bld = HashGroupBuilderPair(name_ctx=name_ctx, max_direct=case["direct"], max_indirect=case["indirect"])
    one = Model(case["direct"], case["indirect"])
    two = {"direct": Model(case["direct"], None), "indirect": Model(None, case["indirect"])}
    refused = 0

    def check():
        require_eq(bool(bld.is_direct_full()), one.full("direct"), "is_direct_full")
        require_eq(bool(bld.is_indirect_full()), one.full("indirect"), "is_indirect_full")
        require_eq(bld.direct_size(), one.size["direct"], "direct_size")
        require_eq(bld.indirect_size(), one.size["indirect"], "indirect_size")

    check()
    for i, (where, kind, n, rep) in enumerate(case["ops"]):
        if kind == "direct":
            where = "prepend"
        d = digest(i, rep > 0)
        fn = getattr(bld, "%s_%s" % (where, kind))
        args = (hash_obj([1, d]),) + (() if n is None else (n,))
        if one.full(kind):
            must_raise(Exception, lambda: fn(*args), "%s_%s beyond the limit" % (where, kind))
            refused += 1
        else:
            fn(*args)
            one.add(where, kind, d, n)
            two[kind].add(where, kind, d, n)
        check()
    kw = {"include_leaf_size": case["leaf"], "include_subtree_size": case["subtree"]}
    start = [None, None]
    if groups == 2 and s["schema"] == "segmented":
        start = case["starts"]
        kw["direct_start_segment_id"], kw["indirect_start_segment_id"] = StartSegmentId(start[0]), StartSegmentId(start[1])
    how = {"leaf": case["leaf"], "subtree": case["subtree"]}
    if groups == 1:
        want = [group_wire(one, dict(how, nc=mid, start=None))]
    else:
        want = [group_wire(two["direct"], dict(how, nc=did, start=start[0])),
                group_wire(two["indirect"], dict(how, nc=mid, start=start[1]))]
    for _ in range(2 if case["again"] else 1):
        require_eq([b(g.serialize()) for g in bld.hash_groups(**kw)], want, "hash groups")
    ctx.label("groups:%d" % groups, s["schema"], "refused:%s" % (refused > 0))
    ctx.nontrivial(min(one.count.values()) >= 2 and (refused > 0 or case["again"]))
