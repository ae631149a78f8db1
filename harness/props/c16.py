"""C16: the arithmetic of the tree plan."""
import math

from hypothesis import strategies as st

from vh import tree_model as tm
from vh.core_model import b
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C16"
RULE = ("Cases are a number of chunks and a number of pointers per manifest (plan, parameters), a sequence of requests (ids), or a build "
        "specification (plans). Non-trivial = the plan has at least two interior manifests (plan, plans), or ids of at least three "
        "heights are requested (ids); distinct by the case.")
ASSUMPTIONS = ["At least two pointers fit in a manifest and there are at most 2^50 chunks."]
LAWS = []


def room(k, d, m):
    """
    The chunks that fit in a full tree with k interior manifests of d direct and m indirect pointers: every indirect pointer that
    does not point to an interior manifest points to a leaf manifest of d + m pointers.
    """
    leaves = k * m - (k - 1) if k > 0 else 1
    return k * d + leaves * (d + m)


def least_k(n, d, m):
    """The fewest interior manifests with room for n chunks."""
    if m == 0:
        return math.inf if n > d else 1
    if n <= d + m:
        return 0
    grow = room(1, d, m) - room(0, d, m)
    k = max(0, (n - room(0, d, m)) // grow - 1)
    while room(k, d, m) < n:
        k += 1
    return k


def least_height(total, m):
    """The height of the lowest tree of the given number of manifests, with up to m below each."""
    height, level, have = 0, 1, 1
    if m == 1:
        return max(0, total - 1)
    while have < total:
        level *= m
        have += level
        height += 1
    return height


def check_result(r, n, q):
    d, m, k = r.direct_per_node(), r.indirect_per_node(), r.num_internal_nodes()
    require_eq(d + m, q, "direct and indirect pointers of %r" % r)
    require_eq(r.num_pointers(), q, "num_pointers")
    require_eq(r.num_data_objects(), n, "num_data_objects")
    require_eq(k, least_k(n, d, m), "interior manifests of %r" % r)
    leaves = max(0, -(-(n - k * d) // q))
    require_eq(r.num_leaf_nodes(), leaves, "leaf manifests of %r" % r)
    require_eq(r.total_nodes(), k + leaves, "manifests of %r" % r)
    require(k * d + leaves * q >= n, "%r has room for %d of %d chunks", r, k * d + leaves * q, n)
    require_eq(r.waste(), room(k, d, m) - n, "waste of %r" % r)
    require(type(r.tree_height()) is int, "the height %r is not an integer", r.tree_height())
    if m > 0:
        require_eq(r.tree_height(), least_height(k + leaves, m), "height of %r" % r)
    return d, m, k


def check_plan(n, q, every, ctx):
    from ccnpy.flic.tree.OptimizerResult import OptimizerResult
    from ccnpy.flic.tree.TreeOptimizer import TreeOptimizer
    to = TreeOptimizer(num_direct_nodes=n, num_pointers=q)
    table = {}
    for m in range(q):
        d = q - m
        k = least_k(n, d, m)
        table[m] = (k, None if k == math.inf else room(k, d, m) - n)
        require_eq(to.calculate_k(d, m), k, "calculate_k(%d, %d) for %d chunks" % (d, m, n))
        if k != math.inf:
            require_eq(to.calculate_waste(k, d, m), table[m][1], "calculate_waste(%d, %d, %d)" % (k, d, m))
            for kk in {k, k + 1, max(0, k - 1), 0}:
                require_eq(TreeOptimizer.calculate_n(kk, d, m), room(kk, d, m), "calculate_n(%d, %d, %d)" % (kk, d, m))
            if every and m > 0:
                check_result(OptimizerResult(n, q, d, m, k, table[m][1]), n, q)
    finite = {m: t for m, t in table.items() if t[0] != math.inf}
    # the fewest interior manifests
    fewest = min(k for k, _ in finite.values())
    want = [m for m in sorted(finite) if finite[m][0] == fewest]
    got = to.minimize_k()
    require_eq([r.indirect_per_node() for r in got], want, "minimize_k: indirect pointers")
    for r in got:
        check_result(r, n, q)
    # and the least waste among them
    best = to.minimize_k_min_waste()
    d, m, k = check_result(best, n, q)
    require_eq(k, fewest, "minimize_k_min_waste: interior manifests")
    require_eq(best.waste(), min(finite[x][1] for x in want), "minimize_k_min_waste: waste")
    # the least waste
    least = min(w for _, w in finite.values())
    want = [x for x in sorted(finite) if finite[x][1] == least]
    got = to.minimize_waste()
    require_eq([r.indirect_per_node() for r in got], want, "minimize_waste: indirect pointers")
    for r in got:
        check_result(r, n, q)
    if min(r.tree_height() for r in got) < 1 << 31:
        # (it takes no tree higher than this into account)
        low = to.minimize_waste_min_height()
        check_result(low, n, q)
        require_eq(low.waste(), least, "minimize_waste_min_height: waste")
        require_eq(low.tree_height(), min(r.tree_height() for r in got), "minimize_waste_min_height: height")
    ctx.label("interior<%d" % (1 << min(k, 1 << 60).bit_length()), "height:%d" % min(best.tree_height(), 12), "indirect:%d" % min(m, 12))
    ctx.nontrivial(k >= 2)


def small_pairs(tier):
    for q in range(2, 25 if tier == "quick" else 60):
        for lo in range(1, 400 if tier == "quick" else 2000, 40):
            yield {"q": q, "lo": lo, "hi": lo + 40}


@law(LAWS, 0, lambda tier: st.just({"q": 2, "lo": 1, "hi": 2}), enumerate_cases=small_pairs)
def small_plans(case, ctx):
    """Every pair of a small number of chunks and of pointers per manifest (all pairs are enumerated)."""
    for n in range(case["lo"], case["hi"]):
        check_plan(n, case["q"], case["q"] < 8 or n % 7 == 0, ctx)


def big_n():
    return st.one_of(st.integers(1, 10 ** 4), st.integers(1, 1 << 50), st.integers(0, 50).map(lambda e: 1 << e),
                     st.tuples(st.integers(2, 40), st.integers(1, 9), st.integers(-2, 2)).map(
                         lambda t: max(1, min(1 << 50, t[0] ** t[1] + t[2]))))


@law(LAWS, 3000, lambda tier: st.fixed_dictionaries({"n": big_n(), "q": st.one_of(st.integers(2, 60), st.integers(2, 300)),
                                                     "full": st.none() | st.tuples(st.integers(0, 10 ** 6), st.integers(1, 60),
                                                                                   st.integers(-1, 1)).map(list)}))
def big_plans(case, ctx):
    """
    Random numbers of chunks up to 2^50; also those that fill a tree exactly, or with one too many or too few. With a single
    indirect pointer the height is that of a chain.
    """
    n, q = case["n"], case["q"]
    if case["full"] is not None:
        k, m, off = case["full"]
        m = 1 + (m - 1) % max(1, q - 1)
        n = max(1, room(k, q - m, m) + off)
        ctx.label("full%+d" % off)
    check_plan(n, q, q <= 40, ctx)


@law(LAWS, 3000, lambda tier: st.fixed_dictionaries({
    "degree": st.one_of(st.integers(1, 6), st.integers(1, 300)), "height": st.one_of(st.integers(0, 6), st.integers(0, 40)),
    "asks": st.lists(st.tuples(st.integers(0, 40), st.integers(1, 60)).map(list), max_size=12), "drain": st.booleans()}))
def ids(case, ctx):
    """
    Ids of manifests are given out per height of the tree: as long as no more are requested at a height than a full tree has
    manifests there, all ids are different, those of a height are consecutive downwards, those of a lower height are
    all smaller than those of a greater one, and the root's is 0; an id below zero is never given.
    """
    from ccnpy.flic.tree.ManifestIdFactory import ManifestIdFactory
    degree, height = case["degree"], case["height"]
    f = ManifestIdFactory(degree, height)
    given = {}
    for h, count in case["asks"]:
        h = h % (height + 1)
        have = given.setdefault(h, [])
        for _ in range(count):
            if len(have) >= degree ** h:
                break
            have.append(f.get_next_id(h))
    flat = [i for have in given.values() for i in have]
    require(all(type(i) is int for i in flat), "an id is not an integer")
    require_eq(len(set(flat)), len(flat), "distinct ids")
    for h, have in given.items():
        require_eq(have, [have[0] - i for i in range(len(have))] if have else [], "ids of height %d" % h)
        # the last of all those above
        above = sum(degree ** i for i in range(h))
        require_eq(have[0], above + degree ** h - 1, "first id of height %d of degree %d" % (h, degree))
    if case["drain"]:
        f = ManifestIdFactory(degree, height)
        h = 0
        while h < height and sum(degree ** i for i in range(h + 2)) < 400:
            h += 1
        want = sum(degree ** i for i in range(h + 1)) - 1
        if want < 400:
            while want >= 0:
                require_eq(f.get_next_id(h), want, "id of height %d" % h)
                want -= 1
            must_raise(OverflowError, lambda: f.get_next_id(h), "an id below zero")
            ctx.label("drained")
    ctx.label("heights:%d" % len(given))
    ctx.nontrivial(len(given) >= 3)


@law(LAWS, 800, lambda tier: st.fixed_dictionaries({"tree": tm.tree_spec(min_chunks=1, max_chunks=80 if tier == "quick" else 400,
                                                                         big=tier != "quick")}))
def plans(case, ctx):
    """
    The plan of a tree says what its options and data are, it is the best one for its number of pointers, and the tree that is
    built keeps to it: no manifest with more pointers than planned, no more levels.
    """
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.tree.TreeOptimizer import TreeOptimizer
    from ccnpy.flic.tree.TreeParameters import TreeParameters
    s = case["tree"]
    t = tm.build(s)
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    options = tm.options(s)
    # the same name constructor ids as those of the tree: longer ids leave less room
    SchemaImplFactory.reset_nc_id()
    tm.skip_nc_ids(s["nc_start"] - 1)
    name_ctx = NameConstructorContext.create(options)
    meta = name_ctx.data_schema_impl.chunk_data(tm.io.BytesIO(t.data), tm.Collector())
    p = TreeParameters.create_optimized_tree(file_metadata=meta, manifest_factory=ManifestFactory(tree_options=options), name_ctx=name_ctx)
    data = [v for v in visits if not v.is_manifest]
    n, q = len(data), p.num_pointers_per_node()
    require_eq(len(meta), n, "number of chunks")
    require_eq(p.total_direct_nodes(), n, "total_direct_nodes")
    require_eq(p.max_size(), tm.packet_size(s), "max_size")
    require(q >= 2, "%d pointers per manifest", q)
    if s["degree"] is not None:
        require(q <= s["degree"], "%d pointers per manifest with a maximum of %d", q, s["degree"])
    best = TreeOptimizer(num_direct_nodes=n, num_pointers=q).minimize_k_min_waste()
    d, m = p.internal_direct_per_node(), p.internal_indirect_per_node()
    require_eq(d + m, q, "direct and indirect pointers per manifest")
    k = least_k(n, d, m)
    require_eq(k, best.num_internal_nodes(), "interior manifests of the plan")
    require_eq(room(k, d, m) - n, best.waste(), "waste of the plan")
    leaves = max(0, -(-(n - k * d) // q))
    require_eq(p.total_nodes(), k + leaves, "manifests of the plan")
    require_eq(p.tree_height(), least_height(k + leaves, m), "height of the plan")
    below = [v for v in visits[1:] if v.is_manifest]
    # (the number of manifests may differ from the plan's: the left edge of the tree need not be full)
    require(max(v.depth for v in below) - 1 <= p.tree_height(), "%d levels for a plan of height %d", max(v.depth for v in below), p.tree_height())
    for v in below:
        kinds = [c.is_manifest for c in v.children]
        require(len(kinds) <= q, "%d pointers with a plan of %d", len(kinds), q)
        require(sum(kinds) <= m, "%d pointers to manifests with a plan of %d", sum(kinds), m)
    ctx.label(s["schema"], "interior:%d" % min(k, 12), "height:%d" % min(p.tree_height(), 12))
    ctx.nontrivial(k >= 2)
