"""C15: the sizes written into manifests."""
from hypothesis import strategies as st

from vh import tree_model as tm
from vh.core_model import b
from vh.engine import law, require_eq

PROPERTY = "C15"
RULE = ("Cases are build specifications with every combination of the size options; non-trivial = at least one option is on and "
        "there are at least two manifests below the root; distinct by the specification.")
ASSUMPTIONS = ["The packet size is sufficient for the tree and the data is not empty."]
LAWS = []


def sizes(tree):
    return st.tuples(tree, st.sampled_from([(1, 1, 1), (0, 1, 0), (0, 1, 1), (1, 0, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 0, 0)])).map(
        lambda t: dict(t[0], node_size=bool(t[1][0]), group_size=bool(t[1][1]), leaf_size=bool(t[1][2])))


@law(LAWS, 2000, lambda tier: st.fixed_dictionaries({"tree": sizes(tm.tree_spec(max_chunks=60 if tier == "quick" else 400, big=tier != "quick"))}))
def annotations(case, ctx):
    """
    A node's subtree size is the number of application bytes under the manifest, a group's leaf size the number of bytes its
    data pointers lead to, a group's subtree size the number of bytes all its pointers lead to; they are present if and only if
    they were asked for.
    """
    s = case["tree"]
    t = tm.build(s)
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    check_sizes(s, visits, len(t.data), ctx)


def check_sizes(s, visits, total, ctx):
    require_eq(visits[0].size, total, "bytes under the root")
    for v in visits:
        if not v.is_manifest:
            continue
        node = v.packet["node"]
        where = "at depth %d" % v.depth
        require_eq(node["size"], v.size if s["node_size"] else None, "node subtree size " + where)
        for gi, g in enumerate(node["groups"]):
            mine = [c for c in v.children if c.group == gi]
            require_eq(g["size"], sum(c.size for c in mine) if s["group_size"] else None, "group subtree size " + where)
            # the root's only pointer leads to a manifest: it has no leaf size
            leaf = sum(c.size for c in mine if not c.is_manifest) if s["leaf_size"] and v.depth > 0 else None
            require_eq(g["leaf"], leaf, "group leaf size " + where)
    manifests = sum(1 for v in visits if v.is_manifest)
    on = s["node_size"] + s["group_size"] + s["leaf_size"]
    ctx.label(s["schema"], "node:%d group:%d leaf:%d" % (s["node_size"], s["group_size"], s["leaf_size"]),
              "two hash groups" if any(len(v.packet["node"]["groups"]) == 2 for v in visits if v.is_manifest) else "one hash group")
    ctx.nontrivial(on > 0 and manifests > 2)


@law(LAWS, 60, lambda tier: st.fixed_dictionaries({"tree": sizes(tm.big_spec(most=150 if tier == "quick" else 1200))}))
def big(case, ctx):
    """The same for trees over thousands of chunks of up to gigabytes, given by their hashes and sizes."""
    s = case["tree"]
    t = tm.build_big(s)
    total = (s["n"] - 1) * s["payload"] + s["last"]
    check_sizes(s, t.visits, total, ctx)
    ctx.label("bytes<2^%d" % (8 * -(-total.bit_length() // 8)))
