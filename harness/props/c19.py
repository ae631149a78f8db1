"""C19: names, name constructors and hash groups of trees with nameless objects, or with one prefix."""
from hypothesis import strategies as st

from vh import flic_model as fm
from vh import ref
from vh import tree_model as tm
from vh.core_model import b, hash_spec, name_plain
from vh.engine import law, require, require_eq

PROPERTY = "C19"
RULE = ("Cases are build specifications with the hashed and the prefix schema; non-trivial = at least two levels of manifests below "
        "the root; distinct by the specification.")
ASSUMPTIONS = ["The packet size is sufficient for the tree and the data is not empty."]
LAWS = []


def spec(tier):
    return st.fixed_dictionaries({
        "tree": tm.tree_spec(schemas=("hashed", "prefix"), max_chunks=60 if tier == "quick" else 400, big=tier != "quick"),
        # how the two sides relate: as generated, or made equal in one of several ways
        "same": st.sampled_from(["as is", "as is", "explicit", "default", "near"]),
        "near": st.sampled_from(["keyid", "digest", "name", "less"]), "hash": hash_spec})


def relate(s, how, near, hv):
    if how == "near":
        # two locators, or two prefixes, that are almost the same
        locs = [dict(x) for x in tm.mloc(s)]
        name = list(tm.mprefix(s))
        other = name[:-1] if near == "less" else name + [["n", b"x"]]
        if near in ("keyid", "digest"):
            locs[0][near] = hv
        elif near == "name":
            locs[0]["name"] = list(locs[0]["name"]) + [["n", b""]]
        else:
            locs[0]["keyid"] = locs[0]["digest"] = None
        s = dict(s, mloc=tm.mloc(s), dloc=locs, same_loc=False, mprefix=name, dprefix=other)
    if how == "explicit":
        s = dict(s, dprefix=tm.mprefix(s), dloc=tm.mloc(s), same_loc=False)
    elif how == "default":
        s = dict(s, dprefix=s["name"], mprefix=None, mloc=None, dloc=None, same_loc=False)
    return s


@law(LAWS, 2400, spec)
def names(case, ctx):
    """
    The root has the name asked for.  With the hashed schema all else is nameless, and the root tells the locators of manifests
    and of data; with the prefix schema manifests and data have the manifest and the data prefix.  If the two sides differ there
    are two name constructors and interior manifests have two hash groups, data first; otherwise one of each.
    """
    s = relate(case["tree"], case["same"], case["near"], case["hash"])
    t = tm.build(s)
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    root = visits[0].packet["node"]
    require_eq(visits[0].packet["name"], name_plain(s["name"]), "name of the root")
    if s["schema"] == "hashed":
        sides = [("hashed", None, None, loc) for loc in (tm_value(tm.mloc(s)), tm_value(tm.dloc(s)))]
        wanted_names = (None, None)
    else:
        wanted_names = (name_plain(tm.mprefix(s)), name_plain(tm.dprefix(s)))
        sides = [("prefix", n, None, None) for n in wanted_names]
    one = sides[0] == sides[1]
    ids = {}
    for d in root["ncdefs"]:
        ids[d["id"]] = (d["kind"], d["name"], d["suffix"], d["locators"])
    require_eq(len(ids), len(root["ncdefs"]), "different name constructor ids")
    require_eq(sorted(map(repr, ids.values())), sorted(map(repr, sides[:1] if one else sides)), "name constructors")
    for v in visits[1:]:
        require_eq(v.packet["name"], wanted_names[0 if v.is_manifest else 1], "name of a packet at depth %d" % v.depth)
        require_eq(v.name, v.packet["name"], "name the pointer leads to")
        require_eq(ids[v.nc], sides[0 if v.is_manifest else 1], "name constructor of a packet at depth %d" % v.depth)
        require_eq(v.packet["final"], None, "final chunk id")
        if v.is_manifest:
            groups = v.packet["node"]["groups"]
            require(all(g["start"] is None for g in groups), "a start segment id")
            leaf = not any(c.is_manifest for c in v.children)
            if leaf or one:
                require_eq(len(groups), 1, "hash groups of a manifest")
            else:
                require_eq([ids[g["nc"]] for g in groups], [sides[1], sides[0]], "hash groups of an interior manifest")
    depth = max(v.depth for v in visits)
    ctx.label(s["schema"], "one side" if one else "two sides", "depth:%d" % min(depth, 8), "same: " + case["same"])
    ctx.nontrivial(depth >= 3)


@law(LAWS, 300, spec)
def context(case, ctx):
    """
    The name constructor context of the options, that a caller may make first, has the same: its definitions and the schemas it
    exports by id are one for both sides if they agree, or else one for each.
    """
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    s = relate(case["tree"], case["same"], case["near"], case["hash"])
    c = NameConstructorContext.create(tm.options(s))
    schemas, defs = c.export_schemas(), c.nc_def()
    if s["schema"] == "hashed":
        sides = [(None, b(fm.locators_obj(loc).serialize())) for loc in (tm.mloc(s), tm.dloc(s))]
    else:
        sides = [(name_plain(p), None) for p in (tm.mprefix(s), tm.dprefix(s))]
    count = 1 if sides[0] == sides[1] else 2
    require_eq((c.hash_group_count(), len(schemas), len(defs)), (count,) * 3, "hash groups, schemas and definitions")
    require_eq(sorted(schemas), sorted(d.nc_id().id() for d in defs), "ids of the schemas")
    require_eq(b(schemas[c.manifest_schema_impl.nc_id().id()].nc_def().serialize()), b(defs[0].serialize()), "definition for manifests")
    require_eq(b(schemas[c.data_schema_impl.nc_id().id()].nc_def().serialize()), b(defs[-1].serialize()), "definition for data")
    for impl, (name, locators) in zip((c.manifest_schema_impl, c.data_schema_impl), sides):
        got = schemas[impl.nc_id().id()]
        n = got.get_name(case["tree"]["chunks"])
        require_eq((None if n is None else b(n.serialize()), None if locators is None else b(got.locators().serialize())),
                   (None if name is None else ref.name(name), locators), "name and locators of an exported schema")
    ctx.label(s["schema"], "sides:%d" % count)
    ctx.nontrivial(count == 2)


def tm_value(loc):
    """The value of a Locators TLV."""
    (_, v), = ref.tlvs(fm.locators_plain(loc))
    return v
