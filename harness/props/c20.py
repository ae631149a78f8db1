"""C20: expiry times of the packets of a tree."""
from hypothesis import strategies as st

from vh import tree_model as tm
from vh.core_model import b, ms_spec, time_zone, zone_names
from vh.engine import law, require_eq

PROPERTY = "C20"
RULE = ("Cases are build specifications with three independent optional expiry times; non-trivial = the three are not all alike and "
        "there is more than one manifest below the root; distinct by the specification.")
ASSUMPTIONS = ["The packet size is sufficient for the tree and the data is not empty."]
LAWS = []


@law(LAWS, 2000, lambda tier: st.fixed_dictionaries({
    "tree": tm.tree_spec(max_chunks=40 if tier == "quick" else 300, big=tier != "quick"),
    "ms": st.tuples(*[st.one_of(ms_spec, st.none(), ms_spec)] * 3).map(list), "zone": zone_names}))
def placement(case, ctx):
    """
    The root manifest, the other manifests and the data expire when asked for, to the millisecond, and never if that was not
    asked for.
    """
    s = dict(case["tree"], root_ms=case["ms"][0], manifest_ms=case["ms"][1], data_ms=case["ms"][2])
    with time_zone(case["zone"]):
        t = tm.build(s)
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    for v in visits:
        want = s["root_ms"] if v.depth == 0 else s["manifest_ms"] if v.is_manifest else s["data_ms"]
        require_eq(v.packet["expiry"], want, "expiry time of a %s at depth %d" % ("manifest" if v.is_manifest else "data packet", v.depth))
        require_eq(v.packet["val"] != [], v.depth == 0 and s["signer"] is not None, "signed, at depth %d" % v.depth)
    manifests = sum(1 for v in visits if v.is_manifest)
    ctx.label(s["schema"], "".join("-" if m is None else "t" for m in case["ms"]))
    ctx.nontrivial(len({repr(m) for m in case["ms"]}) > 1 and manifests > 2)
