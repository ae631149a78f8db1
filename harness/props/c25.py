"""C25: names."""
from hypothesis import strategies as st

from vh import ref
from vh.core_model import A, b, component_plain, interesting_ints, name_component, name_obj, name_plain, name_spec
from vh.engine import law, require, require_eq

PROPERTY = "C25"
RULE = ("Cases are URIs and programs of name operations; non-trivial = at least two components; distinct by the case.")
ASSUMPTIONS = ["URIs hold only characters that need no escaping (letters of any script, digits, '-', '_', '.', ',', '=', '+', ':', '@'); "
               "the code does no percent decoding."]
LAWS = []

segment = st.text(alphabet="abcxyzABC0189-_.,=+:@éß€漢", min_size=1, max_size=12).filter(lambda s: s not in (".", ".."))


def uri_strategy(tier):
    return st.fixed_dictionaries({"segs": st.lists(segment, max_size=6)})


@law(LAWS, 800, uri_strategy)
def uris(case, ctx):
    """A CCNx URI becomes one name segment per path element, in order, with the element's UTF-8 bytes."""
    from ccnpy.core.Name import Name
    from ccnpy.core.Tlv import Tlv
    segs = case["segs"]
    ctx.nontrivial(len(segs) >= 2)
    ctx.label("segments:%d" % len(segs))
    n = Name.from_uri("ccnx:/" + "/".join(segs))
    want = ref.name([(ref.T_NAMESEGMENT, s.encode("utf-8")) for s in segs])
    require_eq(b(n.serialize()), want, "name of a URI")
    require_eq(n.count(), len(segs), "count")
    back = Name.parse(Tlv.deserialize(A(want)))
    require(back == n, "parsed name differs")
    require_eq(back.as_uri(), n.as_uri(), "URI of the parsed name") if not segs else None
    for i, s in enumerate(segs):
        for x in (n, back):
            require_eq(x[i] if isinstance(x[i], str) else b(x[i]).decode("utf-8"), s, "component %d" % i)
            require(x.component(i).is_name_segment() and not x.component(i).is_chunk_id_segment() and
                    not x.component(i).is_manifest_id_segment(), "component kind")
    require_eq(back.as_uri(), "ccnx:/" + "/".join("Name=" + s for s in segs), "URI text")
    require(Name.from_uri(None) is None, "no URI is no name")


# how the components of a name are printed
PRINTED = {
    ref.T_NAMESEGMENT: lambda v: "Name=" + v.decode("utf-8", errors="backslashreplace"),
    ref.T_CHUNK: lambda v: "ChunkId=%d" % int.from_bytes(v, "big"),
    ref.T_MANIFESTID: lambda v: "ManifestId=%d" % int.from_bytes(v, "big"),
}


def program_strategy(tier):
    op = st.one_of(
        st.tuples(st.just("append"), st.integers(0, 9), name_component),
        st.tuples(st.just("chunk"), st.integers(0, 9), interesting_ints),
        st.tuples(st.just("manifest"), st.integers(0, 9), interesting_ints),
        st.tuples(st.just("parse"), st.integers(0, 9), st.just(0)),
        st.tuples(st.just("uri"), st.integers(0, 9), st.lists(segment, max_size=3)),
    ).map(list)
    return st.fixed_dictionaries({"start": st.none() | name_spec, "ops": st.lists(op, max_size=10)})


@law(LAWS, 1200, program_strategy)
def append_histories(case, ctx):
    """Appending makes a new, longer name and leaves the original, and every other name made from it, as it was; names are
    equal exactly when their components are."""
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.core.Tlv import Tlv
    start = case["start"]
    pool = [(Name() if start is None else name_obj(start), [] if start is None else name_plain(start))]
    for op, i, arg in case["ops"]:
        obj, model = pool[i % len(pool)]
        if op == "append":
            t, v = component_plain(arg)
            new, m = obj.append(NameComponent(t, A(v))), model + [(t, v)]
        elif op == "chunk":
            new, m = obj.append_chunk_id(arg), model + [(ref.T_CHUNK, ref.varint(arg))]
        elif op == "manifest":
            new, m = obj.append_manifest_id(arg), model + [(ref.T_MANIFESTID, ref.varint(arg))]
        elif op == "uri":
            new, m = Name.from_uri("ccnx:/" + "/".join(arg)), [(ref.T_NAMESEGMENT, s.encode("utf-8")) for s in arg]
        else:
            new, m = Name.parse(Tlv.deserialize(obj.serialize())), list(model)
        pool.append((new, m))
    ctx.nontrivial(len(pool) > 2)
    ctx.label("names:%d" % len(pool))
    for obj, model in pool:
        require_eq(b(obj.serialize()), ref.name(model), "name")
        if model and all(t in PRINTED for t, v in model):
            require_eq(Name.parse(Tlv.deserialize(obj.serialize())).as_uri(), "ccnx:/" + "/".join(PRINTED[t](v) for t, v in model),
                       "the name as a URI")
        require_eq(len(obj), len(ref.name(model)), "name length")
        if model:
            require_eq(obj.count(), len(model), "count")
            last = obj.component(len(model) - 1)
            require_eq((last.type(), b(last.value())), model[-1], "last component")
            require_eq((last.is_name_segment(), last.is_chunk_id_segment(), last.is_manifest_id_segment()),
                       (model[-1][0] == 1, model[-1][0] == 5, model[-1][0] == 0x10), "kind of the last component")
        for other, omodel in pool:
            require_eq(obj == other, model == omodel, "equality of names %r and %r" % (model, omodel))
            require_eq(obj != other, model != omodel, "inequality of names")


def chunks_strategy(tier):
    return st.fixed_dictionaries({"base": name_spec, "first": st.integers(0, 70000), "n": st.integers(1, 300)})


@law(LAWS, 100, chunks_strategy)
def segment_names_are_distinct(case, ctx):
    """The names of consecutive chunks and manifests under one prefix are all different from each other and from the prefix."""
    base = name_obj(case["base"])
    ctx.nontrivial(case["n"] > 1)
    seen = {b(base.serialize())}
    for i in range(case["first"], case["first"] + case["n"]):
        for n in (base.append_chunk_id(i), base.append_manifest_id(i)):
            w = b(n.serialize())
            require(w not in seen, "two different segments have the same name %s", w.hex())
            seen.add(w)
