"""C27: the graph of a manifest tree."""
import os
import tempfile

from hypothesis import strategies as st

from props.c21 import Recorder
from vh import flic_model as fm
from vh import ref
from vh import tree_model as tm
from vh.core_model import A, b, hash_obj, name_obj, name_plain
from vh.engine import law, require, require_eq

PROPERTY = "C27"
RULE = ("Cases are trees that are written and read (trees) or sequences of additions, pauses and saves (histories); non-trivial = the graph "
        "has at least two manifests that point to a manifest, or something is added while the graph is paused or after it was saved; distinct by the case.")
ASSUMPTIONS = ["Nodes of the file are named by the hash of their packet, or the start of it.",
               "The writer does not know the names of data packets: their labels are checked in the reader's graph only."]
LAWS = []


class Drawing:
    def __init__(self, path):
        import networkx as nx
        g = nx.nx_pydot.read_dot(path)
        self.nodes = {}
        for n, attrs in g.nodes(data=True):
            if n == "\\n" and not attrs:
                continue          # pydot's reading of the end of the file
            self.nodes[unquote(n)] = {k: unquote(str(v)) for k, v in attrs.items()}
        self.edges = sorted((unquote(u), unquote(v)) for u, v in {(u, v) for u, v, *_ in g.edges})


def unquote(s):
    if len(s) >= 2 and s[0] == s[-1] == '"':
        s = s[1:-1].replace('\\"', '"')
    return s


def label_of(digest, name):
    """The label a packet has to have, or a set of prefixes of it for one without a name."""
    if name is None:
        return None
    t, v = name[-1]
    if t in (ref.T_CHUNK, ref.T_MANIFESTID):
        return str(int.from_bytes(v, "big"))
    obj = name_obj([[{1: "n", 2: "i"}.get(x, x), y] for x, y in name]) if all(x == 1 for x, _ in name) else None
    return obj.as_uri() if obj is not None else ""


def check_drawing(path, packets, data_names, what):
    """
    :param packets: digest -> (is data, name, digests it points to)
    """
    d = Drawing(path)
    digest_of = {}
    for n in d.nodes:
        h = n[2:] if n.startswith("0x") else n
        require(len(h) >= 6, "%s: node %r", what, n)
        mine = [x for x in packets if x.hex().startswith(h.lower())]
        require_eq(len(mine), 1, "%s: packets of node %r" % (what, n))
        digest_of[n] = mine[0]
    require_eq(sorted(digest_of.values()), sorted(packets), "%s: nodes" % what)
    edges = sorted({(x, c) for x, (_, _, children) in packets.items() for c in children})
    require_eq(sorted((digest_of[u], digest_of[v]) for u, v in d.edges), edges, "%s: edges" % what)
    kinds = {}
    for n, attrs in d.nodes.items():
        is_data, name, _ = packets[digest_of[n]]
        kinds.setdefault(is_data, set()).add((attrs.get("color"), attrs.get("shape")))
        if is_data and not data_names:
            continue
        want = label_of(digest_of[n], name)
        got = attrs.get("label", "")
        if want is None:
            h = got[2:] if got.startswith("0x") else got
            require(len(h) >= 6 and digest_of[n].hex().startswith(h.lower()), "%s: label %r of a packet without a name", what, got)
        elif want:
            require_eq(got, want, "%s: label" % what)
    for k in kinds.values():
        require_eq(len(k), 1, "%s: looks of one kind of node" % what)
    require(len(kinds) < 2 or kinds[True] != kinds[False], "%s: data and manifests look alike", what)


@law(LAWS, 600, lambda tier: st.fixed_dictionaries({
    "tree": tm.tree_spec(max_chunks=20 if tier == "quick" else 80), "early": st.booleans()}))
def trees(case, ctx):
    """
    The graph of a written tree and that of the same tree read have a node per packet and an edge per pointer, which are also in the file
    that is saved; the packets and the data are those without a graph.
    """
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    from ccnpy.flic.tree.TreeIO import TreeIO
    s = dict(case["tree"])
    s["name"] = [["n", b"root"]] + [c for c in s["name"] if c[0] == "n" and c[1].isalnum()]
    for k in ("mprefix", "dprefix"):
        if s[k] is not None:
            s[k] = [["n", k.encode()]] + [c for c in s[k] if c[0] == "n" and c[1].isalnum()]
    s = tm.fix(s)
    graph = ManifestGraph()
    memory = TreeIO.PacketMemoryWriter()
    with tempfile.TemporaryDirectory(prefix="c27-") as tmp:
        t = tm.build(s, writer=memory, graph=graph)
        visits = tm.walk(s, t.wires, b(t.root.serialize()))
        if s["enc"] is None and s["signer"] in (None, "crc"):
            require_eq(t.wires, tm.build(s).wires, "packets with and without a graph")
        packets = {v.digest: (not v.is_manifest, v.packet["name"], [c.digest for c in v.children]) for v in visits}
        path = os.path.join(tmp, "written.dot")
        graph.save(path)
        check_drawing(path, packets, False, "written graph")
        ks = tm.keystore(s)
        for build in (True, False):
            tr, out = tm.traverse(memory, ks, t.root.body().name(), t.root.content_object_hash(), build_graph=build)
            require_eq(out, t.data, "data read")
            path = os.path.join(tmp, "read%s.dot" % build)
            tr.get_graph().save(path)
            check_drawing(path, packets if build else {}, True, "read graph")
    ctx.label(s["schema"], "encrypted" if s["enc"] else "plain", "packets<%d" % (1 << len(packets).bit_length()))
    ctx.nontrivial(sum(1 for v in visits if any(c.is_manifest for c in v.children)) >= 2)


step = st.tuples(st.sampled_from(["manifest", "manifest", "data", "data", "pause", "resume", "resume", "save"]), st.integers(0, 7), st.integers(0, 4),
                 st.lists(st.integers(0, 7), max_size=4)).map(list)


@law(LAWS, 700, lambda tier: st.fixed_dictionaries({"near": st.booleans(), "steps": st.lists(step, min_size=1, max_size=16)}))
def histories(case, ctx):
    """
    After any sequence of additions, pauses and saves the graph has exactly what was added while it was not paused; also when
    the hashes of packets have the same start.
    """
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.Pointers import Pointers
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph

    def digest(i):
        return (b"\x12\x34\x56\x78" if case["near"] else bytes([i]) * 4) + bytes([i]) * 28

    names = [None, [(1, b"x")], [(1, b"x"), (ref.T_CHUNK, b"\7")], [(1, b"x"), (ref.T_MANIFESTID, b"\1\2")], []]
    objs = [None, name_obj([["n", b"x"]]), name_obj([["n", b"x"]]).append_chunk_id(7), name_obj([["n", b"x"]]).append_manifest_id(258), name_obj([])]
    g = ManifestGraph()
    packets, paused, odd = {}, False, False
    saved = False
    with tempfile.TemporaryDirectory(prefix="c27-") as tmp:
        path = os.path.join(tmp, "g.dot")

        def check():
            g.save(path)
            want = dict(packets)
            for _, _, below in packets.values():
                for c in below:
                    want.setdefault(c, None)
            d = Drawing(path)
            short = {}
            for n in d.nodes:
                h = n[2:] if n.startswith("0x") else n
                mine = [x for x in want if x.hex().startswith(h.lower())]
                require_eq(len(mine), 1, "packets of node %r" % n)
                short[n] = mine[0]
            require_eq(sorted(short.values()), sorted(want), "nodes")
            require_eq(sorted((short[u], short[v]) for u, v in d.edges), sorted({(x, c) for x, (_, _, below) in packets.items() for c in below}), "edges")
            for n, x in short.items():
                if want[x] is not None and want[x][1]:
                    require_eq(d.nodes[n].get("label"), label_of(x, want[x][1]), "label")

        for what, i, k, below in case["steps"]:
            if what == "pause":
                g.pause()
                paused = True
            elif what == "resume":
                g.resume()
                paused = False
            elif what == "save":
                check()
                saved = True
            else:
                odd = odd or paused or saved
                h = hash_obj([1, digest(i)])
                if what == "data":
                    g.add_data(h, objs[k])
                    rec = (True, names[k], [])
                else:
                    # in two hash groups
                    groups = [HashGroup(pointers=Pointers([hash_obj([1, digest(c)]) for c in part])) for part in (below[:2], below[2:])]
                    g.add_manifest(h, Node(hash_groups=groups), objs[k])
                    rec = (False, names[k], [digest(c) for c in below])
                if not paused:
                    packets[digest(i)] = rec
        check()
    ctx.label("odd" if odd else "plain", "near" if case["near"] else "far")
    ctx.nontrivial(odd)
