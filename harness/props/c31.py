"""C31: what is left behind by a build or a traversal that fails."""
import io
import os
import tempfile

from hypothesis import strategies as st

from props.c27 import Drawing
from props.c30 import facts
from vh import ref
from vh import tree_model as tm
from vh.core_model import b, hash_obj
from vh.engine import law, require, require_eq

PROPERTY = "C31"
RULE = ("Cases are sequences of builds or traversals, some of which meet a fault of their input, output or store at a given step; non-trivial = one "
        "that fails after its first step comes before one that does not fail and that shares something with it; distinct by the case.")
ASSUMPTIONS = ["A fault is an exception of the input, output or store, a packet that is missing, a packet size that is too small, a file that cannot be written or was written in part.",
               "One key number stands for one key."]
LAWS = []


class Fault(OSError):
    pass


class Steps:
    """Counts the reads and writes, and fails at one of them."""

    def __init__(self, at=None, lasting=False):
        self.count = 0
        self.at = at
        self.lasting = lasting
        self.hit = False

    def __call__(self):
        self.count += 1
        if self.at is not None and (self.count == self.at or self.lasting and self.count > self.at):
            self.hit = True
            raise Fault("at step %d" % self.count)


class After:
    """A writer that takes the packet, and then fails."""

    def __init__(self, other, steps):
        self.other = other
        self.steps = steps

    def put(self, packet):
        self.other.put(packet)
        self.steps()


def is_from(e, kind):
    while e is not None:
        if isinstance(e, kind):
            return True
        e = e.__cause__ or e.__context__
    return False


def small_tree(tier):
    return tm.tree_spec(max_chunks=20 if tier == "quick" else 80).map(lambda s: dict(s, debug=False, nc_start=1, signer=None if s["signer"] == "rsa2048a" else s["signer"]))


faults = st.sampled_from(["none", "none", "step", "step", "after", "after", "small", "between", "blocked", "blocked"])


def build_strategy(tier):
    op = st.fixed_dictionaries({"fault": faults, "at": st.integers(0, 999), "same": st.booleans(), "stages": st.sampled_from(["build", "two", "metadata"]),
                                "reads": st.one_of(st.none(), st.none(), st.lists(st.integers(10, 100), min_size=1, max_size=3)),
                                "data": small_tree(tier).map(lambda s: {k: s[k] for k in ("data", "chunks", "jitter")}),
                                "torn": st.integers(0, 3), "keep": st.integers(0, 1 << 16)})
    return st.fixed_dictionaries({"tree": small_tree(tier), "ops": st.lists(op, min_size=2, max_size=4), "store": st.sampled_from(["memory", "directory", "directory"]),
                                  "links": st.booleans(), "graph": st.booleans(), "options": st.booleans()})


def children_written(s, wires, what):
    """Every manifest comes after all that it points to."""
    seen = set()
    for w in wires:
        p = tm.parse_packet(w)
        if p["ptype"] == 3 and (s["enc"] is None or s["enc"]["kind"] == "aead"):
            tm.parse_manifest(s, p)
            for g in p["node"]["groups"]:
                for ptr in g["ptrs"]:
                    require(ptr in seen, "%s: a manifest was written before what it points to", what)
        seen.add(ref.packet_hash(w))


@law(LAWS, 450, build_strategy)
def builds(case, ctx):
    """
    A build whose input, output or packet size fails raises, and what it had written until then is whole, no manifest before what it points
    to. The next build, with the same options, encryptor, signer, graph, store or directory, is what it is without the failure, also if
    files of the failed one were written in part.
    """
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.tlvs.Pointers import Pointers
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    from ccnpy.flic.tree.TreeIO import TreeIO
    SchemaImplFactory.reset_nc_id()
    base = case["tree"]
    options = tm.options(base)
    ks = tm.keystore(base)
    late, failed, good = False, False, set()
    with tempfile.TemporaryDirectory(prefix="c31-") as tmp:
        if case["store"] == "memory":
            store = reader = TreeIO.PacketMemoryWriter()
        else:
            store = TreeIO.PacketDirectoryWriter(tmp, link_named_objects=case["links"])
            reader = TreeIO.PacketDirectoryReader(tmp)
        for i, op in enumerate(case["ops"]):
            last = i == len(case["ops"]) - 1
            fault = "none" if last else op["fault"]
            s = base if op["same"] else dict(base, **op["data"])
            what = "build number %d (%s)" % (i, fault)
            mine = options if case["options"] else tm.options(base)
            count = Steps()
            alone = tm.build_tree(s, None, None, op["stages"], op["reads"], count, tm.options(base))
            graph = ManifestGraph() if case["graph"] else None
            blocked = None
            if fault == "blocked":
                # a file cannot be written, as a directory is in the way
                own = [w for w in alone.wires if tm.parse_packet(w)["ptype"] == 0 and w not in good]
                if case["store"] == "memory" or not own:
                    continue
                blocked = os.path.join(tmp, ref.packet_hash(own[op["at"] % len(own)]).hex())
                if os.path.exists(blocked):
                    os.remove(blocked)
                os.mkdir(blocked)
            steps = Steps(None if fault in ("none", "small", "between", "blocked") else 1 + op["at"] * count.count // 1000, op["keep"] % 3 == 0)
            try:
                if fault == "small":
                    tree = ManifestTree(data_input=io.BytesIO(b"x"), packet_output=store, manifest_graph=graph, tree_options=tm.options(base, max_packet_size=tm.data_overhead(s) + 1))
                    tree.build()
                    continue       # it was not too small
                if fault == "between":
                    tree = ManifestTree(data_input=io.BytesIO(alone.data), packet_output=store, manifest_graph=graph, tree_options=mine)
                    if op["at"] % 2:
                        tree.build_top()
                    failed = True
                    continue
                if fault == "after":
                    n = len(alone.wires)
                    steps = Steps(1 + op["at"] * n // 1000, op["keep"] % 3 == 0)
                    t = tm.build_tree(s, After(store, steps), graph, op["stages"], op["reads"], None, mine)
                else:
                    t = tm.build_tree(s, store, graph, op["stages"], op["reads"], steps, mine)
            except Exception as e:
                if fault == "none":
                    raise
                if blocked is not None:
                    os.rmdir(blocked)
                require(fault == "small" or is_from(e, OSError if blocked else Fault), "%s failed with %r", what, e)
                failed = True
                late = late or (steps.at or 0) > 1 or blocked is not None
                if fault == "small":
                    if graph is not None:
                        # it shows the next manifest and the next tree all the same
                        packet = ManifestFactory(tm.options(base, manifest_encryptor=None, max_packet_size=65000), graph).build_packet(
                            Pointers([hash_obj([1, b"c" * 32]), hash_obj([1, b"d" * 32])]))
                        require(b(packet.serialize()), "a manifest")
                        require_eq(drawn(graph), (3, 2), "nodes and edges of the graph of a manifest after " + what)
                        graph = ManifestGraph()
                        t = tm.build_tree(s, store, graph, op["stages"], op["reads"], None, mine)
                        good |= set(t.wires)
                        check_graph(s, t, graph)
                    continue
                if case["store"] == "directory":
                    wires = [w for w in directory(tmp) if w not in good]
                    for w in wires[:op["torn"]]:
                        with open(os.path.join(tmp, ref.packet_hash(w).hex()), "wb") as f:
                            f.write(w[:op["keep"] % len(w)])
                else:
                    wires = [b(p.serialize()) for p in store]
                    children_written(base, wires, what)
                continue
            require(fault == "none", "%s did not fail", what)
            visits = tm.walk(s, t.wires, b(t.root.serialize()))
            require_eq(tm.walked_data(visits), t.data, "data of " + what)
            require_eq(facts(visits), facts(tm.walk(s, alone.wires, b(alone.root.serialize()))), "packets of " + what)
            require_eq(len(t.wires), len(alone.wires), "packets written by " + what)
            good |= set(t.wires)
            if graph is not None:
                check_graph(s, t, graph)
            tr, out = tm.traverse(reader, ks, t.root.body().name(), t.root.content_object_hash())
            require_eq(out, t.data, "data read after " + what)
            require_eq(tr.count(), len(visits), "packets visited after " + what)
            if case["store"] == "directory":
                require(set(t.wires) <= set(directory(tmp)), "%s: not all files are whole", what)
                if case["links"]:
                    require_eq(b(reader.get(t.root.body().name(), None).serialize()), b(t.root.serialize()), "root read by its link after " + what)
    ctx.label(case["store"], base["schema"], "encrypted" if base["enc"] else "plain", *["fault: " + op["fault"] for op in case["ops"][:-1]])
    ctx.nontrivial(failed and late)


def directory(tmp):
    """The packets of a directory that are whole, by time of writing."""
    out = []
    for name in os.listdir(tmp):
        if name.startswith("~") or len(name) != 64:
            continue
        with open(os.path.join(tmp, name), "rb") as f:
            w = f.read()
        if len(w) >= 8 and ref.packet_hash(w).hex() == name:
            out.append(w)
    return sorted(out)


def drawn(graph):
    with tempfile.TemporaryDirectory(prefix="c31-graph-") as place:
        path = os.path.join(place, "g")
        graph.save(path)
        d = Drawing(path)
    return len(d.nodes), len(d.edges)


def check_graph(s, t, graph):
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    require_eq(drawn(graph), (len({v.digest for v in visits}), len({(v.digest, c.digest) for v in visits for c in v.children})), "nodes and edges of the graph")


class Source:
    """A store of packets that fails at one get: it raises, or finds nothing, or another packet."""

    def __init__(self, store, at, how):
        self.store = store
        self.at = at
        self.how = how
        self.count = 0
        self.hit = False

    def get(self, name, hash_restriction, forwarding_hints=None):
        self.count += 1
        if self.at is not None and self.count == self.at:
            self.hit = True
            if self.how == "raises":
                raise Fault("get")
            if self.how == "missing":
                raise KeyError(hash_restriction)
            if self.how == "none":
                return None
        return self.store.get(name=name, hash_restriction=hash_restriction, forwarding_hints=forwarding_hints)


class FaultySink(tm.Sink):
    def __init__(self):
        super().__init__()
        self.at = None
        self.hit = False
        self.count = 0

    def write(self, data):
        self.count += 1
        if self.at is not None and self.count == self.at:
            self.hit = True
            raise Fault("write")
        super().write(data)


def read_strategy(tier):
    op = st.fixed_dictionaries({"tree": st.integers(0, 2), "fault": st.sampled_from(["none", "none", "raises", "missing", "none packet", "sink", "no key"]),
                                "at": st.integers(0, 999), "reset": st.booleans()})
    return st.fixed_dictionaries({"trees": st.lists(small_tree(tier), min_size=1, max_size=3), "ops": st.lists(op, min_size=2, max_size=6),
                                  "one": st.booleans(), "graph": st.booleans(), "via": st.sampled_from(["traverse", "preorder"])})


@law(LAWS, 450, read_strategy)
def traversals(case, ctx):
    """
    A traversal that meets a fault raises, having written a beginning of the data; the same Traversal, or another one with the same
    keystore, reads the same tree or another one afterwards as if nothing had happened.
    """
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    SchemaImplFactory.reset_nc_id()
    specs, numbers = [], set()
    for s in case["trees"]:
        if s["enc"] is not None:
            num = s["enc"]["num"]
            while num in numbers:
                num = (num + 1) % (1 << 64)
            numbers.add(num)
            s = dict(s, enc=dict(s["enc"], num=num))
        specs.append(s)
    memory = TreeIO.PacketMemoryWriter()
    built = [tm.build_tree(s, memory, None, "build", None) for s in specs]
    walks = [tm.walk(s, t.wires, b(t.root.serialize())) for s, t in zip(specs, built)]
    ks = tm.keystore(*specs)
    source, sink = Source(memory, None, None), FaultySink()
    tr = Traversal(packet_input=source, data_writer=sink, keystore=ks, build_graph=case["graph"])
    seen_nodes, seen_edges = set(), set()
    before, failures, after = 0, 0, 0
    exact = True
    for i, op in enumerate(case["ops"]):
        k = op["tree"] % len(specs)
        t, visits, fault = built[k], walks[k], "none" if i == len(case["ops"]) - 1 else op["fault"]
        if fault == "no key" and (specs[k]["enc"] is None or case["one"]):
            fault = "none"
        if not case["one"]:
            source, sink = Source(memory, None, None), FaultySink()
            tr = Traversal(packet_input=source, data_writer=sink, keystore=InsecureKeystore() if fault == "no key" else ks, build_graph=case["graph"])
            before, seen_nodes, seen_edges, exact = 0, set(), set(), True
        elif op["reset"]:
            tr.reset_count()
            before = 0
        leaves = sum(1 for v in visits if not v.is_manifest)
        source.at = sink.at = None
        source.count = sink.count = 0
        source.hit = sink.hit = False
        if fault == "sink":
            sink.at = 1 + op["at"] * leaves // 1000
        elif fault in ("raises", "missing", "none packet"):
            source.at = 1 + op["at"] * len(visits) // 1000
            source.how = fault if fault != "none packet" else "none"
        sink.buffer = io.BytesIO()
        what = "traversal number %d (%s)" % (i, fault)
        try:
            if case["via"] == "traverse" or fault != "none":
                tr.traverse(t.root.body().name(), t.root.content_object_hash())
            else:
                tr.preorder(t.root)
        except Exception as e:
            if fault == "none":
                raise
            if fault in ("raises", "sink"):
                require(is_from(e, Fault), "%s failed with %r", what, e)
            require(t.data.startswith(sink.buffer.getvalue()), "%s: what was written is no beginning of the data", what)
            failures += 1
            exact = False
            before = tr.count()
            continue
        require(fault == "none", "%s did not fail", what)
        require_eq(sink.buffer.getvalue(), t.data, "data of " + what)
        require_eq(tr.count() - before, len(visits), "packets visited by " + what)
        before = tr.count()
        after += failures > 0
        seen_nodes |= {v.digest for v in visits}
        seen_edges |= {(v.digest, c.digest) for v in visits for c in v.children}
        if case["graph"] and exact:
            require_eq(drawn(tr.get_graph()), (len(seen_nodes), len(seen_edges)), "nodes and edges of the graph of " + what)
    ctx.label("one traversal" if case["one"] else "several", "failures:%d" % failures, "trees:%d" % len(specs), *["fault: " + op["fault"] for op in case["ops"][:-1]])
    ctx.nontrivial(after > 0)
