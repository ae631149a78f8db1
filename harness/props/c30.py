"""C30: trees that are built and read at the same time."""
import os
import tempfile
import threading

from hypothesis import strategies as st

from props.c27 import Drawing
from vh import tree_model as tm
from vh.core_model import b
from vh.engine import law, require, require_eq

PROPERTY = "C30"
RULE = ("Cases are two to four builds and traversals and a schedule that says which of them goes on to its next read or write; non-trivial = at "
        "least two of them were begun and not ended at the same time, and took turns at least four times; distinct by the case.")
ASSUMPTIONS = ["Operations take turns at their reads and writes only: each runs in a thread of its own, but never two at once.",
               "One key number stands for one key."]
LAWS = []


class Turns:
    """Runs functions in threads, one at a time; each hands on when it pauses."""

    def __init__(self, schedule):
        self.schedule = schedule
        self.main = threading.Semaphore(0)
        self.taken = 0        # turns that were given to another operation than the one before
        self.overlap = 0

    def run(self, functions):
        n = len(functions)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.left = [0] * n
        self.results = [None] * n
        self.errors = [None] * n
        self.ended = [False] * n
        begun = [False] * n
        for i, f in enumerate(functions):
            threading.Thread(target=self.one, args=(i, f), daemon=True).start()
        step, last = 0, None
        while not all(self.ended):
            alive = [i for i in range(n) if not self.ended[i]]
            which, count = self.schedule[step % len(self.schedule)]
            step += 1
            i = alive[(step + which) % len(alive)]
            self.taken += i != last
            last = i
            begun[i] = True
            self.left[i] = count
            self.go[i].release()
            self.main.acquire()
            self.overlap = max(self.overlap, sum(1 for j in range(n) if begun[j] and not self.ended[j]))
        for e in self.errors:
            if e is not None:
                raise e
        return self.results

    def one(self, i, f):
        self.go[i].acquire()
        try:
            self.results[i] = f(lambda: self.pause(i))
        except BaseException as e:
            self.errors[i] = e
        self.ended[i] = True
        self.main.release()

    def pause(self, i):
        self.left[i] -= 1
        if self.left[i] <= 0:
            self.main.release()
            self.go[i].acquire()


class Reader:
    def __init__(self, store, pause):
        self.store = store
        self.pause = pause

    def get(self, name, hash_restriction, forwarding_hints=None):
        self.pause()
        return self.store.get(name=name, hash_restriction=hash_restriction, forwarding_hints=forwarding_hints)


class Output(tm.Sink):
    def __init__(self, pause):
        super().__init__()
        self.pause = pause

    def write(self, data):
        self.pause()
        super().write(data)


def strategy(tier):
    tree = tm.tree_spec(max_chunks=25 if tier == "quick" else 80).map(lambda s: dict(s, debug=False, nc_start=1, signer=None if s["signer"] == "rsa2048a" else s["signer"]))
    op = st.fixed_dictionaries({"kind": st.sampled_from(["build", "build", "read"]), "tree": tree, "stages": st.sampled_from(["build", "build", "two", "metadata"]),
                                "reads": st.one_of(st.none(), st.none(), st.lists(st.integers(10, 100), min_size=1, max_size=3)),
                                "graph": st.sampled_from([False] * 11 + [True])})
    return st.fixed_dictionaries({
        "ops": st.one_of(st.lists(op, min_size=2, max_size=2), st.lists(op, min_size=3, max_size=4)),
        "schedule": st.lists(st.tuples(st.integers(0, 3), st.one_of(st.integers(1, 2), st.integers(1, 4), st.integers(1, 20))).map(list), min_size=1, max_size=20),
        "alike": st.sampled_from(["no", "no", "no", "options", "same"]), "store": st.booleans(), "keystore": st.booleans()})


def facts(visits):
    """What a tree is, but for its hashes."""
    return [(v.depth, v.is_manifest, v.packet["name"], v.packet["expiry"], len(v.packet["wire"]), v.packet["final"],
             [(g["start"], len(g["ptrs"]), g["size"], g["leaf"]) for g in v.packet["node"]["groups"]] if v.is_manifest else v.packet["payload"])
            for v in visits]


@law(LAWS, 500, strategy)
def together(case, ctx):
    """
    Builds and traversals that take turns, in any order, with their own or with the same options, store and keystore, each give what they
    give alone: the data, the names, the shape and size of the packets, the number of packets and of the edges of a graph.
    """
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    SchemaImplFactory.reset_nc_id()
    ops = case["ops"]
    specs, numbers = [], set()
    for i, op in enumerate(ops):
        s = op["tree"]
        if case["alike"] != "no":
            s = dict(ops[0]["tree"])
            if case["alike"] == "options":
                s.update(data=op["tree"]["data"], chunks=op["tree"]["chunks"], jitter=op["tree"]["jitter"])
        elif s["enc"] is not None:
            num = s["enc"]["num"]
            while num in numbers:
                num = (num + 1) % (1 << 64)
            numbers.add(num)
            s = dict(s, enc=dict(s["enc"], num=num))
        specs.append(s)
    options = tm.options(specs[0]) if case["alike"] != "no" else None
    shared = TreeIO.PacketMemoryWriter() if case["store"] else None
    keys = tm.keystore(*specs) if case["keystore"] else None
    # each of the trees, built alone
    alone = [tm.build_tree(s, shared if op["kind"] == "read" else None, None, op["stages"], op["reads"]) for s, op in zip(specs, ops)]

    def build(s, op):
        return lambda pause: tm.build_tree(s, shared, None, op["stages"], op["reads"], pause, options)

    def read(s, op, t):
        def f(pause):
            out = Output(pause)
            tr = Traversal(packet_input=Reader(t.memory, pause), data_writer=out, keystore=keys or tm.keystore(s), build_graph=op["graph"])
            tr.traverse(t.root.body().name(), t.root.content_object_hash())
            return tr, out.buffer.getvalue()
        return f
    turns = Turns(case["schedule"])
    results = turns.run([build(s, op) if op["kind"] == "build" else read(s, op, t) for s, op, t in zip(specs, ops, alone)])
    for i, (s, op, t, r) in enumerate(zip(specs, ops, alone, results)):
        what = "%s number %d" % (op["kind"], i)
        visits = tm.walk(s, t.wires, b(t.root.serialize()))
        if op["kind"] == "build":
            mine = tm.walk(s, r.wires, b(r.root.serialize()))
            require_eq(tm.walked_data(mine), r.data, "data of " + what)
            require_eq(facts(mine), facts(visits), "packets of " + what)
            require_eq(len(r.wires), len(t.wires), "packets written by " + what)
        else:
            tr, data = r
            require_eq(data, t.data, "data of " + what)
            require_eq(tr.count(), len(visits), "packets visited by " + what)
            if op["graph"]:
                with tempfile.TemporaryDirectory(prefix="c30-") as tmp:
                    tr.get_graph().save(os.path.join(tmp, "g"))
                    d = Drawing(os.path.join(tmp, "g"))
                require_eq((len(d.nodes), len(d.edges)),
                           (len({v.digest for v in visits}), len({(v.digest, c.digest) for v in visits for c in v.children})), "nodes and edges of the graph of " + what)
    if shared is not None:
        # what was written at the same time can be read from there, too
        for s, op, r in zip(specs, ops, results):
            if op["kind"] == "build":
                _, out = tm.traverse(shared, keys or tm.keystore(s), r.root.body().name(), r.root.content_object_hash())
                require_eq(out, r.data, "data of a tree in the shared store")
    ctx.label("+".join(sorted(op["kind"] for op in ops)), "alike: " + case["alike"], "shared store" if case["store"] else "own stores",
              "shared keystore" if case["keystore"] else "own keystores", "overlap:%d" % turns.overlap, "turns<%d" % (1 << turns.taken.bit_length()))
    ctx.nontrivial(turns.overlap >= 2 and turns.taken >= 4)
