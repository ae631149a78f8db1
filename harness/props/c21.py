"""C21: traversal of manifest trees that were not made by the writer."""
from hypothesis import strategies as st

from props import c09, c10
from vh import flic_model as fm
from vh import keys, ref
from vh import tree_model as tm
from vh.core_model import A, b, name_obj, name_plain
from vh.engine import law, require, require_eq

PROPERTY = "C21"
RULE = ("Cases are trees of manifests and data, made by the reference encoder; non-trivial = at least two levels of manifests and a name "
        "constructor defined or redefined below the root, or two pointers to one packet, or manifests under different keys; distinct "
        "by the case.")
ASSUMPTIONS = ["Each group refers to a name constructor in scope; groups of a segmented name constructor have a start number.",
               "A packet without payload type is data, and one without payload is empty (RFC 8609).",
               "Prefix name constructors have no locators (the library refuses them, as documented).",
               "Hashed name constructors have exactly one locator (the library supports no other)."]
LAWS = []

NCIDS = [1, 2, 3, 255, 256, 70000]
seg = st.tuples(st.sampled_from(["n", "n", "n", "i"]), st.binary(max_size=5)).map(list)
short_name = st.lists(seg, max_size=3)
ncdef = st.fixed_dictionaries({"id": st.sampled_from(NCIDS), "kind": st.sampled_from(["hash", "prefix", "seg", "seg"]), "name": short_name,
                               "suffix": st.sampled_from([0x10, 0x10, 5, 5, 1, 0x1234]), "locators": tm.locators})
# keys: index in a list of key specs, None for no encryption
data = st.fixed_dictionaries({"data": st.one_of(st.binary(max_size=12), st.binary(min_size=1, max_size=300)), "sig": st.sampled_from([None] * 8 + ["crc"]),
                              "form": st.sampled_from(["full"] * 5 + ["no type", "no payload", "neither"]),
                              "final": st.none() | st.none() | st.none() | st.integers(0, 70000), "ms": st.none() | st.none() | st.integers(0, 1 << 47)})
ref_to = st.integers(0, 1 << 16).map(lambda k: {"ref": k})


def group_of(child):
    return st.fixed_dictionaries({"nc": st.integers(0, 5), "start": st.one_of(st.integers(0, 300), st.integers(0, 1 << 40)),
                                  "sizes": st.booleans(), "children": st.one_of(st.lists(child, max_size=5), st.lists(child, min_size=2, max_size=5))})


def node_of(child):
    return st.fixed_dictionaries({
        "ncdefs": st.lists(ncdef, max_size=3, unique_by=lambda d: d["id"]), "groups": st.lists(group_of(child), min_size=1, max_size=4),
        "pad": st.none() | st.none() | st.integers(0, 40), "key": st.none() | st.integers(0, 3), "size": st.booleans(),
        "locators": st.booleans(), "vendor": st.booleans(), "sig": st.sampled_from([None] * 8 + ["crc"])})


leaf = node_of(data)
inner = node_of(st.one_of(data, leaf, leaf, ref_to))
mid = node_of(st.one_of(data, leaf, inner, inner, ref_to, ref_to))
tree = st.one_of(inner, mid, mid, node_of(st.one_of(data, mid, mid, ref_to)))
key_specs = st.tuples(tm.aead_enc, tm.aead_enc, tm.oaep_enc, tm.oaep_enc).map(lambda t: distinct(list(t)))


def distinct(specs):
    """
    Key numbers tell keys apart; and a wrapped key brings its salt, but the key in the keystore is used when there is one with the number.
    """
    return [dict(e, num=(e["num"] & ~3 & ((1 << 64) - 1)) | i, give="wrapped" if e["kind"] == "oaep" else "") for i, e in enumerate(specs)]


class Maker:
    """Encodes the packets of a tree, bottom up, and tells what a reader has to ask for, top down."""

    def __init__(self, specs, wrapped):
        self.specs = specs
        self.wrapped = wrapped
        self.packets = {}
        self.records = {}     # digest -> bytes of data, or (name constructors defined, [(id, start or None, [digest])])
        self.free = {}        # digest -> {id: kind} of the name constructors it needs from above
        self.order = []       # digests, in the order they were made
        self.manifests = 0
        self.used = set()
        self.repeats = 0
        self.shared = 0
        self.redefined = 0
        self.depth = 0
        self.nonce = 0
        self.forms = set()

    def keep(self, body, sig, record, free):
        if sig is None:
            wire = ref.packet(body)
        else:
            alg = ref.validation_alg_crc()
            wire = ref.packet(body, alg, ref.crc32c(body + alg).to_bytes(4, "big"))
        digest = ref.packet_hash(wire)
        self.packets[digest] = wire
        self.records[digest] = record
        self.free[digest] = free
        self.order.append(digest)
        return digest

    def pointer(self, digest):
        """Algorithm and value of a pointer."""
        return [1, digest]

    def child(self, name, spec, scope, depth):
        if "data" in spec:
            form = spec.get("form", "full")
            data = b"" if form in ("no payload", "neither") else spec["data"]
            if form != "full":
                self.forms.add(form)
            return self.keep(ref.content_object(name, spec["ms"], None if form in ("no type", "neither") else 0,
                                                None if form in ("no payload", "neither") else data, spec["final"]), spec["sig"], data, {})
        if "ref" in spec:
            # a pointer to a packet made before, whatever its name, that finds what it needs here
            have = [d for d in self.order if all(i in scope and scope[i]["kind"] == k for i, k in self.free[d].items())]
            if not have:
                return self.child(name, {"data": b"", "sig": None, "final": None, "ms": None}, scope, depth)
            # the last ones are those of siblings
            digest = have[-1 - spec["ref"] % len(have)]
            self.repeats += 1
            if not isinstance(self.records[digest], bytes):
                self.shared += 1
            return digest
        return self.node(name, spec, scope, depth)

    def node(self, name, spec, scope, depth):
        self.manifests += 1
        self.depth = max(self.depth, depth)
        defs = spec["ncdefs"]
        if depth == 0 and not defs:
            defs = [{"id": 1, "kind": "hash", "name": [], "suffix": 0, "locators": [{"name": [["n", b"loc"]], "keyid": None, "digest": None}]}]
        if defs:
            if depth > 0:
                self.redefined += 1
            scope = dict(scope)
            for d in defs:
                scope[d["id"]] = d
        ids = sorted(scope)
        groups = []
        wire_groups = []
        free = {}
        for g in spec["groups"]:
            nc = ids[g["nc"] % len(ids)]
            d = scope[nc]
            free[nc] = d["kind"]
            ptrs = []
            for i, c in enumerate(g["children"]):
                ptrs.append(self.child(name_of(d, g["start"], i), c, scope, depth + 1))
                free.update(self.free[ptrs[-1]])
            start = g["start"] if d["kind"] == "seg" else None
            gd = {"size": 5 if g["sizes"] else None, "digest": None, "leaf_size": 6 if g["sizes"] else None, "leaf_digest": None, "nc": nc,
                  "start": start}
            wire_groups.append({"data": gd, "ptrs": [self.pointer(x) for x in ptrs]})
            groups.append((nc, start, ptrs))
        nd = None
        if defs or spec["size"] or spec["locators"] or spec["vendor"]:
            nd = {"size": 77 if spec["size"] else None, "digest": None,
                  "locators": [{"name": [["n", b"loc"]], "keyid": None, "digest": None}] if spec["locators"] else None,
                  "vendors": [{"pen": 9, "payload": b"v"}] if spec["vendor"] else [],
                  "ncdefs": [{"id": d["id"], "schema": {"kind": d["kind"], "name": d["name"], "suffix": d["suffix"],
                                                        "locators": d["locators"] if d["kind"] == "hash" else None, "flags": None}} for d in defs]}
        value = fm.node_value_plain({"data": nd, "groups": wire_groups})
        if spec["pad"] is not None:
            value += ref.tlv(0x0FFE, bytes(spec["pad"]))
        if spec["key"] is None:
            payload = ref.tlv(fm.NODE, value)
        else:
            e = self.specs[spec["key"]]
            self.used.add(spec["key"])
            self.nonce += 1
            nonce = self.nonce.to_bytes(12 if e["salt"] is None else 8, "big")
            wrapper = self.wrapped.get(spec["key"])
            payload = c09.manifest_wire(*c09.ref_encrypt(e, nonce, value, e["kind"], wrapper))
        for d in defs:
            free.pop(d["id"], None)
        return self.keep(ref.content_object(name, None, 3, payload), spec["sig"], (defs, groups), free)

    def pre_order(self, name, root):
        """[(name, digest, data or None)]"""
        out, stack = [], [(name, root, {})]
        while stack:
            n, digest, scope = stack.pop()
            rec = self.records[digest]
            if isinstance(rec, bytes):
                out.append((n, digest, rec))
                continue
            out.append((n, digest, None))
            if len(out) > 5000:
                return None
            defs, groups = rec
            if defs:
                scope = dict(scope)
                for d in defs:
                    scope[d["id"]] = d
            below = []
            for nc, start, ptrs in groups:
                for i, p in enumerate(ptrs):
                    below.append((name_of(scope[nc], start, i), p, scope))
            stack.extend(reversed(below))
        return out


def name_of(d, start, i):
    if d["kind"] == "hash":
        return None
    if d["kind"] == "prefix":
        return name_plain(d["name"])
    return name_plain(d["name"]) + [(d["suffix"], ref.varint(start + i))]


class Recorder:
    """Gives packets by their hash and notes what was asked for."""

    def __init__(self, packets, root=None):
        self.packets = packets
        self.asked = []
        self.root = root

    def get(self, name=None, hash_restriction=None):
        from ccnpy.core.Packet import Packet
        if hash_restriction is None and self.root is not None and not self.asked:
            self.asked.append((ref.tlvs(ref.tlvs(b(name.serialize()))[0][1]), None))
            return Packet.deserialize(A(self.packets[self.root]))
        require(hash_restriction is not None, "a packet is asked for without its hash")
        digest = b(hash_restriction.value())
        require_eq(hash_restriction.hash_algorithm() if hasattr(hash_restriction, "hash_algorithm") else 1, 1, "hash algorithm")
        self.asked.append((None if name is None else ref.tlvs(ref.tlvs(b(name.serialize()))[0][1]), digest))
        require(digest in self.packets, "a packet is asked for that no pointer names: %s", digest.hex())
        return Packet.deserialize(A(self.packets[digest]))


@law(LAWS, 2500, lambda tier: st.fixed_dictionaries({"root": tree, "name": short_name, "keys": key_specs,
                                                     "entry": st.sampled_from(["traverse", "traverse", "preorder", "no hash"]),
                                                     "graph": st.booleans(), "twice": st.booleans()}))
def any_tree(case, ctx):
    """
    The data is that of the reference traversal, in pre-order; each packet is asked for once per pointer, in that order, by its hash and
    by the name its name constructor gives: that of the nearest definition above (or in) the manifest.
    """
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    specs = case["keys"]
    wrapped = {i: c10.wrapper_tlvs(e, c10.ref_wrap(e)) for i, e in enumerate(specs) if e["kind"] == "oaep"}
    m = Maker(specs, wrapped)
    name = name_plain(case["name"])
    try:
        digest = m.node(name, case["root"], {}, 0)
    except OverflowError:
        ctx.exclude("a packet would be too large")
        return
    want = m.pre_order(name, digest)
    if want is None:
        ctx.exclude("the tree is too large")
        return
    ks = InsecureKeystore()
    rsa = set()
    for i in m.used:
        if specs[i]["kind"] == "oaep":
            rsa.add(specs[i]["rsa"])
        else:
            ks.add_aes_key(tm.aead_params(specs[i]))
    for r in sorted(rsa):
        ks.add_rsa_key(r, keys.private(r))
    runs = 2 if case["twice"] else 1
    out = TreeIO.DataBuffer()
    nohash = case["entry"] == "no hash"
    rec = Recorder(m.packets, digest if nohash else None)
    t = Traversal(packet_input=rec, data_writer=out, keystore=ks, build_graph=case["graph"])
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Packet import Packet
    for run in range(runs):
        # the second traversal with the same object gives the same again
        before = len(out.buffer)
        rec.asked = []
        t.reset_count()
        if case["entry"] == "preorder":
            t.preorder(Packet.deserialize(A(m.packets[digest])))
            asked = rec.asked
        else:
            t.traverse(name_obj(case["name"]), None if nohash else HashValue.create_sha256(A(digest)))
            asked = rec.asked[1:]
            require_eq(rec.asked[0], (name, None if nohash else digest), "what is asked for the root")
        require_eq(asked, [(n, d) for n, d, _ in want[1:]], "requests")
        require_eq(out.buffer.tobytes()[before:], b"".join(x for _, _, x in want if x is not None), "data")
        require_eq(t.count(), len(want), "packets counted")
    ctx.label("manifests<%d" % (1 << m.manifests.bit_length()), "depth:%d" % m.depth, "keys:%d" % len(m.used), "repeats" if m.repeats else "no repeats", "shared manifests" if m.shared else "no shared manifests",
              *sorted("data: " + x for x in m.forms), "nc below the root" if m.redefined else "nc in the root", case["entry"])
    ctx.nontrivial(m.depth >= 1 and (m.redefined > 0 or m.repeats > 0 or len(m.used) > 1))


def wide_cases(tier):
    for empty, groups in ((True, 1500), (True, 8000), (False, 1500)):
        yield {"empty": empty, "groups": groups}
    for n in (1, 2, 100, 900, 1300):
        yield {"chain": n}


@law(LAWS, 0, lambda tier: st.just({"chain": 1}), enumerate_cases=wide_cases)
def extremes(case, ctx):
    """Manifests with very many groups, empty ones among them, and long chains of manifests that each define their name constructor."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    m = Maker([], {})
    if "chain" in case:
        # from the bottom
        digest = m.keep(ref.content_object([(1, b"d"), (0x10, b"\0")], None, 0, b"end"), None, b"", {})
        for i in range(case["chain"]):
            node = {"data": {"size": None, "digest": None, "locators": None, "vendors": [], "ncdefs": [{"id": 1, "schema": {
                "kind": "seg", "name": [["n", b"d"]] + ([] if i == 0 else [["n", b"%d" % (i - 1)]]), "suffix": 0x10, "locators": None, "flags": None}}]},
                "groups": [{"data": {"size": None, "digest": None, "leaf_size": None, "leaf_digest": None, "nc": 1, "start": 0}, "ptrs": [[1, digest]]}]}
            nm = [(1, b"d"), (1, b"%d" % i), (0x10, b"\0")]
            digest = m.keep(ref.content_object(nm, None, 3, fm.node_plain(node)), None, b"", {})
        name, want, count = [["n", b"root"]], b"end", case["chain"] + 1
        names = [[(1, b"d"), (1, b"%d" % i), (0x10, b"\0")] for i in reversed(range(case["chain"] - 1))] + [[(1, b"d"), (0x10, b"\0")]]
    else:
        # (small enough for one packet)
        d = m.keep(ref.content_object([(1, b"d"), (0x10, b"\0")], None, 0, b"x"), None, b"", {})
        groups = []
        for i in range(case["groups"]):
            full = (not case["empty"] and i % 2 == 1) or i == case["groups"] - 1
            groups.append({"data": {"size": None, "digest": None, "leaf_size": None, "leaf_digest": None, "nc": 1, "start": 0} if full else None,
                           "ptrs": [[1, d]] if full else []})
        groups = groups[-7000:] if case["empty"] else groups[-1000:]
        node = {"data": {"size": None, "digest": None, "locators": None, "vendors": [], "ncdefs": [{"id": 1, "schema": {
            "kind": "seg", "name": [["n", b"d"]], "suffix": 0x10, "locators": None, "flags": None}}]}, "groups": groups}
        digest = m.keep(ref.content_object([(1, b"root")], None, 3, fm.node_plain(node)), None, b"", {})
        count = 1 + sum(len(g["ptrs"]) for g in groups)
        name, want = [["n", b"root"]], b"x" * (count - 1)
        names = [[(1, b"d"), (0x10, b"\0")]] * (count - 1)
    out = TreeIO.DataBuffer()
    rec = Recorder(m.packets)
    t = Traversal(packet_input=rec, data_writer=out, keystore=InsecureKeystore())
    t.traverse(name_obj(name), HashValue.create_sha256(A(digest)))
    require_eq(out.buffer.tobytes(), want, "data")
    require_eq(t.count(), count, "packets counted")
    require_eq([n for n, _ in rec.asked[1:]], names, "names asked for")
    ctx.nontrivial(count > 1)
