"""C22: detection of missing and wrong packets."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

from props import c10, c21
from vh import keys, ref
from vh import tree_model as tm
from vh.core_model import A, b, hash_obj, name_obj, name_plain
from vh.engine import law, require, require_eq

PROPERTY = "C22"
RULE = ("Cases are a tree, a store and faults; non-trivial = a packet other than the root is damaged in a tree of at least two data packets "
        "(faults), or a key is wrong (keys); distinct by the case.")
ASSUMPTIONS = ["The reader has the hash of the root, or the root is signed.",
               "Bytes that are not part of the message (fixed header, bytes after the packet) may change unnoticed, if the data is not changed."]
LAWS = []

KINDS = ["missing", "missing", "flip", "flip", "flip", "zero", "cut", "cut", "extend", "swap", "swap", "other tree", "other tree", "rename",
         "payload", "payload", "garbage", "empty", "retype", "retype", "strip", "resign"]
fault = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "which": st.integers(0, 1 << 16), "other": st.integers(0, 1 << 16),
                               "pos": st.integers(0, 1 << 24), "bytes": st.binary(min_size=1, max_size=20)})


class Store:
    """A reader of packets that may be wrong; it checks nothing itself."""

    def __init__(self, wires, root, missing):
        self.wires = wires
        self.root = root
        self.missing = missing

    def get(self, name=None, hash_restriction=None):
        from ccnpy.core.Packet import Packet
        digest = self.root if hash_restriction is None else b(hash_restriction.value())
        if digest not in self.wires:
            if self.missing == "none":
                return None
            raise KeyError(digest)
        return Packet.deserialize(A(self.wires[digest]))


def rebuild(wire, **changes):
    """The packet with some fields changed; parts that are not changed are kept. None if it does not have the field."""
    p = tm.parse_packet(wire)
    out = b""
    for t, v in ref.tlvs(ref.tlvs(wire[8:])[0][1]):
        if t == ref.T_PAYLOAD and "payload" in changes:
            v = changes["payload"](v)
        if t == ref.T_PAYLDTYPE and "ptype" in changes:
            v = changes["ptype"]
        if t == ref.T_NAME and "name" in changes:
            v = changes["name"](v)
        out += ref.tlv(t, v)
    if "name" in changes and p["name"] is None:
        out = ref.name([(1, b"new")]) + out
    body = ref.tlv(ref.T_OBJECT, out)
    tail = b"".join(ref.tlv(t, v) for t, v in p["tail"])
    if changes.get("strip"):
        tail = b""
    if changes.get("crc"):
        alg = ref.validation_alg_crc()
        return ref.packet(body, alg, ref.crc32c(body + alg).to_bytes(4, "big"))
    msg = body + tail
    return wire[:2] + (8 + len(msg)).to_bytes(2, "big") + wire[4:8] + msg


def damage(f, digest, store, order, other_wires):
    """Returns (new wire or None for no packet, whether a reader has to notice)."""
    wire = store[digest]
    kind = f["kind"]
    if kind == "missing":
        return None, True
    if kind == "flip":
        i = f["pos"] % (8 * len(wire))
        new = bytearray(wire)
        new[i // 8] ^= 1 << (i % 8)
        return bytes(new), i >= 64
    if kind == "zero":
        i = 8 + f["pos"] % (len(wire) - 8)
        new = wire[:i] + bytes([wire[i] ^ 0xFF]) + wire[i + 1:]
        return new, True
    if kind == "cut":
        return wire[:f["pos"] % len(wire)], True
    if kind == "extend":
        return wire + f["bytes"], False
    if kind == "swap":
        other = order[f["other"] % len(order)]
        return store[other], other != digest
    if kind == "other tree":
        new = other_wires[f["other"] % len(other_wires)]
        return new, ref.packet_hash(new) != digest
    if kind == "rename":
        return rebuild(wire, name=lambda v: v + ref.tlv(1, f["bytes"])), True
    if kind == "payload":
        def change(v):
            if not v:
                return f["bytes"]
            i = f["pos"] % len(v)
            return v[:i] + bytes([v[i] ^ (1 + f["other"] % 255)]) + v[i + 1:]
        return rebuild(wire, payload=change), True
    if kind == "garbage":
        return f["bytes"] * (1 + f["pos"] % 20), True
    if kind == "empty":
        return b"", True
    if kind == "retype":
        # a manifest passed off as data, or data as a manifest
        p = tm.parse_packet(wire)
        return rebuild(wire, ptype=bytes([{0: 3, 3: 0}[p["ptype"]] if f["pos"] % 3 else 2])), True
    if kind == "strip":
        # the message ends after the body
        new = rebuild(wire, strip=True)
        return new, new != wire
    # the packet is validly signed, but it is another packet
    return rebuild(wire, payload=lambda v: v + f["bytes"], crc=True), True


def run_traversal(reader, ks, name, digest):
    """(error or None, data written)"""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    out = TreeIO.DataBuffer()
    error = None
    try:
        Traversal(packet_input=reader, data_writer=out, keystore=ks).traverse(
            name, None if digest is None else HashValue.create_sha256(A(digest)))
    except Exception as e:
        error = e
    return error, out.buffer.tobytes()


def verdict(error, got, data, noticed, what):
    require(data[:len(got)] == got, "%s: %d bytes were written which are not the start of the data", what, len(got))
    if error is None:
        require(got == data, "%s: the traversal ended without an error after %d of %d bytes", what, len(got), len(data))
        require(not noticed, "%s: the traversal did not notice", what)


@law(LAWS, 2500, lambda tier: st.fixed_dictionaries({
    "tree": tm.tree_spec(max_chunks=30 if tier == "quick" else 150), "other": st.integers(0, 1 << 20),
    "faults": st.lists(fault, min_size=1, max_size=2), "store": st.sampled_from(["store", "store", "store", "none", "memory", "directory", "directory"]),
    "root": st.sampled_from([True, True, True, False])}))
def faults(case, ctx):
    """
    A packet of a tree is missing or was replaced by something else; the traversal raises an error and what it wrote until then is
    a prefix of the data.
    """
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    s = case["tree"]
    t = tm.build(s)
    store = {ref.packet_hash(w): w for w in t.wires}
    root = ref.packet_hash(b(t.root.serialize()))
    order = list(store)
    # another tree with the same settings, for other data
    twin = tm.build(dict(s, data=["shake", s["data"][1] ^ case["other"] ^ 0x5A5A5A], chunks=max(1, s["chunks"] // 2)))
    with_hash = case["root"] or s["signer"] is None
    damaged = dict(store)
    noticed = False
    hit = set()
    for f in case["faults"]:
        if f["which"] % 16 == 0 and (with_hash or f["kind"] in ("flip", "zero", "payload")):
            digest = root
        else:
            below = [d for d in order if d != root]
            digest = below[f["which"] % len(below)]
        if digest in hit:
            continue
        new, must = damage(f, digest, store, order, twin.wires)
        hit.add(digest)
        noticed = noticed or must
        if new is None:
            damaged.pop(digest, None)
        else:
            damaged[digest] = new
        ctx.label(f["kind"], "root damaged" if digest == root else ("manifest damaged" if tm.parse_packet(store[digest])["ptype"] == 3 else "data damaged"))
    ks = tm.keystore(s)
    name = name_obj(s["name"])
    where = case["store"]
    scratch = None
    try:
        if where == "directory":
            scratch = tempfile.mkdtemp(prefix="c22-")
            w = TreeIO.PacketDirectoryWriter(scratch, link_named_objects=not with_hash)
            for wire in t.wires:
                w.put(Packet.deserialize(A(wire)))
            files = {d: os.path.join(scratch, d.hex()) for d in order}
            for d in hit:
                require(os.path.isfile(files[d]), "there is no file for %s", d.hex())
                if d in damaged:
                    with open(files[d], "wb") as f:
                        f.write(damaged[d])
                else:
                    os.unlink(files[d])
            reader = TreeIO.PacketDirectoryReader(scratch)
            # links overwrite one another when packets share a name: then the root is asked for by its hash
            if not with_hash and [p["name"] for p in map(tm.parse_packet, t.wires)].count(name_plain(s["name"])) != 1:
                with_hash = True
            error, got = run_traversal(reader, ks, name, root if with_hash else None)
        elif where == "memory":
            kept = []
            for d in order:
                if d in damaged:
                    try:
                        kept.append(Packet.deserialize(A(damaged[d])))
                    except Exception:
                        pass
            # it finds packets by the hash they have
            noticed = any(d not in {ref.packet_hash(b(k.serialize())) for k in kept} for d in hit)
            error, got = run_traversal(TreeIO.PacketMemoryReader(kept), ks, name, root)
        else:
            error, got = run_traversal(Store(damaged, root, where), ks, name, root if with_hash else None)
    finally:
        if scratch is not None:
            shutil.rmtree(scratch)
    verdict(error, got, t.data, noticed, "/".join(f["kind"] for f in case["faults"]))
    ctx.label(where, s["schema"], "noticed" if noticed else "may go unnoticed", "raised" if error is not None else "ended",
              "after 0 bytes" if not got else "after some bytes", "hash" if with_hash else "no hash")
    ctx.nontrivial(noticed and hit != {root} and s["chunks"] >= 2)


@law(LAWS, 800, lambda tier: st.fixed_dictionaries({
    "tree": tm.tree_spec(max_chunks=12, enc=st.one_of(tm.aead_enc, tm.oaep_enc)),
    "fault": st.sampled_from(["none", "flip key", "other number", "other key", "other salt", "other rsa", "nothing"]), "pos": st.integers(0, 1 << 16)}))
def keys_missing(case, ctx):
    """A reader without the key of an encrypted tree, or with another one, gets an error and no data."""
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    s = case["tree"]
    t = tm.build(s)
    e = s["enc"]
    store = {ref.packet_hash(w): w for w in t.wires}
    root = ref.packet_hash(b(t.root.serialize()))
    ks = InsecureKeystore()
    kind = case["fault"]
    signer_key = s["signer"] if s["signer"] not in (None, "crc") else None
    rsa = {}
    if signer_key is not None:
        rsa[signer_key] = False
    aes = None
    wraps = e["kind"] == "oaep" and e["give"] in ("wrapped", "both")
    if kind == "none":
        pass
    elif kind in ("flip key", "other key"):
        aes = dict(e, key=e["key"] ^ (1 + case["pos"]))
    elif kind == "other number":
        aes = dict(e, num=(e["num"] + 1 + case["pos"]) % (1 << 64))
    elif kind == "other salt":
        aes = dict(e, salt=((e["salt"] or 0) + 1 + case["pos"]) % (1 << 32)) if e["salt"] is not None else None
    elif kind == "other rsa" and wraps:
        rsa[[k for k in ("rsa1024a", "rsa1024b", "rsa2048a") if k != e["rsa"]][case["pos"] % 2]] = True
    for k, private in sorted(rsa.items()):
        if k == e.get("rsa") and wraps:
            ks.add_rsa_key(k, keys.public(k))
        else:
            ks.add_rsa_key(k, keys.private(k) if private else keys.public(k))
    if aes is not None:
        ks.add_aes_key(tm.aead_params(aes))
    error, got = run_traversal(Store(store, root, "raise"), ks, name_obj(s["name"]), root)
    require(error is not None, "the traversal of an encrypted tree ended without an error, keys: %s", kind)
    require_eq(got, b"", "data written without the key")
    ctx.label(kind, e["kind"], "wrapped" if wraps else "not wrapped")
    ctx.nontrivial(aes is not None or kind == "other rsa")


class Forger(c21.Maker):
    """Makes a tree by hand in which a packet is not validly signed, or a pointer is not the hash of a packet."""

    def __init__(self, specs, wrapped, sigs, bad):
        super().__init__(specs, wrapped)
        self.sigs = sigs
        self.bad = bad
        self.pointers = 0
        self.bad_packets = set()
        self.bad_pointer = None
        self.rsa = set()

    def keep(self, body, sig, record, free):
        n = len(self.records)
        sig = self.sigs[n % len(self.sigs)]
        forged = self.bad["what"] == "packet" and n == self.bad["which"]
        how = self.bad["how"]
        if forged and sig is None:
            sig = "crc"
        if sig is None:
            wire = ref.packet(body)
        else:
            signed = body
            if forged and how == "other body":
                # the signature of another packet
                signed = ref.content_object([(1, b"another")], None, 0, b"packet")
            if sig == "crc":
                alg = ref.validation_alg_crc()
                val = ref.crc32c(signed + alg).to_bytes(4, "big")
            else:
                alg = ref.validation_alg_rsa((1, keys.keyid(sig)))
                signer = sig
                if forged and how == "other key":
                    signer = "rsa1024b" if sig == "rsa1024a" else "rsa1024a"
                val = rsa_sign(signer, signed + alg)
                if not (forged and how == "missing key"):
                    self.rsa.add(sig)
            if forged:
                if how == "cut":
                    val = val[:-1]
                elif how == "empty":
                    val = b""
                elif how == "longer":
                    val += b"\0"
                elif how == "flip" or (sig == "crc" and how in ("other key", "missing key")):
                    i = self.bad["pos"] % (8 * len(val))
                    val = (int.from_bytes(val, "big") ^ (1 << i)).to_bytes(len(val), "big")
            wire = ref.packet(body, alg, val)
        digest = ref.packet_hash(wire)
        self.packets[digest] = wire
        self.records[digest] = record
        self.free[digest] = free
        self.order.append(digest)
        if forged:
            self.bad_packets.add(digest)
            if how == "missing key" and sig != "crc":
                self.missing = sig
        return digest

    missing = None

    def pointer(self, digest):
        n = self.pointers
        self.pointers += 1
        if self.bad["what"] == "pointer" and n == self.bad["which"]:
            self.bad_pointer = digest
            return {"algorithm": [2, digest], "cut": [1, digest[:-1]], "short": [1, digest[:1]], "empty": [1, b""], "longer": [1, digest + b"\0"],
                    "flip": [1, bytes([digest[0] ^ 1]) + digest[1:]]}[self.bad["ptr"]]
        return [1, digest]


_signatures = {}


def rsa_sign(name, message):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    if (name, message) not in _signatures:
        if len(_signatures) > 2000:
            _signatures.clear()
        _signatures[(name, message)] = keys.crypto_key(name).sign(message, padding.PKCS1v15(), hashes.SHA256())
    return _signatures[(name, message)]


class Obliging:
    """A reader that gives some packet for whatever it is asked."""

    def __init__(self, packets, root, other):
        self.packets = packets
        self.root = root
        self.other = other

    def get(self, name=None, hash_restriction=None):
        from ccnpy.core.Packet import Packet
        digest = self.root if hash_restriction is None else b(hash_restriction.value())
        return Packet.deserialize(A(self.packets.get(digest, self.packets[self.other])))


@law(LAWS, 900, lambda tier: st.fixed_dictionaries({
    "root": c21.tree, "name": c21.short_name, "keys": c21.key_specs, "hash": st.booleans(),
    "sigs": st.one_of(st.just([None]), st.lists(st.sampled_from([None, "crc", "crc", "rsa1024a", "rsa1024b"]), min_size=1, max_size=5)),
    "bad": st.fixed_dictionaries({"what": st.sampled_from(["packet", "packet", "packet", "pointer", "pointer", "nothing"]),
                                  "which": st.one_of(st.integers(0, 4), st.integers(0, 30)), "pos": st.integers(0, 1 << 16),
                                  "how": st.sampled_from(["flip", "flip", "other body", "other body", "other key", "other key", "missing key", "cut", "empty",
                                                          "longer"]),
                                  "ptr": st.sampled_from(["algorithm", "algorithm", "cut", "short", "empty", "longer", "flip"])})}))
def forged(case, ctx):
    """
    A tree that was not made by the writer, some of its packets signed, is read to its end; but with a packet, anywhere, whose signature
    is not valid, or a pointer which is not the hash of the packet the store gives, the traversal raises an error before that packet's data.
    """
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    specs = case["keys"]
    m = Forger(specs, {i: c10.wrapper_tlvs(e, c10.ref_wrap(e)) for i, e in enumerate(specs) if e["kind"] == "oaep"}, case["sigs"], case["bad"])
    name = name_plain(case["name"])
    try:
        root = m.node(name, case["root"], {}, 0)
    except OverflowError:
        ctx.exclude("a packet would be too large")
        return
    want = m.pre_order(name, root)
    if want is None:
        ctx.exclude("the tree is too large")
        return
    ks = InsecureKeystore()
    private = set()
    for i in m.used:
        if specs[i]["kind"] == "oaep":
            private.add(specs[i]["rsa"])
        else:
            ks.add_aes_key(tm.aead_params(specs[i]))
    if m.missing in private | m.rsa:
        ctx.exclude("the key is used elsewhere")
        return
    for r in sorted(private | m.rsa):
        ks.add_rsa_key(r, keys.private(r) if r in private else keys.public(r))
    other = m.bad_pointer if m.bad_pointer is not None else root
    error, got = run_traversal(Obliging(m.packets, root, other), ks, name_obj(case["name"]), root if case["hash"] else None)
    whole = b"".join(x for _, _, x in want if x is not None)
    wrong = bool(m.bad_packets) or m.bad_pointer is not None
    what = "%s %s" % (case["bad"]["what"], case["bad"]["ptr" if case["bad"]["what"] == "pointer" else "how"]) if wrong else "nothing"
    if not wrong and error is not None:
        raise error
    verdict(error, got, whole, wrong, what)
    if m.bad_packets:
        before = b""
        for _, d, x in want:
            if d in m.bad_packets:
                break
            before += x or b""
        require(len(got) <= len(before), "%s: %d bytes were written, of the packet or after it", what, len(got) - len(before))
    ctx.label(what, "depth:%d" % m.depth, "keys:%d" % len(m.used), "root wrong" if root in m.bad_packets else "")
    ctx.nontrivial(wrong and root not in m.bad_packets)
