"""C23: packet directories and packets in memory."""
import os
import re
import tempfile

from hypothesis import strategies as st

from props import c03
from vh import keys, ref
from vh import tree_model as tm
from vh.core_model import A, b, content_obj, content_plain, hash_obj, interesting_ints, name_obj, name_plain
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C23"
RULE = ("Cases are a set of packets and a history of writes, reads and damages; non-trivial = a packet is written twice or two packets have one "
        "name or a file is damaged, and something is read afterwards; distinct by the case.")
ASSUMPTIONS = ["Names fit in a file name (255 bytes); link files of longer ones cannot be written.",
               "No directory is read and written in nested form by the library: the nested form is checked by its files."]
LAWS = []

text = st.one_of(st.text(alphabet="abAB01", min_size=1, max_size=3),
                 st.text(alphabet="ab/~%=.\n\t \\:*é€'\"", max_size=5)).map(lambda s: s.encode("utf-8"))
raw = st.one_of(st.sampled_from([b"\xff", b"\\xff", b"%FF", b"\xc3", b"\xc3\xa9", b"\xa9", b"\0", b"\0\1", b"\1", b"01", b"\0\0", b"a", b"61"]), st.binary(max_size=4))
component = st.one_of(st.tuples(st.just("n"), text), st.tuples(st.just("n"), text), st.tuples(st.just("c"), interesting_ints),
                      st.tuples(st.just("m"), interesting_ints), st.tuples(st.sampled_from(["n", "i", 2, 5, 5, 16, 99]), raw)).map(list)
name = st.one_of(st.lists(component, min_size=1, max_size=3), st.lists(component, min_size=1, max_size=3), st.lists(component, max_size=4),
                 st.sampled_from([[["n", b"a"]], [["n", b"a"], ["n", b"b"]], [["n", b"a/b"]], [["n", b"a~b"]], [["n", b"a%2Fb"]], [["n", b"a%7Eb"]],
                                  [["n", b"../a"]], [["n", b".."], ["n", b".."]], [["n", b""]], [["n", b""], ["n", b""]], [["n", b"~"]],
                                  [["n", b"a"], ["n", b"b"], ["n", b""]], [["n", b"a~Name=b"]], [["n", b"a"], ["c", 0]], [["n", b"a"], ["m", 0]],
                                  [["n", b"a"], ["c", 256]], [["n", b"A"]], [["n", b"a"], ["n", b"ChunkId=0"]], [["n", b"\xff"]], [["n", b"\\xff"]], [["n", b"%FF"]], [["n", b"\xc3\xbf"]],
                                  [["c", 1]], [[5, b"\0\1"]], [["m", 1]], [[16, b"\0\1"]], [["i", b"a"]], [[99, b"a"]], [[99, b"61"]], [["c", 0]], [[5, b""]]]))
payload = st.one_of(st.binary(max_size=6), st.tuples(st.just("shake"), st.integers(0, 100), st.sampled_from([255, 256, 1000, 3000, 9000])).map(list))
small_name = st.sampled_from([[["n", b"a"]], [["n", b"a"]], [["n", b"a"], ["n", b"b"]], [["n", b"a/b"]]])
packet = st.fixed_dictionaries({
    "name": st.one_of(st.none(), small_name, small_name, name, name, name), "expiry": st.none() | st.integers(0, 1 << 47),
    "ptype": st.sampled_from([None, 0, 0, 0, 1, 2, 3, 3]), "payload": st.none() | payload | payload | payload, "final": st.none() | st.integers(0, 300),
    "sig": st.sampled_from([None, None, "crc", "rsa1024a"])})
idx = st.integers(0, 7)
read = st.tuples(st.sampled_from(["hash", "hash", "link", "link", "wrong name", "no name", "wrong hash"]), idx, idx).map(list)
write = st.tuples(st.just("put"), idx, st.just(0)).map(list)
damage = st.tuples(st.sampled_from(["flip", "truncate", "swap", "delete", "extend", "swap links", "delete link", "link is packet", "flip link",
                                     "link elsewhere", "link elsewhere"]),
                   idx, st.integers(0, 1 << 20)).map(list)
one_op = st.one_of(write, write, write, read, read, read, st.tuples(st.just("reopen"), idx, st.just(0)).map(list))
ops = st.one_of(st.lists(one_op, min_size=8, max_size=30), st.lists(one_op, min_size=8, max_size=30), st.lists(one_op, min_size=1, max_size=30))
packets = st.one_of(st.lists(packet, min_size=3, max_size=8), st.lists(packet, min_size=1, max_size=8))


def make(p):
    """(packet, wire)"""
    from ccnpy.core.Packet import Packet
    co = content_obj(p)
    body = content_plain(p)
    if p["sig"] is None:
        pkt = Packet.create_content_object(co)
    else:
        s = tm.signer(p["sig"])
        alg = s.validation_alg()
        pkt = Packet.create_signed_content_object(co, alg, s.sign(co.serialize(), alg.serialize()))
    wire = b(pkt.serialize())
    require_eq(wire[8:8 + len(body)], body, "body")
    return pkt, wire


class Disk:
    """What must be in the directory."""

    def __init__(self):
        self.files = {}          # digest -> wire
        self.links = {}          # name as bytes -> (name spec, digest)


def check_link(wire, spec, digest, signer):
    p = tm.parse_packet(wire)
    require_eq(p["name"], name_plain(spec), "name of a link")
    require_eq(p["ptype"], 2, "payload type of a link")
    require_eq(p["payload"], ref.link_value(name_plain(spec), None, (1, digest)), "content of a link")
    require_eq(p["val"], [3, 4], "validation of a link")
    (_, alg), (_, val) = p["tail"]
    signed = p["body"] + ref.tlv(3, alg)
    if signer is None or signer == "crc":
        require_eq(val, ref.crc32c(signed).to_bytes(4, "big"), "CRC of a link")
    else:
        from cryptography.hazmat.primitives import hashes
        from cryptography.hazmat.primitives.asymmetric import padding
        keys.crypto_key(signer).public_key().verify(val, signed, padding.PKCS1v15(), hashes.SHA256())


def listing(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            path = os.path.join(d, f)
            with open(path, "rb") as fh:
                out[os.path.relpath(path, root)] = fh.read()
    return out


def check_files(root, disk, nested, signer):
    files = listing(root)
    want = {}
    for d, w in disk.files.items():
        h = d.hex()
        want[os.path.join(h[:2], h[2:4], h) if nested else h] = w
    for path, w in want.items():
        require(path in files, "no file %s for a packet that was written", path)
        require_eq(files.pop(path), w, "content of a packet file")
    found = {}
    for path, w in files.items():
        p = tm.parse_packet(w)
        k = ref.name(p["name"])
        require(k in disk.links, "a file %r of a name that was not written", path)
        require(k not in found, "two link files of one name: %r and %r", path, found.get(k))
        check_link(w, *disk.links[k], signer)
        found[k] = path
    require_eq(len(found), len(disk.links), "number of link files")
    return found


class Counters:
    def __init__(self):
        self.bytes = 0
        self.seen = {}

    def put(self, wire, ptype):
        self.bytes += len(wire)
        self.seen[ref.packet_hash(wire)] = (len(wire), ptype == 3)

    def check(self, w):
        require_eq(w.total_bytes_by_packet, self.bytes, "bytes of all packets")
        require_eq(w.total_bytes_by_hash, sum(n for n, _ in self.seen.values()), "bytes of the different packets")
        if hasattr(w, "cnt_manifest"):
            require_eq(w.cnt_manifest, sum(m for _, m in self.seen.values()), "number of manifests")
            require_eq(w.cnt_data, sum(not m for _, m in self.seen.values()), "number of data packets")
            require_eq(w.bytes_manifest, sum(n for n, m in self.seen.values() if m), "bytes of manifests")
            require_eq(w.bytes_data, sum(n for n, m in self.seen.values() if not m), "bytes of data packets")


def writer(root, case):
    from ccnpy.flic.tree.TreeIO import TreeIO
    kw = {}
    if case["signer"] is not None:
        kw["signer"] = tm.signer(case["signer"])
    if case["links"]:
        kw["link_named_objects"] = True
    if case["nested"]:
        kw["nested"] = True
    return TreeIO.PacketDirectoryWriter(root, **kw)


def hv(digest):
    return hash_obj([1, digest])


def is_packet(got, pkt, wire, what):
    require_eq(b(got.serialize()), wire, what)
    require(got == pkt, "%s is not equal to what was written", what)
    require(got.content_object_hash() == pkt.content_object_hash(), "%s: hash", what)


OTHER = [["n", b"another name"]]
START = {"links": st.sampled_from([True, True, True, False]), "nested": st.sampled_from([False] * 4 + [True]),
         "signer": st.sampled_from([None, None, "crc", "rsa1024a", "rsa2048a"]), "packets": packets}


@law(LAWS, 2500, lambda tier: st.fixed_dictionaries(dict(START, ops=ops)))
def directory(case, ctx):
    """
    A history of writes, reads and reopened writers in a directory, against a model of its files: packet files, links, counters
    and the results of reading, by hash and by link.
    """
    from ccnpy.core.Name import Name
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tree.TreeIO import TreeIO
    made = [make(p) for p in case["packets"]]
    n = len(made)
    twice = reads = 0
    with tempfile.TemporaryDirectory(prefix="c23-") as root:
        must_raise(Exception, lambda: writer(os.path.join(root, "absent"), case), "a writer of a directory that does not exist")
        must_raise(Exception, lambda: TreeIO.PacketDirectoryReader(os.path.join(root, "absent")), "a reader of a directory that does not exist")
        w, counters, disk = writer(root, case), Counters(), Disk()
        r = TreeIO.PacketDirectoryReader(root)
        for op, i, j in case["ops"]:
            p, (pkt, wire) = case["packets"][i % n], made[i % n]
            digest = ref.packet_hash(wire)
            if op == "put":
                twice += digest in disk.files
                w.put(pkt)
                disk.files[digest] = wire
                counters.put(wire, p["ptype"])
                counters.check(w)
                if case["links"] and p["name"] is not None:
                    k = ref.name(name_plain(p["name"]))
                    twice += k in disk.links and disk.links[k][1] != digest
                    disk.links[k] = (p["name"], digest)
                require_eq(b(pkt.serialize()), wire, "a packet after it was written")
                continue
            if op == "reopen":
                w.close()
                w, counters = writer(root, case), Counters()
                counters.check(w)
                continue
            reads += 1
            if case["nested"]:
                continue
            nm = name_obj(p["name"])
            if op == "hash":
                if digest in disk.files:
                    is_packet(r.get(nm, hv(digest)), pkt, wire, "packet read by hash")
                else:
                    must_raise(Exception, lambda: r.get(nm, hv(digest)), "reading a packet that was not written")
            elif op == "wrong hash":
                bad = bytes([digest[0] ^ 1]) + digest[1:]
                must_raise(Exception, lambda: r.get(nm, hv(bad)), "reading a hash that was not written")
            elif op in ("wrong name", "no name"):
                other = name_obj(OTHER if op == "wrong name" else None)
                if op == "wrong name" and p["name"] is not None and j % 2:
                    # a name close to the right one
                    other = name_obj(p["name"] + [["n", b""]]) if j % 4 == 1 or not p["name"] else name_obj(p["name"][:-1])
                if digest not in disk.files or p["name"] is not None:
                    must_raise(Exception, lambda: r.get(other, hv(digest)), "reading a packet by hash with another name")
                else:
                    is_packet(r.get(other, hv(digest)), pkt, wire, "a packet without a name, read by hash with a name")
            elif p["name"] is not None:
                k = ref.name(name_plain(p["name"]))
                if k in disk.links:
                    want = [x for x in made if ref.packet_hash(x[1]) == disk.links[k][1]][0]
                    asked = nm if j % 2 else Name.parse(Tlv.deserialize(A(k)))
                    is_packet(r.get(asked, None), want[0], want[1], "packet read by its link")
                else:
                    must_raise(Exception, lambda: r.get(nm, None), "reading a name without a link")
        found = check_files(root, disk, case["nested"], case["signer"])
        for k, path in found.items():
            require_eq(path, TreeIO.get_link_name(name_obj(disk.links[k][0])), "name of a link file")
            require_eq(path, TreeIO.get_link_name(Name.parse(Tlv.deserialize(A(k)))), "name of a link file of the parsed name")
    ctx.label("links:%s" % case["links"], "nested:%s" % case["nested"], "signer:%s" % case["signer"], "twice:%d" % min(3, twice))
    ctx.nontrivial(twice > 0 and reads > 0)


@law(LAWS, 2500, lambda tier: st.fixed_dictionaries({
    "packets": packets, "damages": st.lists(damage, min_size=1, max_size=3)}))
def damaged(case, ctx):
    """
    After files are damaged, swapped or lost, a reader gives back a packet that was written, has the hash and the name asked for, or
    fails; the files left alone read as before.
    """
    from ccnpy.flic.tree.TreeIO import TreeIO
    made = [make(p) for p in case["packets"]]
    n = len(made)
    with tempfile.TemporaryDirectory(prefix="c23-") as root:
        w = TreeIO.PacketDirectoryWriter(root, link_named_objects=True)
        links = {}
        for p, (pkt, wire) in zip(case["packets"], made):
            w.put(pkt)
            if p["name"] is not None:
                links[ref.name(name_plain(p["name"]))] = (p["name"], pkt, wire)
        hit, hit_links = set(), set()
        for op, i, k in case["damages"]:
            p, (pkt, wire) = case["packets"][i % n], made[i % n]
            other, (opkt, owire) = case["packets"][k % n], made[k % n]
            digest, odigest = ref.packet_hash(wire), ref.packet_hash(owire)
            path = os.path.join(root, digest.hex())
            link = name_obj(p["name"])
            lpath = None if link is None else os.path.join(root, TreeIO.get_link_name(link))
            if "link" in op:
                if lpath is None or not os.path.exists(lpath):
                    continue
                hit_links.add(ref.name(name_plain(p["name"])))
                if op == "delete link":
                    os.remove(lpath)
                elif op == "flip link":
                    with open(lpath, "rb") as f:
                        data = bytearray(f.read())
                    data[k % len(data)] ^= 1 << (k // len(data) % 8)
                    put(lpath, bytes(data))
                elif op == "link elsewhere":
                    # to a packet with another name, or none
                    nm = name_plain(p["name"])
                    put(lpath, ref.packet(ref.content_object(nm, payload_type=2, payload=ref.link_value(nm, None, (1, odigest)))))
                elif op == "link is packet":
                    put(lpath, owire)
                else:
                    q = [v for kk, v in sorted(links.items()) if kk != ref.name(name_plain(p["name"]))]
                    if q:
                        opath = os.path.join(root, TreeIO.get_link_name(name_obj(q[k % len(q)][0])))
                        if os.path.exists(opath):
                            put(lpath, open(opath, "rb").read())
                continue
            hit.add(digest)
            if op == "flip":
                data = bytearray(wire)
                data[k % len(data)] ^= 1 << (k // len(data) % 8)
                put(path, bytes(data))
            elif op == "truncate":
                put(path, wire[:k % len(wire)])
            elif op == "extend":
                put(path, wire + owire[:1 + k % len(owire)])
            elif op == "swap":
                put(path, owire)
                if odigest == digest:
                    hit.discard(digest)
            elif os.path.exists(path):
                os.remove(path)
        r = TreeIO.PacketDirectoryReader(root)
        for p, (pkt, wire) in zip(case["packets"], made):
            digest = ref.packet_hash(wire)
            nm = name_obj(p["name"])
            if digest not in hit:
                is_packet(r.get(nm, hv(digest)), pkt, wire, "packet whose file was left alone")
            else:
                careful(lambda: r.get(nm, hv(digest)), digest, p["name"], "reading a damaged file by hash")
        for key, (spec, pkt, wire) in links.items():
            digest = ref.packet_hash(wire)
            if key not in hit_links and digest not in hit:
                is_packet(r.get(name_obj(spec), None), pkt, wire, "packet whose link was left alone")
            else:
                careful(lambda: r.get(name_obj(spec), None), None, spec, "reading a damaged link or its packet",
                        {ref.packet_hash(x) for _, x in made}, digest if key not in hit_links else None)
    ctx.label(*[op for op, _, _ in case["damages"]])
    ctx.nontrivial(bool(hit or hit_links) and n >= 2)


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def careful(fn, digest, spec, what, allowed=None, linked=None):
    try:
        got = fn()
    except Exception:
        return
    w = b(got.serialize())
    if digest is not None:
        require_eq(ref.packet_hash(w), digest, "%s: hash of the packet" % what)
    if linked is not None:
        require_eq(ref.packet_hash(w), linked, "%s: hash of the packet of the link" % what)
    if allowed is not None:
        require(ref.packet_hash(w) in allowed, "%s: a packet that was not written", what)
    if spec is not None:
        require(got.body().name() is not None, "%s: a packet without a name", what)
        require_eq(b(got.body().name().serialize()), ref.name(name_plain(spec)), "%s: name of the packet" % what)


@law(LAWS, 2500, lambda tier: st.fixed_dictionaries({
    "packets": packets, "ops": ops, "late": st.booleans()}))
def memory(case, ctx):
    """The packets kept in memory: order, lookup, number, counters; of a writer, and of a reader made of a writer or of a list."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    made = [make(p) for p in case["packets"]]
    n = len(made)
    w, counters, order = TreeIO.PacketMemoryWriter(), Counters(), []
    early = TreeIO.PacketMemoryReader(w)
    twin = TreeIO.PacketMemoryWriter()
    for op, i, j in case["ops"]:
        p, (pkt, wire) = case["packets"][i % n], made[i % n]
        if op == "put":
            w.put(pkt)
            order.append(i % n)
            counters.put(wire, p["ptype"])
        elif op != "reopen":
            check_lookup(w, case, made, order, op, i % n, j)
    for i in order:
        twin.put(make(case["packets"][i])[0])
    counters.check(w)
    wires = [made[i][1] for i in order]
    require_eq(len(w), len({ref.packet_hash(x) for x in wires}), "number of different packets")
    readers = [w, TreeIO.PacketMemoryReader(w), TreeIO.PacketMemoryReader([made[i][0] for i in order])]
    if case["late"]:
        readers.append(early)
    for r in readers:
        require_eq([b(x.serialize()) for x in r], wires, "packets in order")
        require_eq([b(r[i].serialize()) for i in range(len(wires))], wires, "packets by index")
        for i in range(n):
            check_lookup(r, case, made, order, "hash", i, 0)
    # unequal packets or order: unequal writers (signatures may be random in time, so those without a time only)
    if all(p["sig"] is None for p in case["packets"]):
        require(w == twin, "two writers of the same packets are not equal")
    ctx.nontrivial(len(set(order)) < len(order) and len(set(order)) >= 2)


def check_lookup(r, case, made, order, op, i, j):
    p, (pkt, wire) = case["packets"][i], made[i]
    digest = ref.packet_hash(wire)
    nm = name_obj(p["name"])
    present = digest in {ref.packet_hash(made[k][1]) for k in order}
    if op in ("hash", "link"):
        if present:
            is_packet(r.get(nm, hv(digest)), pkt, wire, "packet read from memory")
        else:
            must_raise(Exception, lambda: r.get(nm, hv(digest)), "reading a packet that was not written")
    elif op == "wrong hash":
        must_raise(Exception, lambda: r.get(nm, hv(bytes([digest[0] ^ 1]) + digest[1:])), "reading a hash that was not written")
    elif not present or p["name"] is not None:
        must_raise(Exception, lambda: r.get(name_obj(OTHER if op == "wrong name" else None), hv(digest)), "reading a packet with another name")
