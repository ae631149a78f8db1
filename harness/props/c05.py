"""C05: any bytes are either parsed faithfully or rejected cleanly."""
from hypothesis import strategies as st

from vh import flic_model as fm
from vh import guided, keys, mutate, ref, structure
from vh.core_model import A, b, content_plain, content_spec, link_spec, link_plain, name_plain, name_spec
from vh.engine import Violation, law, require, require_eq
from props.c03 import packet_strategy, val_plain

PROPERTY = "C05"
RULE = ("Cases are byte strings: valid encodings with 0 to 4 mutations (bit flips, cuts, drops, duplications, insertions, "
        "swaps), trees of TLVs built from the format's own type numbers, and arbitrary bytes.  Non-trivial = the input differs "
        "from every valid encoding it was made from and is at least 4 bytes long; distinct by the bytes given to the parser.")
ASSUMPTIONS = ["A clean rejection is a RuntimeError (the parse errors), ValueError, TypeError, AssertionError or ArithmeticError; "
               "the code documents no narrower set."]
LAWS = []

CLEAN = (RuntimeError, ValueError, TypeError, AssertionError, ArithmeticError)


def attempt(fn, what):
    """The parsed object, or None if cleanly rejected."""
    try:
        return fn()
    except RecursionError:
        raise
    except NotImplementedError:
        raise
    except CLEAN:
        return None


# ------------------------------------------------------------------------------------------------ oracles

def decode_content(value):
    """Strict reference decoding of a content object's value.  Raises Malformed."""
    out = {}
    for t, v in ref.tlvs(value):
        if t not in (ref.T_NAME, ref.T_EXPIRY, ref.T_PAYLDTYPE, ref.T_PAYLOAD, ref.T_FINALCHUNK):
            raise ref.Malformed("unknown field")
        if t in out:
            raise ref.Malformed("repeated field")
        out[t] = ref.tlvs(v) if t == ref.T_NAME else v
    return out


def number(v):
    return int.from_bytes(v, "big")


def check_accepted_packet(buf, p):
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tlvs.Manifest import Manifest
    try:
        top = ref.tlvs(buf[buf[7]:])
    except ref.Malformed as e:
        raise Violation("a packet that is not a sequence of TLVs (%s) was accepted" % e)
    require_eq(buf[0], 1, "version of an accepted packet")
    bodies = [v for t, v in top if t == ref.T_OBJECT]
    require(all(t in (ref.T_OBJECT, ref.T_VALALG, ref.T_VALPAYLOAD) for t, _ in top), "unknown top-level TLV accepted")
    require_eq(len(bodies), 1, "number of bodies in an accepted packet")
    try:
        fields = decode_content(bodies[0])
    except ref.Malformed as e:
        raise Violation("a content object was accepted although it has a malformed, unknown or repeated field: %s" % e)
    co = p.body()
    require_eq(None if co.name() is None else [(c.type(), b(c.value())) for c in
                                               [co.name().component(i) for i in range(co.name().count())]],
               fields.get(ref.T_NAME), "name of an accepted packet")
    require_eq(None if co.payload() is None else b(co.payload().value()), fields.get(ref.T_PAYLOAD), "payload")
    require_eq(co.is_manifest(), ref.T_PAYLDTYPE in fields and number(fields[ref.T_PAYLDTYPE]) == 3, "is manifest")
    require_eq(co.expiry_time() is None, ref.T_EXPIRY not in fields, "has expiry time")
    if ref.T_EXPIRY in fields and number(fields[ref.T_EXPIRY]) < 1 << 48:
        require_eq(co.expiry_time().milliseconds(), number(fields[ref.T_EXPIRY]), "expiry time")
    if ref.T_FINALCHUNK in fields and number(fields[ref.T_FINALCHUNK]) < 1 << 64:
        require_eq(b(co.final_chunk_id().serialize())[4:], ref.varint(number(fields[ref.T_FINALCHUNK])), "final chunk id")
    vals = [v for t, v in top if t == ref.T_VALPAYLOAD]
    require_eq(None if p.validation_payload() is None else b(p.validation_payload().payload()), vals[0] if vals else None,
               "validation payload")
    require_eq(p.validation_alg() is None, not any(t == ref.T_VALALG for t, _ in top), "has validation algorithm")
    require_eq((str(p), repr(p)), (str(p), repr(p)), "printed")
    if co.is_manifest():
        m = attempt(lambda: Manifest.from_content_object(co), "manifest")
        if m is not None:
            require(ref.T_PAYLOAD in fields, "a manifest without payload was accepted")
            check_accepted_manifest(fields[ref.T_PAYLOAD], m)
    # what was understood is stable (times are kept as floating point seconds, exact up to 2^48 milliseconds)
    if p.header().header_length() == 8 and number(fields.get(ref.T_EXPIRY, b"")) < 1 << 48 and exact_sigtime(top):
        wire = b(p.serialize())
        again = Packet.deserialize(A(wire))
        require_eq(b(again.serialize()), wire, "second encoding")
        require_eq(b(again.content_object_hash().value()), b(p.content_object_hash().value()), "content object hash")
    require_eq(b(p.content_object_hash().value()),
               __import__("hashlib").sha256(b(co.serialize()) +
                                            (b"" if p.validation_alg() is None else b(p.validation_alg().serialize())) +
                                            (b"" if p.validation_payload() is None else b(p.validation_payload().serialize()))
                                            ).digest(), "content object hash of what was understood")


def exact_sigtime(top):
    for t, v in top:
        if t == ref.T_VALALG:
            # (the library reads the first TLV of the algorithm)
            for tt, vv in [(number(v[:2]), v[4:4 + number(v[2:4])])]:
                for ttt, vvv in (ref.tlvs(vv) if tt == ref.T_RSASHA256 else []):
                    if ttt == ref.T_SIGTIME and number(vvv) >= 1 << 48:
                        return False
    return True


def node_pointers(value):
    """Reference decoding of a node's pointers, in order.  Raises Malformed."""
    out = []
    for t, v in ref.tlvs(value):
        if t == fm.HASH_GROUP:
            for tt, vv in ref.tlvs(v):
                if tt == fm.PTRS:
                    out += ref.tlvs(vv)
    return out


def check_accepted_manifest(buf, m):
    from ccnpy.flic.tlvs.Manifest import Manifest
    try:
        top = ref.tlvs(buf)
    except ref.Malformed as e:
        raise Violation("a manifest that is not a sequence of TLVs (%s) was accepted" % e)
    nodes = [(t, v) for t, v in top if t in (fm.NODE, fm.ENCRYPTED_NODE)]
    require(all(t <= 3 for t, _ in top), "unknown top-level manifest TLV accepted")
    require_eq(len(nodes), 1, "number of nodes in an accepted manifest")
    t, v = nodes[0]
    require_eq(m.is_encrypted(), t == fm.ENCRYPTED_NODE, "is encrypted")
    if t == fm.ENCRYPTED_NODE:
        require_eq(m.node().value_bytes(), v, "encrypted node")
    else:
        try:
            want = node_pointers(v)
        except ref.Malformed as e:
            raise Violation("a node with malformed contents was accepted: %s" % e)
        got = []
        for g in m.node().hash_groups():
            if g.pointers() is not None:
                got += [(h.hash_algorithm(), b(h.value())) for h in g.pointers()]
        require_eq(got, want, "pointers of an accepted manifest")
    require_eq((str(m), repr(m)), (str(m), repr(m)), "printed")
    wire = b(m.serialize())
    again = Manifest.deserialize(A(wire))
    require_eq(b(again.serialize()), wire, "second encoding")
    require(again == m or t == fm.NODE, "second parse differs")


# ------------------------------------------------------------------------------------------------ laws

mutations = st.lists(mutate.mutation, max_size=4)


def packet_bytes_strategy(tier):
    return st.one_of(
        st.fixed_dictionaries({"src": packet_strategy(tier), "muts": mutations}),
        st.fixed_dictionaries({"manifest": fm.manifest_spec, "muts": mutations}),
        st.fixed_dictionaries({"soup": mutate.soup, "hdr": st.booleans(), "muts": st.lists(mutate.mutation, max_size=1)}),
        st.fixed_dictionaries({"raw": st.binary(max_size=60)}),
    )


def packet_bytes(case):
    if "src" in case:
        v = case["src"]["val"]
        co = content_plain(case["src"]["co"])
        base = ref.packet(co) if v is None else ref.packet(co, val_plain(v), v["payload"])
    elif "manifest" in case:
        base = ref.packet(ref.content_object(payload_type=3, payload=fm.manifest_plain(case["manifest"])))
    elif "soup" in case:
        s = mutate.soup_bytes(case["soup"])
        base = ref.packet(ref.tlv(ref.T_OBJECT, s)) if case["hdr"] else ref.packet(s)
    else:
        return None, case["raw"]
    return base, mutate.apply(base, case["muts"])


def interest(buf):
    try:
        return len(buf) >= 8 and any(t == 1 for t, _ in ref.tlvs(buf[buf[7]:]))
    except ref.Malformed:
        return False


@law(LAWS, 3200, packet_bytes_strategy)
def packets(case, ctx):
    """Bytes given to the packet parser are rejected cleanly, or the packet says what the bytes say and encodes stably."""
    from ccnpy.core.Packet import Packet
    base, buf = packet_bytes(case)
    ctx.nontrivial(buf != base and len(buf) >= 4)
    p = attempt(lambda: Packet.deserialize(A(buf)), "packet")
    if interest(buf):
        ctx.exclude("Interest parsing is not implemented")
        return
    ctx.label("unmutated" if buf == base else "mutated", "accepted" if p is not None else "rejected")
    if buf == base and ("src" in case or "manifest" in case):
        require(p is not None, "a valid packet was rejected")
    if p is not None:
        check_accepted_packet(buf, p)


def manifest_bytes_strategy(tier):
    return st.one_of(
        st.fixed_dictionaries({"src": fm.manifest_spec, "muts": mutations}),
        st.fixed_dictionaries({"src": fm.manifest_spec, "muts": mutations}),
        st.fixed_dictionaries({"soup": mutate.soup, "wrap": st.sampled_from([None, "node", "sec", "data"]),
                               "muts": st.lists(mutate.mutation, max_size=1)}),
        st.fixed_dictionaries({"raw": st.binary(max_size=60)}),
    )


@law(LAWS, 3200, manifest_bytes_strategy)
def manifests(case, ctx):
    """Bytes given to the manifest parser are rejected cleanly, or the manifest says what the bytes say and encodes stably."""
    from ccnpy.flic.tlvs.Manifest import Manifest
    base = None
    if "src" in case:
        base = fm.manifest_plain(case["src"])
        buf = mutate.apply(base, case["muts"])
    elif "soup" in case:
        s = mutate.soup_bytes(case["soup"])
        g = fm.hash_group_plain({"data": None, "ptrs": [[1, b"\1" * 32]]})
        if case["wrap"] == "node":
            s = ref.tlv(fm.NODE, s + g)
        elif case["wrap"] == "data":
            s = ref.tlv(fm.NODE, ref.tlv(fm.NODE_DATA, s) + g)
        elif case["wrap"] == "sec":
            s = ref.tlv(fm.SECURITY_CTX, s) + ref.tlv(fm.NODE, g)
        buf = mutate.apply(s, case["muts"])
    else:
        buf = case["raw"]
    ctx.nontrivial(buf != base and len(buf) >= 4)
    m = attempt(lambda: Manifest.deserialize(A(buf)), "manifest")
    ctx.label("unmutated" if buf == base else "mutated", "accepted" if m is not None else "rejected")
    if buf == base:
        require(m is not None, "a valid manifest was rejected")
    if m is not None:
        check_accepted_manifest(buf, m)


def structure_strategy(tier):
    changes = st.lists(structure.change, min_size=1, max_size=3)
    return st.one_of(
        st.fixed_dictionaries({"manifest": fm.manifest_spec, "changes": changes}), st.fixed_dictionaries({"manifest": fm.manifest_spec, "changes": changes}),
        st.fixed_dictionaries({"node": fm.node_spec, "changes": changes}), st.fixed_dictionaries({"packet": packet_strategy(tier), "changes": changes}))


def check_manifest_bytes(buf, ctx):
    """The manifest, or None if it was rejected."""
    from ccnpy.flic.tlvs.Manifest import Manifest
    got = attempt(lambda: Manifest.deserialize(A(buf)), "manifest")
    if got is not None:
        check_accepted_manifest(buf, got)
        try:
            want = structure.manifest(buf)
        except ref.Malformed as e:
            raise Violation("a manifest with contents that say too little or too much was accepted: %s" % e)
        except structure.Unclear:
            ctx.label("more than one reading")
        else:
            require_eq(b(got.serialize()), want, "what was understood of a manifest")
    return got


@law(LAWS, 3200, structure_strategy)
def structures(case, ctx):
    """
    The same when fields of an encoding are repeated, moved, left out, changed or put elsewhere, all lengths being right; a manifest that
    is accepted encodes to the canonical encoding of all the bytes say.
    """
    from ccnpy.core.Packet import Packet
    if "packet" in case:
        v = case["packet"]["val"]
        base = content_plain(case["packet"]["co"]) if v is None else content_plain(case["packet"]["co"]) + val_plain(v) + ref.tlv(
            ref.T_VALPAYLOAD, v["payload"])
        kind = "packet"
    else:
        base = fm.manifest_plain(case["manifest"]) if "manifest" in case else fm.node_plain(case["node"])
        kind = "manifest"
    tree = structure.parse(base, kind)
    structure.apply(tree, case["changes"])
    try:
        new = structure.encode(tree)
    except OverflowError:
        ctx.exclude("too large")
        return
    ctx.nontrivial(new != base)
    if kind == "packet":
        if any(t == 1 for t, _ in tree) or len(new) > 65000:
            ctx.exclude("Interest parsing is not implemented, or too large")
            return
        buf = ref.packet(new)
        got = attempt(lambda: Packet.deserialize(A(buf)), "packet")
        if got is not None:
            check_accepted_packet(buf, got)
    else:
        got = check_manifest_bytes(new, ctx)
    require(got is not None or new != base, "a valid %s was rejected", kind)
    ctx.label(kind, "accepted" if got is not None else "rejected", *["%s %s" % (c[0], "accepted" if got is not None else "rejected") for c in case["changes"]
                                                                    if len(case["changes"]) == 1])


def part_strategy(tier):
    return st.fixed_dictionaries({
        "what": st.sampled_from(["tlv", "header", "name", "link", "hash"]),
        "name": name_spec, "link": link_spec, "muts": mutations, "raw": st.one_of(st.none(), st.none(), st.binary(max_size=30)),
        "again": st.none() | st.integers(0, 8)})


@law(LAWS, 1600, part_strategy)
def parts(case, ctx):
    """The same for single TLVs, fixed headers, names, links and hash values."""
    from ccnpy.core.FixedHeader import FixedHeader
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Link import Link
    from ccnpy.core.Name import Name
    from ccnpy.core.Tlv import Tlv
    what = case["what"]
    if case["raw"] is not None:
        buf = case["raw"]
    else:
        base = {"tlv": lambda: ref.name(name_plain(case["name"])), "header": lambda: ref.packet(ref.name(name_plain(case["name"])))[:8],
                "name": lambda: ref.name(name_plain(case["name"])), "link": lambda: link_plain(case["link"]),
                "hash": lambda: ref.tlv(1, b"\x55" * 32)}[what]()
        if what == "link" and case["again"] is not None and base:
            # one of the fields a second time, after the others
            fields = ref.tlvs(base)
            base += ref.tlv(*fields[case["again"] % len(fields)])
        buf = mutate.apply(base, case["muts"])
    ctx.nontrivial(len(buf) >= 4)
    try:
        well_formed = ref.tlvs(buf)
    except ref.Malformed:
        well_formed = None
    first = None
    if len(buf) >= 4 and len(buf) - 4 >= number(buf[2:4]):
        first = (number(buf[:2]), buf[4:4 + number(buf[2:4])])
    if what == "tlv":
        got = attempt(lambda: Tlv.deserialize(A(buf)), what)
        ctx.label(what, "accepted" if got is not None else "rejected")
        require_eq(got is not None, first is not None, "acceptance of a TLV")
        if got is not None:
            require_eq((got.type(), b(got.value())), first, "TLV")
    elif what == "hash":
        got = attempt(lambda: HashValue.deserialize(A(buf)), what)
        ctx.label(what, "accepted" if got is not None else "rejected")
        require_eq(got is not None, first is not None, "acceptance of a hash value")
        if got is not None:
            require_eq((got.hash_algorithm(), b(got.value())), first, "hash value")
    elif what == "header":
        got = attempt(lambda: FixedHeader.deserialize(A(buf)), what)
        ok = len(buf) >= 8 and buf[0] == 1 and number(buf[2:4]) >= 8 and buf[7] >= 8
        ctx.label(what, "accepted" if got is not None else "rejected")
        require_eq(got is not None, ok, "acceptance of a fixed header")
        if ok:
            require_eq(b(got.serialize()), buf[:8], "fixed header")
    elif what == "name":
        got = attempt(lambda: Name.parse(Tlv.deserialize(A(buf))), what)
        ctx.label(what, "accepted" if got is not None else "rejected")
        comps = None
        if first is not None and first[0] == ref.T_NAME:
            try:
                comps = ref.tlvs(first[1])
            except ref.Malformed:
                pass
        require_eq(got is not None, comps is not None, "acceptance of a name")
        if got is not None:
            require_eq([(got.component(i).type(), b(got.component(i).value())) for i in range(got.count())], comps, "name")
    else:
        got = attempt(lambda: Link.deserialize(A(buf)), what)
        ctx.label(what, "accepted" if got is not None else "rejected")
        if got is not None:
            require(well_formed is not None, "a link that is not a sequence of TLVs was accepted")
            seen = dict(well_formed)
            require(len(seen) == len(well_formed) and set(seen) <= {0, 2, 3}, "unknown or repeated field accepted in a link")
            require_eq((got.name() is not None, got.keyid() is not None, got.digest() is not None),
                       (0 in seen, 2 in seen, 3 in seen), "fields of a link")
            if 0 in seen:
                require_eq(b(got.name().serialize()), ref.tlv(0, seen[0]), "link name")
            for t, v in ((2, got.keyid()), (3, got.digest())):
                if v is not None:
                    first = seen[t][:4 + number(seen[t][2:4])]
                    require_eq(b(v.serialize()), first, "hash value of a link")
            require_eq(b(Link.deserialize(got.serialize()).serialize()), b(got.serialize()), "second encoding")


# ------------------------------------------------------------------------------------------------ coverage-guided

def guided_imports():
    """What is imported, to be instrumented."""
    import ccnpy.core.Packet
    import ccnpy.flic.tlvs.Manifest
    import ccnpy.flic.tlvs.NcDef


def examples(tier, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    out = []

    def keep(pair):
        for kind, case in zip((1, 2), pair):
            if "src" in case or "manifest" in case:
                base = packet_bytes(case)[0][8:] if kind == 1 else fm.manifest_plain(case["src"])
                if len(base) < 800:
                    out.append(bytes([kind]) + base)
    hypothesis.seed(seed)(settings(max_examples=60, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))(
        given(st.tuples(packet_bytes_strategy(tier), manifest_bytes_strategy(tier)))(keep)))()
    return out


def explored(tier, seed, shard):
    for data in guided.explore("props.c05", "guided_bytes", examples(tier, seed), 60000 if tier == "quick" else 1500000, seed):
        yield {"bytes": data}


def shrink_bytes(case, fails):
    guided.shrink(case["bytes"], lambda x: fails({"bytes": x}))


@law(LAWS, 0, lambda tier: st.fixed_dictionaries({"bytes": st.binary(max_size=100)}), explore=explored, shrink=shrink_bytes)
def guided_bytes(case, ctx):
    """
    The same for byte strings found by coverage-guided search (libFuzzer on the instrumented parsers, from valid encodings), all of which
    are held to the same oracles; the inputs that reached new code are the cases counted.
    """
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tlvs.Manifest import Manifest
    data = case["bytes"]
    if len(data) < 2 or len(data) > 60000:
        return
    kind, buf = data[0] % 3, data[1:]
    ctx.nontrivial(len(buf) >= 4)
    if kind == 2:
        got = check_manifest_bytes(buf, ctx)
        ctx.label("manifest", "accepted" if got is not None else "rejected")
        return
    if kind == 1:
        buf = ref.packet(buf)
    if interest(buf):
        ctx.exclude("Interest parsing is not implemented")
        return
    p = attempt(lambda: Packet.deserialize(A(buf)), "packet")
    ctx.label("packet", "accepted" if p is not None else "rejected")
    if p is not None:
        check_accepted_packet(buf, p)
