"""C26: the command line programs, end to end."""
import contextlib
import datetime
import hashlib
import io
import logging
import os
import re
import socket
import sys
import tempfile

from hypothesis import strategies as st

from props import c10
from vh import flic_model as fm
from vh import keys, ref
from vh import tree_model as tm
from vh.core_model import name_plain, time_zone, zone_names
from vh.engine import law, require, require_eq

PROPERTY = "C26"
RULE = ("Cases are command lines for the writer, the readers' keys and one thing that goes wrong; non-trivial = at least two levels of manifests "
        "below the root and either encryption or a signature; distinct by the case.")
ASSUMPTIONS = ["Programs run in the check's process, with their arguments in sys.argv and their files in a scratch directory.",
               "A wrapped key given with --enc-key needs a --salt (the writer fails without one); a wrapped key has no KDF salt.",
               "--schema Prefix with prefixes is refused by the writer, as its help says.", "Name segments in URIs are letters and digits."]
LAWS = []

UTC = datetime.timezone.utc
seg = st.text(alphabet="abcxyzABC0189.-_", min_size=1, max_size=8).filter(lambda s: s not in (".", ".."))
uri = st.lists(seg.map(lambda s: ["n", s.encode()]), min_size=1, max_size=3)
when = st.none() | st.tuples(st.one_of(st.integers(1_500_000_000_000, 1_900_000_000_000), st.integers(86_400_000, 250_000_000_000_000)),
                             st.sampled_from([0, 0, 60, 330, -480, -1, "local", "Z"])).map(list)
password = st.sampled_from(["", "", "pw", "pass word", "pässword"])
aead = st.fixed_dictionaries({
    "kind": st.just("aead"), "mode": st.sampled_from(["GCM", "CCM"]), "bits": st.sampled_from([128, 256]), "key": st.integers(0, 1 << 20),
    "num": st.none() | st.integers(0, 300) | st.integers(0, (1 << 64) - 1), "salt": st.none() | st.integers(0, 0xFFFFFFFF),
    "kdf": st.none() | st.fixed_dictionaries({"alg": st.integers(1, 3), "info": st.none() | st.binary(max_size=8) | st.text(
        alphabet="abc /é", min_size=1, max_size=6).filter(lambda s: not s.startswith("-")), "uuid": st.booleans()}),
    "kdf_salt": st.none() | st.integers(0, 0xFFFFFFFF)})
# none of them is a signing key: a reader may be given one and not the other
oaep = st.fixed_dictionaries({"kind": st.just("oaep"), "rsa": st.sampled_from(["rsa1024a", "rsa1025a", "rsa2048b"]), "pass": password,
                              "content": st.sampled_from(["new", "given", "given"]), "aead": aead, "give": st.sampled_from(["wrapped", "key", "both"])})
TROUBLE = ["none", "none", "none", "hash", "name", "lost", "changed", "swapped", "no key", "wrong key", "wrong salt", "lost data", "changed data", "truncated"]


def widen(t):
    """Some of the trees are wide: many pointers in large packets."""
    c, wide, degree, chunks, spare = t
    if wide:
        c = dict(c, degree=degree, slack=degree * 36 + 40 + spare, chunks=max(1, degree * chunks // 4))
    return dict(c, wide=bool(wide))


def strategy(tier):
    return st.tuples(cases(tier), st.sampled_from([0] * 14 + [1]), st.integers(50, 180), st.integers(1, 11), st.integers(0, 300)).map(widen)


def cases(tier):
    return st.fixed_dictionaries({
        "schema": st.sampled_from(["hashed", "prefix", "segmented"]), "case": st.booleans(), "name": uri, "mprefix": uri, "dprefix": uri,
        "mloc": st.none() | uri, "dloc": st.none() | uri, "slack": st.one_of(st.integers(0, 60), st.integers(0, 400), st.none()),
        "degree": st.none() | st.integers(3, 12), "chunks": st.integers(1, 40 if tier == "quick" else 200) | st.integers(15, 40), "jitter": st.integers(-40, 40),
        "data": st.tuples(st.sampled_from(["shake", "shake", "shake", "zeros", "periodic"]), st.integers(0, 1 << 24)).map(list),
        "root": when, "node": when, "dat": when, "enc": st.one_of(st.none(), aead, aead, oaep),
        "signer": st.sampled_from([None, "rsa1024b", "rsa1024b", "rsa2048a"]), "pass": password, "link": st.sampled_from([True, True, False]), "by": st.sampled_from(["hash", "hash 0x", "link", "link"]),
        "verify": st.sampled_from(["public", "private"] * 3 + ["none"]), "hex": st.booleans(), "trouble": st.sampled_from(TROUBLE), "which": st.integers(0, 1 << 20),
        "pretty": st.booleans(), "zone": zone_names})


def text_of(spec):
    return "ccnx:/" + "/".join(v.decode() for _, v in spec)


def iso(w):
    ms, offset = w
    if offset == "local":
        local = datetime.datetime.fromtimestamp(ms // 1000)
        if local.fold == 0:        # else the text would stand for the hour before
            return local.replace(microsecond=ms % 1000 * 1000).isoformat()
    t = datetime.datetime(1970, 1, 1, tzinfo=UTC) + datetime.timedelta(milliseconds=ms)
    if offset in ("Z", "local"):
        return t.isoformat().replace("+00:00", "Z")
    return t.astimezone(datetime.timezone(datetime.timedelta(minutes=offset))).isoformat()


def tree_spec(c):
    """The command line as a tree spec."""
    e = c["enc"]
    enc = None
    if e is not None:
        a = e if e["kind"] == "aead" else e["aead"]
        enc = dict(a, kind=e["kind"])
        if a["num"] is None:
            enc["num"] = int.from_bytes(hashlib.sha256(tm.aes_key(a)).digest()[:8], "big")
        if a["kdf"] is None:
            enc["kdf_salt"] = a["kdf_salt"]
        if e["kind"] == "oaep":
            enc["kdf_salt"] = None
            enc["rsa"], enc["give"] = e["rsa"], e["give"]
            if enc["salt"] is None:
                enc["salt"] = 7
            if e["content"] == "new":
                enc.update(mode="GCM", bits=256)
                if enc["give"] != "wrapped":
                    enc["give"] = "wrapped"
        k = a["kdf"]
        if k is not None:
            info = k["info"].encode() if isinstance(k["info"], str) else k["info"]
            enc["kdf"] = {"alg": k["alg"], "info": b"u" * 16 if k["uuid"] else info}
    s = {"schema": c["schema"], "name": c["name"], "mprefix": None, "dprefix": None, "mloc": None, "dloc": None, "same_loc": False,
         "slack": c["slack"], "degree": c["degree"], "chunks": c["chunks"], "jitter": c["jitter"], "data": c["data"],
         "node_size": True, "group_size": False, "leaf_size": False, "root_ms": c["root"] and c["root"][0],
         "manifest_ms": c["node"] and c["node"][0], "data_ms": c["dat"] and c["dat"][0], "enc": enc, "signer": c["signer"], "nc_start": 1}
    if c["schema"] == "segmented":
        s["mprefix"], s["dprefix"] = c["mprefix"], c["dprefix"]
        s = tm.fix(s)
    if c["schema"] == "hashed":
        for k in ("mloc", "dloc"):
            s[k] = c[k] and [{"name": c[k], "keyid": None, "digest": None}]
    if s["slack"] is None:
        # the default of the writer
        s["slack"] = 1500 - tm.sufficient_size(s)
        if s["slack"] < 0:
            s["slack"] = 0
    return s


class Files:
    def __init__(self, root):
        self.root = root
        self.data = os.path.join(root, "data")
        self.packets = os.path.join(root, "packets")
        self.output = os.path.join(root, "output")
        os.mkdir(self.packets)

    def key(self, name, password=None, public=False):
        from cryptography.hazmat.primitives import serialization as ser
        path = os.path.join(self.root, "%s%s.%s" % (name, (password or "").encode().hex(), "pub" if public else "pem"))
        if not os.path.exists(path):
            if public:
                data = keys.public_pem(name)
            elif password:
                data = keys.crypto_key(name).private_bytes(ser.Encoding.PEM, ser.PrivateFormat.TraditionalOpenSSL,
                                                           ser.BestAvailableEncryption(password.encode("utf-8")))
            else:
                data = keys.pem(name)
            with open(path, "wb") as f:
                f.write(data)
        return path


def program(module, argv):
    """Runs the main program of a module.  (failure, standard output)"""
    import importlib
    import getpass
    m = importlib.import_module("ccnpy.apps." + module)
    log = logging.getLogger()
    if not log.handlers:
        log.addHandler(logging.NullHandler())
    out, err = io.StringIO(), io.StringIO()
    old, old_pass = sys.argv, getpass.getpass
    sys.argv = [module] + argv
    getpass.getpass = lambda *a, **k: ""
    failure = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            m.run()
    except SystemExit as e:
        if e.code not in (0, None):
            failure = "exit %s: %s" % (e.code, err.getvalue()[-300:])
    except Exception as e:
        failure = e
    finally:
        sys.argv, getpass.getpass = old, old_pass
    return failure, out.getvalue()


def number(n, hexa):
    return hex(n) if hexa else str(n)


def enc_args(c, s, files, give=("wrapped", "key"), reader=False, key_change=0, salt_change=0):
    e = c["enc"]
    out = []
    if e is None:
        return out
    a = s["enc"]
    if e["kind"] == "oaep" and "wrapped" in give:
        out += ["--wrap-key", files.key(e["rsa"], e["pass"]), "--wrap-pass", e["pass"]]
    raw = e if e["kind"] == "aead" else e["aead"]
    if "key" in give and not (e["kind"] == "oaep" and e["content"] == "new"):
        key = bytearray(tm.aes_key(a))
        key[0] ^= key_change
        out += ["--enc-key", ("0x" if c["hex"] else "") + bytes(key).hex()]
        if c["case"]:
            out += ["--aes-mode", a["mode"].lower() if c["hex"] else a["mode"]]
        elif a["mode"] != "GCM":
            out += ["--aes-mode", a["mode"]]
        if raw["num"] is not None:
            out += ["--key-num", str(raw["num"])]
        elif key_change:
            # the default number would be that of the other key
            out += ["--key-num", str(a["num"])]
        if a["salt"] is not None:
            out += ["--salt", number(a["salt"] ^ salt_change, c["hex"])]
        if a["kdf_salt"] is not None:
            out += ["--kdf-salt", number(a["kdf_salt"], not c["hex"])]
    if raw["kdf"] is not None and (not reader or c["case"]):
        k = raw["kdf"]
        out += ["--kdf", "HKDF-SHA%d" % {1: 256, 2: 384, 3: 512}[k["alg"]]]
        given = [["--kdf-uuid"]] if k["uuid"] else []
        if k["info"] is not None:
            # a UUID takes the place of the information also given
            given.append(["--kdf-info", k["info"] if isinstance(k["info"], str) else "0x" + k["info"].hex()])
        for g in (given if c["hex"] else given[::-1]):
            out += g
    return out


def writer_args(c, s, files):
    out = ["--name", text_of(c["name"]), "-o", files.packets]
    if c["schema"] != "hashed" or c["case"]:
        out += ["--schema", c["schema"].capitalize()]
    if c["schema"] == "segmented":
        out += ["--manifest-prefix", text_of(s["mprefix"]), "--data-prefix", text_of(s["dprefix"])]
    if c["schema"] == "hashed":
        for k, o in (("mloc", "--manifest-locator"), ("dloc", "--data-locator")):
            if c[k] is not None:
                out += [o, text_of(c[k])]
    if tm.packet_size(s) != 1500 or c["slack"] is not None:
        out += ["-s", str(tm.packet_size(s))]
    if c["degree"] is not None:
        out += ["-d", str(c["degree"])]
    for k, o in (("root", "--root-expiry"), ("node", "--node-expiry"), ("dat", "--data-expiry")):
        if c[k] is not None:
            out += [o, iso(c[k])]
    if c["signer"] is not None:
        out += ["-k", files.key(c["signer"], c["pass"])]
    out += ["-p", c["pass"]]
    if c["link"]:
        out += ["--link"]
    return out + enc_args(c, s, files) + [files.data]


def verify_args(c, files):
    if c["signer"] is None or c["verify"] == "none":
        return []
    if c["verify"] == "public":
        return ["-k", files.key(c["signer"], public=True)]
    return ["-k", files.key(c["signer"], c["pass"]), "-p", c["pass"]]


def unwrap(c, s, root_wire):
    """With a new content key, all of the encryption has to be found out from the root manifest."""
    p = tm.parse_packet(root_wire)
    sec = [v for t, v in ref.tlvs(p["payload"]) if t == fm.SECURITY_CTX]
    require_eq(len(sec), 1, "security contexts of the root manifest")
    kind, aead_data, wrapper = tm.parse_security(sec[0])
    require(wrapper is not None, "the root manifest has no wrapped key")
    e = s["enc"]
    e["num"] = aead_data["num"]
    if e["kdf"] is not None:
        e["kdf"] = {"alg": aead_data["kdf"][0], "info": aead_data["kdf"][1]}
    salt_key = c10.ref_unwrap(e, wrapper["wrapped"])
    if c["enc"]["content"] == "given":
        require_eq(salt_key, c10.secret(e), "salt and key wrapped")
        return
    e["salt"], e["raw"] = int.from_bytes(salt_key[:4], "big"), salt_key[4:]
    require_eq(len(e["raw"]), 32, "length of a new key")


def check_tree(c, s, files, root_hash, ctx):
    wires, links = {}, {}
    for f in os.listdir(files.packets):
        with open(os.path.join(files.packets, f), "rb") as fh:
            w = fh.read()
        if re.fullmatch("[0-9a-f]{64}", f):
            require_eq(ref.packet_hash(w).hex(), f, "hash of the packet in a file")
            wires[ref.packet_hash(w)] = w
        else:
            p = tm.parse_packet(w)
            require_eq(p["ptype"], 2, "payload type of a link file")
            links[ref.name(p["name"])] = p["payload"]
    root = wires.get(root_hash)
    require(root is not None, "no file for the root manifest")
    if s["enc"] is not None and s["enc"]["kind"] == "oaep":
        unwrap(c, s, root)
    visits = tm.walk(s, wires.values(), root)
    require_eq({v.digest for v in visits}, set(wires), "packets in the directory")
    top = visits[0].packet
    require_eq(top["name"], name_plain(c["name"]), "name of the root manifest")
    require_eq(tm.walked_data(visits), tm.data_bytes(s), "data in the packets")
    for v in visits:
        what = ("root manifest" if v.depth == 0 else "manifest") if v.is_manifest else "data packet"
        require_eq(v.packet["expiry"], s["root_ms"] if v.depth == 0 else s["manifest_ms"] if v.is_manifest else s["data_ms"], "expiry time of a " + what)
        require_eq(v.packet["val"], [3, 4] if v.depth == 0 and c["signer"] else [], "validation of a " + what)
        if v.depth > 0:
            require(len(v.packet["wire"]) <= tm.packet_size(s), "a %s of %d bytes, the limit is %d", what, len(v.packet["wire"]), tm.packet_size(s))
            want = None if c["schema"] == "hashed" else v.name
            require_eq(v.packet["name"], want, "name of a " + what)
            if v.name is not None:
                prefix = name_plain(tm.mprefix(s) if v.is_manifest else tm.dprefix(s))
                require_eq(v.name[:len(prefix)], prefix, "prefix of the name of a " + what)
        if v.is_manifest:
            require_eq(v.packet["node"]["size"], v.size, "node subtree size")
            if c["degree"] is not None:
                require(sum(len(g["ptrs"]) for g in v.packet["node"]["groups"]) <= c["degree"], "a manifest wider than the degree")
            if s["enc"] is not None:
                kind, a, wrapper = v.packet["sec"]
                e = s["enc"]
                require_eq((a["num"], a["mode"]), (e["num"], tm.mode_number(e)), "key number and mode")
                if e["kdf"] is None:
                    require_eq(a["kdf"], None, "KDF")
                else:
                    require_eq(a["kdf"][0], e["kdf"]["alg"], "KDF")
                    raw = (c["enc"] if e["kind"] == "aead" else c["enc"]["aead"])["kdf"]
                    if raw["uuid"]:
                        require_eq(len(a["kdf"][1] or b""), 16, "length of the KDF info")
                    else:
                        require_eq(a["kdf"][1], e["kdf"]["info"], "KDF info")
                require_eq(wrapper is not None, e["kind"] == "oaep" and v.depth == 0, "wrapped key in a " + what)
    if c["schema"] == "hashed":
        locators = [d["locators"] for d in top["node"]["ncdefs"]]
        asked = [fm.locators_plain(x) for x in (tm.mloc(s), tm.dloc(s))]
        require_eq({bytes(x) for x in locators}, {ref.tlvs(x)[0][1] for x in asked}, "locators")
    if c["signer"] is not None:
        from cryptography.hazmat.primitives import hashes
        from cryptography.hazmat.primitives.asymmetric import padding
        (_, alg), (_, val) = top["tail"]
        keys.crypto_key(c["signer"]).public_key().verify(val, top["body"] + ref.tlv(3, alg), padding.PKCS1v15(), hashes.SHA256())
    if c["link"]:
        named = {ref.name(v.packet["name"]) for v in visits if v.packet["name"] is not None}
        require_eq(set(links), named, "names of links")
        require_eq({(k, v) for k, v in links.items()} <= {(ref.name(v.packet["name"]), ref.link_value(v.packet["name"], None, (1, v.digest)))
                                                          for v in visits if v.packet["name"] is not None}, True, "links lead to packets with their names")
        # also when other packets have the name: the root is the last to be written
        require_eq(links[ref.name(top["name"])], ref.link_value(top["name"], None, (1, root_hash)), "link to the root manifest")
    else:
        require_eq(links, {}, "links")
    if c["wide"] or c["which"] % 4 == 0:
        # the options for the shape of the tree have the same meaning as TreeOptions
        tree = tm.build(s)
        other = tm.walk(s, tree.wires, tree.wires[-1])
        require_eq(shape(visits), shape(other), "the shape of the tree: depth and pointers of its packets")
        ctx.label("wide" if c["wide"] else "shape")
    depth = max(v.depth for v in visits)
    ctx.label("depth:%d" % min(6, depth))
    ctx.nontrivial(depth >= 3 and (s["enc"] is not None or c["signer"] is not None))
    return visits


def shape(visits):
    return [(v.depth, sum(len(g["ptrs"]) for g in v.packet["node"]["groups"]) if v.is_manifest else None) for v in visits]


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def reader(c, s, files, root_hash, give=None, name=None, to_file=True, **kw):
    e = c["enc"]
    if give is None:
        give = ("key",)
        if e is not None and e["kind"] == "oaep":
            give = {"wrapped": ("wrapped",), "key": ("key",), "both": ("wrapped", "key")}[s["enc"]["give"]]
    argv = ["--name", text_of(name if name is not None else c["name"]), "-i", files.packets] + verify_args(c, files)
    argv += ["--output", files.output] if to_file else []
    if root_hash is not None:
        argv += ["--hash", ("0x" if c["by"] == "hash 0x" else "") + root_hash.hex()]
    if os.path.exists(files.output):
        os.remove(files.output)
    failure, out = program("manifest_reader", argv + enc_args(c, s, files, give, reader=True, **kw))
    if not to_file:
        return failure, out
    got = None
    if os.path.exists(files.output):
        with open(files.output, "rb") as f:
            got = f.read()
    return failure, got


def write(c, s, files):
    put(files.data, tm.data_bytes(s))
    return write_tree(c, s, files)


def write_tree(c, s, files):
    with time_zone(c["zone"]):
        failure, out = program("manifest_writer", writer_args(c, s, files))
    if failure is not None:
        require(False, "the writer failed: %r", failure)
    if "text" not in c:
        with open(files.data, "rb") as f:
            require(f.read() == tm.data_bytes(s), "the writer changed its input")
    roots = {d for d in (bytes.fromhex(x) for x in re.findall("(?<![0-9a-f])[0-9a-f]{64}(?![0-9a-f])", out))
             if os.path.exists(os.path.join(files.packets, d.hex()))}
    require(len(roots) >= 1, "the writer does not print the hash of the root manifest")
    if len(roots) > 1:
        # more than one hash is printed: the one of the root's name and, if not unique, the last
        order = re.findall("(?<![0-9a-f])[0-9a-f]{64}(?![0-9a-f])", out)
        roots = {bytes.fromhex([x for x in order if bytes.fromhex(x) in roots][-1])}
    return roots.pop()


@law(LAWS, 1400, strategy)
def programs(case, ctx):
    """
    The writer's output directory, read by the independent reader, is what the command line asks for; the reader program gives the
    file back, by hash and by link; when a key, hash, name or packet is wrong or missing it fails.
    """
    c = case
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    SchemaImplFactory.reset_nc_id()
    s = tree_spec(c)
    with tempfile.TemporaryDirectory(prefix="c26-") as scratch:
        files = Files(scratch)
        root_hash = write(c, s, files)
        visits = check_tree(c, s, files, root_hash, ctx)
        by_link = c["by"] == "link" and c["link"]
        asked = None if by_link else root_hash
        failure, got = reader(c, s, files, asked)
        if c["signer"] is not None and c["verify"] == "none":
            require(failure is not None, "the reader did not fail without the key of the signature")
            ctx.label("no key to verify")
            return
        require(failure is None, "the reader failed: %r", failure)
        require(got == tm.data_bytes(s), "the reader wrote %d bytes, not the %d of the file", len(got or b""), len(tm.data_bytes(s)))
        trouble = c["trouble"]
        ctx.label(c["schema"], "enc:%s" % (c["enc"]["kind"] if c["enc"] else None), "by link" if by_link else "by hash", "trouble:" + trouble)
        if trouble != "none":
            go_wrong(c, s, files, root_hash, asked, visits, trouble, ctx)


def go_wrong(c, s, files, root_hash, asked, visits, trouble, ctx):
    kw = {}
    e = c["enc"]
    pool = [v for v in visits if not v.is_manifest] if trouble.endswith("data") else visits
    v = pool[c["which"] % len(pool)]
    path = os.path.join(files.packets, v.digest.hex())
    wire = v.packet["wire"]
    uses_key = e is not None and (e["kind"] == "aead" or s["enc"]["give"] == "key")
    if trouble == "hash":
        asked = bytes([root_hash[0] ^ 1]) + root_hash[1:]
    elif trouble == "name":
        kw["name"] = c["name"] + [["n", b"other"]]
    elif trouble.startswith("lost"):
        os.remove(path)
    elif trouble.startswith("changed"):
        i = 8 * 8 + c["which"] % (8 * len(wire) - 64)
        x = bytearray(wire)
        x[i // 8] ^= 1 << (i % 8)
        put(path, bytes(x))
    elif trouble == "truncated":
        put(path, wire[:c["which"] % len(wire)])
    elif trouble == "swapped":
        other = [o for o in visits if o.digest != v.digest]
        put(path, other[c["which"] % len(other)].packet["wire"])
    elif trouble == "no key":
        if e is None:
            return
        kw["give"] = ()
    elif trouble == "wrong key":
        if not uses_key:
            return
        kw["key_change"] = 1 + c["which"] % 255
        kw["give"] = ("key",)
    elif trouble == "wrong salt":
        if not uses_key or s["enc"]["salt"] is None:
            return
        kw["salt_change"] = 1 << (c["which"] % 32)
        kw["give"] = ("key",)
    failure, got = reader(c, s, files, asked, **kw)
    require(failure is not None, "the reader did not fail (trouble: %s, of a packet at depth %d)", trouble, v.depth)
    ctx.label("failed")


@law(LAWS, 400, strategy)
def show(case, ctx):
    """
    packet_reader shows the packets the writer wrote: the pointers of a manifest when it has the keys to see them, and never
    without; it verifies the signature of the root when it has the key, and fails when it does not fit.
    """
    c = case
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    SchemaImplFactory.reset_nc_id()
    s = tree_spec(c)
    with tempfile.TemporaryDirectory(prefix="c26-") as scratch:
        files = Files(scratch)
        root_hash = write(c, s, files)
        visits = check_tree(c, s, files, root_hash, ctx)
        manifests = [v for v in visits if v.is_manifest]
        for v in [visits[0], manifests[c["which"] % len(manifests)], visits[-1]]:
            for keyed in (True, False):
                argv = ["-i", files.packets] + (["--pretty"] if c["pretty"] else []) + (verify_args(c, files) if keyed else [])
                visible = True
                e = c["enc"]
                if e is not None and v.is_manifest:
                    if keyed:
                        give = ("wrapped", "key") if e["kind"] == "oaep" and s["enc"]["give"] == "both" else \
                            ("wrapped",) if e["kind"] == "oaep" and s["enc"]["give"] == "wrapped" else ("key",)
                        argv += enc_args(c, s, files, give, reader=True)
                        visible = "key" in give or v.depth == 0
                    else:
                        visible = False
                try:
                    failure, out = program("packet_reader", argv + [v.digest.hex()])
                finally:
                    ContentObject.USE_BRIEF_OUTPUT = False
                if e is not None and v.is_manifest and not visible:
                    pass        # may say that it has no key, or fail
                else:
                    require(failure is None, "packet_reader failed: %r", failure)
                if v.is_manifest:
                    ptrs = [p.hex() for g in v.packet["node"]["groups"] for p in g["ptrs"]]
                    shown = [p in out.lower().replace("'", "") for p in ptrs]
                    if visible:
                        require(all(shown), "packet_reader does not show the pointers of a manifest (%d of %d)", sum(shown), len(shown))
                    else:
                        require(not any(shown), "packet_reader shows the pointers of an encrypted manifest, without a key")
        if c["signer"] is not None and c["verify"] != "none":
            wire = bytearray(visits[0].packet["wire"])
            i = c["which"] % (8 * len(visits[0].packet["body"]) - 32) + 8 * 12
            wire[i // 8] ^= 1 << (i % 8)
            put(os.path.join(files.packets, root_hash.hex()), bytes(wire))
            failure, _ = program("packet_reader", ["-i", files.packets] + verify_args(c, files) + [root_hash.hex()])
            ContentObject.USE_BRIEF_OUTPUT = False
            require(failure is not None, "packet_reader does not fail for a packet whose signature does not fit")
        checksummed(c, s, files, visits, ctx)
        ctx.label("enc:%s" % (c["enc"]["kind"] if c["enc"] else None), "verify:%s" % (c["verify"] if c["signer"] else None))


@law(LAWS, 40, lambda tier: cases(tier).map(lambda c: dict(c, wide=False, link=False)), max_shards=1)
def over_tcp(case, ctx):
    """With -T the writer sends the same tree over a connection instead, and nothing goes to the directory."""
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from props.c24 import Receiver
    SchemaImplFactory.reset_nc_id()
    c = case
    s = tree_spec(c)
    try:
        rx = Receiver([777, 65536], None, port=9896)
    except OSError:
        ctx.exclude("the port is in use")
        return
    rx.connections = 2
    rx.start()
    with tempfile.TemporaryDirectory(prefix="c26-") as scratch:
        files = Files(scratch)
        put(files.data, tm.data_bytes(s))
        failure, out = program("manifest_writer", ["-T"] + writer_args(c, s, files))
        for _ in range(2):
            # ends the receiver, whether or not the writer used it
            with contextlib.suppress(OSError):
                socket.create_connection(("127.0.0.1", 9896)).close()
        rx.join(40)
        require(failure is None, "the writer failed: %r", failure)
        require_eq(os.listdir(files.packets), [], "files in the output directory")
        got = rx.streams[0]
        ctx.label("packets<%d" % (1 << (len(got) // 1000).bit_length()))
        while got:
            n = int.from_bytes(got[2:4], "big")
            require(8 <= n <= len(got), "a packet length of %d where %d bytes are left", n, len(got))
            root_hash = ref.packet_hash(got[:n])
            put(os.path.join(files.packets, root_hash.hex()), got[:n])
            got = got[n:]
        require(os.listdir(files.packets) != [], "nothing was sent")
        check_tree(c, s, files, root_hash, ctx)
        require(root_hash.hex() in out, "the writer does not print the hash of the root manifest")


def checksummed(c, s, files, visits, ctx):
    """The body of one of the packets with a CRC-32C checksum: packet_reader tells a good one from a damaged one."""
    from ccnpy.core.ContentObject import ContentObject
    # without keys, an encrypted manifest may well be a failure of its own
    pool = [v for v in visits if c["enc"] is None or not v.is_manifest]
    body = pool[c["which"] % len(pool)].packet["body"]
    alg = ref.validation_alg_crc()
    crc = ref.crc32c(body + alg).to_bytes(4, "big")
    packet = bytearray(ref.packet(body, alg, crc))
    i = None
    if c["jitter"] % 2:
        i = c["which"] % (8 * 4) + 8 * (len(packet) - 4)
        packet[i // 8] ^= 1 << (i % 8)
    put(os.path.join(files.packets, "checksummed"), bytes(packet))
    failure, out = program("packet_reader", ["-i", files.packets, "checksummed"])
    ContentObject.USE_BRIEF_OUTPUT = False
    if i is None:
        require(failure is None, "packet_reader fails for a packet with a checksum: %r", failure)
    else:
        require(failure is not None, "packet_reader does not fail for a packet with a wrong checksum")
    ctx.label("checksum:%s" % ("good" if i is None else "wrong"))


TEXT = st.lists(st.sampled_from(["a", "The ", "é", "ß", "中", "文", "€", "\n", "🙂", "𝔘", "\u0800", "\u07ff", "\uffff", "x" * 7]), min_size=1, max_size=12)


def text_strategy(tier):
    return st.tuples(cases(tier), TEXT, st.integers(0, 3)).map(lambda t: dict(t[0], wide=False, text="".join(t[1]), lead=t[2]))


@law(LAWS, 300, text_strategy)
def text_on_standard_output(case, ctx):
    """
    Without --output, the text of a text file comes out on standard output whole, wherever its packets cut its characters; when a
    packet is missing, the reader fails.
    """
    c = case
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    SchemaImplFactory.reset_nc_id()
    s = tree_spec(c)
    n = len(tm.data_bytes(s))
    unit = c["text"].encode()
    text = ("[" * (1 + c["lead"]) + c["text"] * max(1, n // len(unit)) + "]").encode()
    with tempfile.TemporaryDirectory(prefix="c26-") as scratch:
        files = Files(scratch)
        put(files.data, text)
        root_hash = write_tree(c, s, files)
        wires = {}
        for f in os.listdir(files.packets):
            with open(os.path.join(files.packets, f), "rb") as fh:
                wires[f] = fh.read()
        data = {f: p for f, p in ((f, tm.parse_packet(w)) for f, w in wires.items() if len(f) == 64) if p["ptype"] != 3}
        cut = sum(1 for p in data.values() if p["payload"][:1] and 0x80 <= p["payload"][0] < 0xC0)
        by_link = c["by"] == "link" and c["link"]
        failure, out = reader(c, s, files, None if by_link else root_hash, to_file=False)
        if c["signer"] is not None and c["verify"] == "none":
            require(failure is not None, "the reader did not fail without the key of the signature")
            return
        require(failure is None, "the reader failed: %r", failure)
        require(text.decode() in out, "standard output has %d characters, but not the text of %d", len(out), len(text.decode()))
        ctx.label("characters cut:%d" % min(cut, 3))
        ctx.nontrivial(cut > 0)
        if c["trouble"].startswith("lost"):
            pool = sorted(data)
            os.remove(os.path.join(files.packets, pool[c["which"] % len(pool)]))
            failure, out = reader(c, s, files, root_hash, to_file=False)
            require(failure is not None, "the reader did not fail without a packet")
            ctx.label("lost")
