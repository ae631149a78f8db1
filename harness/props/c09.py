"""C09: AEAD encryption of manifests."""
import os
import subprocess
import sys

from hypothesis import strategies as st

from vh import flic_model as fm
from vh import ref
from vh import tree_model as tm
from vh.core_model import A, b, blob_spec, payload_plain
from vh.engine import HarnessError, Violation, law, must_raise, require, require_eq

PROPERTY = "C09"
RULE = ("Cases are nodes, encryption settings, readers' settings and damage; non-trivial = the node has pointers or name constructors, the "
        "reader or the message is not the one of the writer, or a tree has two or more encrypted manifests; distinct by the case.")
ASSUMPTIONS = ["The reference ciphers are those of the cryptography library.",
               "The boundary between ciphertext and authentication tag is not authenticated: only their concatenation is.",
               "A KDF salt of 0 is the same as none (HMAC pads its key with zeros).",
               "A nonce of 64 random bits does not repeat by chance within a case."]
LAWS = []

enc = tm.aead_enc


def iv_of(e, nonce):
    return (b"" if e["salt"] is None else e["salt"].to_bytes(4, "big")) + nonce


def aead(mode, key):
    from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM
    return AESGCM(key) if mode in (1, 2) else AESCCM(key)


def ctx_plain(e, nonce, kind="aead", wrapper=None):
    inner = ref.tlv(fm.KEYNUM, ref.varint(e["num"])) + ref.tlv(fm.NONCE, nonce) + ref.tlv(fm.AEAD_MODE, bytes([tm.mode_number(e)]))
    if e["kdf"] is not None:
        inner += fm.kdf_plain(e["kdf"])
    if kind == "oaep":
        return ref.tlv(fm.SECURITY_CTX, ref.tlv(fm.RSAOAEP_CTX, inner + (wrapper or b"")))
    return ref.tlv(fm.SECURITY_CTX, ref.tlv(fm.AEAD_CTX, inner))


def kdf_of(e):
    return None if e["kdf"] is None else (e["kdf"]["alg"], e["kdf"]["info"])


def ref_encrypt(e, nonce, plaintext, kind="aead", wrapper=None):
    """(security ctx TLV, ciphertext, tag)"""
    mode = tm.mode_number(e)
    sec = ctx_plain(e, nonce, kind, wrapper)
    out = aead(mode, tm.derive(e, kdf_of(e), mode)).encrypt(iv_of(e, nonce), plaintext, sec)
    return sec, out[:-16], out[-16:]


def manifest_wire(sec, ct, tag):
    return sec + ref.tlv(fm.ENCRYPTED_NODE, ct) + ref.tlv(fm.AUTH_TAG, tag)


def parse_manifest(wire):
    """A ccnpy manifest from the encoding of its TLVs, taken from a content object's payload."""
    from ccnpy.flic.tlvs.Manifest import Manifest
    return Manifest.deserialize(A(wire))


def is_plain_manifest(m, spec_node, what):
    """m is a manifest without encryption that holds the node."""
    require(m is not None, what + ": no manifest")
    require(m.security_ctx() is None and m.auth_tag() is None, what + ": still has a security context")
    require_eq(b(m.node().serialize()), fm.node_plain(spec_node), what)
    require(m.node() == fm.node_obj(spec_node), what + ": not equal to the node")


def big_node(tier):
    return st.one_of(fm.node_spec, fm.node_spec, st.tuples(st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(1, 900)), st.integers(0, 1 << 20)).map(
        lambda t: {"data": None, "groups": [{"data": None, "ptrs": [[1, ref.blob("shake", t[1] + i, 32)] for i in range(t[0])]}]}))


@law(LAWS, 2000, lambda tier: st.fixed_dictionaries({"node": big_node(tier), "enc": enc, "nonce": st.binary(min_size=12, max_size=12)}))
def round_trip(case, ctx):
    """
    What the encryptor makes is in the documented form, and the reference decrypts it; the decryptor decrypts it, and what the
    reference encrypts; a decrypted manifest has the node and nothing else.
    """
    from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from ccnpy.flic.tlvs.Manifest import Manifest
    e, spec = case["enc"], case["node"]
    value = fm.node_value_plain(spec)
    node = fm.node_obj(spec)
    sec, en, tag = tm.encryptor(e).encrypt(node)
    nonce = b(sec.nonce().value())
    require_eq(len(iv_of(e, nonce)), 12, "bytes of salt and nonce")
    require_eq(b(sec.serialize()), ctx_plain(e, nonce), "security context")
    require_eq(len(b(tag.value())), 16, "bytes of the authentication tag")
    mode = tm.mode_number(e)
    plain = tm.decrypt(e, {"num": e["num"], "nonce": nonce, "mode": mode, "kdf": kdf_of(e)}, b(sec.serialize()), b(en.value()), b(tag.value()))
    require_eq(plain, value, "what the reference decrypts")
    require_eq(b(node.serialize()), fm.node_plain(spec), "the node after encryption")
    dec = AeadDecryptor(tm.aead_params(e))
    m = Manifest(security_ctx=sec, node=en, auth_tag=tag)
    is_plain_manifest(dec.decrypt_manifest(m), spec, "decrypted manifest")
    again = parse_manifest(b(m.serialize()))
    is_plain_manifest(dec.decrypt_manifest(again), spec, "decrypted parsed manifest")
    require(dec.decrypt_node(again.security_ctx(), again.node(), again.auth_tag()) == node, "decrypted node")
    whole = AeadImpl(tm.aead_params(e)).create_encrypted_manifest(node)
    is_plain_manifest(AeadDecryptor(tm.aead_params(e)).decrypt_manifest(parse_manifest(b(whole.serialize()))), spec, "decrypted encrypted manifest")
    # the other way
    nonce = case["nonce"] if e["salt"] is None else case["nonce"][:8]
    is_plain_manifest(dec.decrypt_manifest(parse_manifest(manifest_wire(*ref_encrypt(e, nonce, value)))), spec, "what the reference encrypted")
    ctx.label("%s-%d" % (e["mode"], e["bits"]), "salt" if e["salt"] is not None else "no salt",
              "no kdf" if e["kdf"] is None else "kdf %d%s%s" % (e["kdf"]["alg"], "" if e["kdf"]["info"] is None else " info",
                                                               "" if e["kdf_salt"] is None else " salt"))
    ctx.nontrivial(len(value) > 50)


KEY_CHANGES = ["key", "salt", "no salt", "kdf salt", "number", "mode", "bits"]
MSG_CHANGES = ["ct flip", "ct flip", "ct cut", "ct add", "tag flip", "tag flip", "nonce flip", "nonce flip", "nonce cut", "number", "mode", "kdf drop", "kdf add",
               "kdf alg", "kdf info", "other sec", "tag swap", "ct empty"]


@law(LAWS, 4000, lambda tier: st.fixed_dictionaries({
    "node": fm.node_spec, "enc": enc, "nonce": st.binary(min_size=12, max_size=12), "made_by": st.sampled_from(["ccnpy", "reference"]),
    "side": st.sampled_from(["reader", "message", "message"]), "reader": st.sampled_from(KEY_CHANGES), "message": st.sampled_from(MSG_CHANGES),
    "pos": st.integers(0, 1 << 20), "other": st.integers(0, (1 << 32) - 1), "bytes": st.binary(min_size=1, max_size=20)}))
def refusal(case, ctx):
    """A reader with another key, key number, salt or mode, or with a message that was changed in any part, gets an error and no node."""
    from ccnpy.crypto.DecryptionError import DecryptionError
    from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
    e, spec = case["enc"], case["node"]
    value = fm.node_value_plain(spec)
    if case["made_by"] == "ccnpy":
        sec, en, tag = tm.encryptor(e).encrypt(fm.node_obj(spec))
        nonce, ct, tag = b(sec.nonce().value()), b(en.value()), b(tag.value())
    else:
        nonce = case["nonce"] if e["salt"] is None else case["nonce"][:8]
        _, ct, tag = ref_encrypt(e, nonce, value)
    r = dict(e)          # what the reader has
    w = dict(e)          # what the message says
    strict = True        # it has to be a DecryptionError
    pos, other = case["pos"], case["other"]
    sec = None
    if case["side"] == "reader":
        what = case["reader"]
        if what == "key":
            r["key"] = e["key"] + 1 + other % 1000
        elif what == "salt":
            r["salt"] = other if other != e["salt"] else (other + 1) % (1 << 32)
            strict = e["salt"] is not None
        elif what == "no salt":
            r["salt"] = None if e["salt"] is not None else other
            strict = False        # the initialization vector may have the wrong size for the cipher
        elif what == "kdf salt":
            if e["kdf"] is None or (other or None) == (e["kdf_salt"] or None):
                ctx.exclude("no effect")
                return
            r["kdf_salt"] = other
        elif what == "number":
            r["num"] = (e["num"] + 1 + other) % (1 << 64)
            strict = False
        elif what == "mode":
            r["mode"] = "CCM" if e["mode"] == "GCM" else "GCM"
        else:
            r["bits"] = 384 - e["bits"]
    else:
        what = case["message"]

        def flip(x):
            i = pos % (8 * len(x))
            x = bytearray(x)
            x[i // 8] ^= 1 << (i % 8)
            return bytes(x)
        if what == "ct flip":
            ct = flip(ct)
        elif what == "ct cut":
            ct = ct[:pos % len(ct)]
        elif what == "ct empty":
            ct = b""
        elif what == "ct add":
            ct = ct[:pos % (len(ct) + 1)] + case["bytes"] + ct[pos % (len(ct) + 1):]
        elif what == "tag flip":
            tag = flip(tag)
        elif what == "tag swap":
            tag = bytes(reversed(tag)) if tag != bytes(reversed(tag)) else flip(tag)
        elif what == "nonce flip":
            nonce = flip(nonce)
        elif what == "nonce cut":
            nonce = nonce[:pos % len(nonce)]
            strict = False        # it may be too short for the cipher
        elif what == "number":
            w["num"] = (e["num"] + 1 + other) % (1 << 64)
            r["num"] = w["num"]
        elif what == "mode":
            w["bits"] = 384 - e["bits"]
        elif what == "kdf drop":
            if e["kdf"] is None:
                ctx.exclude("no effect")
                return
            w["kdf"] = None
        elif what == "kdf add":
            if e["kdf"] is not None:
                ctx.exclude("no effect")
                return
            w["kdf"] = {"alg": 1 + pos % 3, "info": None}
        elif what == "kdf alg":
            if e["kdf"] is None:
                ctx.exclude("no effect")
                return
            w["kdf"] = dict(e["kdf"], alg=1 + (e["kdf"]["alg"] + pos % 2) % 3)
        elif what == "kdf info":
            if e["kdf"] is None:
                ctx.exclude("no effect")
                return
            info = e["kdf"]["info"]
            w["kdf"] = dict(e["kdf"], info=(info or b"") + case["bytes"] if pos % 2 or info is None else None)
        elif what == "other sec":
            # an equivalent context with one more TLV of an unknown type, which is dropped by the parser
            sec = ctx_plain(w, nonce)
            (_, v), = ref.tlvs(sec)
            (k, inner), = ref.tlvs(v)
            strict = False
            sec = ref.tlv(fm.SECURITY_CTX, ref.tlv(k, inner + ref.tlv(0x7777, case["bytes"])))
    wire = manifest_wire(sec or ctx_plain(w, nonce), ct, tag)
    ctx.label(case["side"] + " " + what, case["made_by"])
    ctx.nontrivial()
    try:
        m = parse_manifest(wire)
    except Exception:
        require(not strict, "the changed manifest (%s) is not parsed", what)
        ctx.label("not parsed")
        return
    if sec is not None and b(m.serialize()) == manifest_wire(ctx_plain(w, nonce), ct, tag):
        # the unknown TLV is gone, so this is the message of the writer
        is_plain_manifest(AeadDecryptor(tm.aead_params(r)).decrypt_manifest(m), spec, "the manifest without the unknown TLV")
        return
    dec = AeadDecryptor(tm.aead_params(r))
    exc = DecryptionError if strict else Exception
    must_raise(exc, lambda: dec.decrypt_manifest(m), "decrypting (%s changed)" % what)
    must_raise(exc, lambda: dec.decrypt_node(m.security_ctx(), m.node(), m.auth_tag()), "decrypting the node (%s changed)" % what)
    # the reader is none the worse for it
    good = parse_manifest(manifest_wire(*ref_encrypt(r, case["nonce"] if r["salt"] is None else case["nonce"][:8], value)))
    is_plain_manifest(dec.decrypt_manifest(good), spec, "what the reader can decrypt, afterwards")




def many_nonces(tier):
    """More encryptions than 16 random bits, or a 16 bit counter, can tell apart."""
    n = 140000 if tier == "quick" else 400000
    node = {"data": None, "groups": [{"data": None, "ptrs": [[1, bytes(range(32))]]}]}
    for i, (mode, salt, share) in enumerate([(m, s, sh) for m in ("GCM", "CCM") for s in (None, 77) for sh in (True, False)]):
        yield {"node": node, "n": n if share else n // 2, "share": share,
               "enc": {"kind": "aead", "mode": mode, "bits": 128 + 128 * (i % 2), "key": i, "num": i, "salt": salt, "kdf": None, "kdf_salt": None}}
    yield {"node": node, "n": n // 2, "share": True,
           "enc": {"kind": "oaep", "mode": "GCM", "bits": 128, "key": 9, "num": 9, "salt": 77, "kdf": None, "kdf_salt": None,
                   "rsa": "rsa1024a", "give": "wrapped"}}


@law(LAWS, 300, lambda tier: st.fixed_dictionaries({"node": fm.node_spec, "enc": enc, "n": st.integers(2, 12), "share": st.booleans()}),
     enumerate_cases=many_nonces)
def nonces(case, ctx):
    """
    Encrypting the same node again, with the same or with another encryptor, uses another nonce; some enumerated cases do this
    more than 100000 times.
    """
    e = case["enc"]
    node = fm.node_obj(case["node"])
    shared = tm.encryptor(e)
    seen = set()
    texts = set()
    for _ in range(case["n"]):
        sec, en, tag = (shared if case["share"] else tm.encryptor(e)).encrypt(node)
        seen.add(b(sec.nonce().value()))
        texts.add(hash(b(en.value()) + b(tag.value())))
    require_eq(len(seen), case["n"], "different nonces")
    require_eq(len(texts), case["n"], "different ciphertexts")
    ctx.label("one encryptor" if case["share"] else "many encryptors")
    ctx.nontrivial()


def make_nonces(case, encryptor=None):
    """The nonces of n encryptions, and a generated key."""
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    node = fm.node_obj(case["node"])
    out = []
    for _ in range(case["n"]):
        sec, _, _ = (encryptor or tm.encryptor(case["enc"])).encrypt(node)
        out.append(b(sec.nonce().value()).hex())
    cls = AeadGcm if case["enc"]["mode"] == "GCM" else AeadCcm
    return out + [bytes(cls.generate(case["enc"]["bits"]).key()).hex()]


FRESH = "import sys; sys.path.append(%r); import ast; from props import c09; print(','.join(c09.make_nonces(ast.literal_eval(sys.argv[1]))))"


@law(LAWS, 80, lambda tier: st.fixed_dictionaries({
    "node": fm.node_spec, "enc": enc, "n": st.integers(1, 20), "before": st.integers(0, 3), "share": st.booleans(), "procs": st.integers(1, 4),
    "how": st.sampled_from(["fork"] * 7 + ["fresh"])}))
def processes(case, ctx):
    """
    Nor do programs that run at the same time, or that were forked from one that had encrypted before, use the same nonce, or generate the
    same key.
    """
    e = case["enc"]
    if case["how"] == "fresh":
        vt = os.environ.get("VERIF_VT") or "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        small = {"node": case["node"], "enc": e, "n": case["n"]}
        made = [make_nonces(small)]
        running = [subprocess.Popen([sys.executable, "-B", "-c", FRESH % vt, repr(small)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                    stderr=subprocess.DEVNULL) for _ in range(2 + case["procs"] % 2)]
        texts = [p.communicate(timeout=120)[0].decode() for p in running]
        if any(p.returncode for p in running):
            raise HarnessError("a process failed")
        made += [x.strip().split(",") for x in texts]
    else:
        shared = tm.encryptor(e) if case["share"] else None
        made = [make_nonces(dict(case, n=case["before"]), shared)]
        pipes = []
        for _ in range(case["procs"]):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.write(w, ",".join(make_nonces(case, shared)).encode())
                finally:
                    os._exit(0)
            os.close(w)
            pipes.append((r, pid))
        made.append(make_nonces(case, shared))
        for r, pid in pipes:
            with os.fdopen(r, "rb") as f:
                text = f.read().decode()
            os.waitpid(pid, 0)
            if not text:
                raise HarnessError("a process failed")
            made.append(text.split(","))
    for what, values in (("nonces", [x for m in made for x in m[:-1]]), ("keys", [m[-1] for m in made])):
        require_eq(len(set(values)), len(values), "different %s of %d processes" % (what, len(made)))
    ctx.label(case["how"], "processes:%d" % len(made))
    ctx.nontrivial()


@law(LAWS, 1500, lambda tier: st.fixed_dictionaries({
    "mode": st.sampled_from(["GCM", "CCM"]), "bits": st.sampled_from([128, 192, 256]), "key": st.integers(0, 1 << 20),
    "iv": st.binary(min_size=8, max_size=13), "text": blob_spec, "aad": st.one_of(st.none(), st.binary(max_size=40)),
    "arrays": st.tuples(st.booleans(), st.booleans()).map(list), "flip": st.integers(0, 1 << 20)}))
def ciphers(case, ctx):
    """The AEAD keys encrypt and decrypt like the reference ciphers, and refuse what was changed."""
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    from ccnpy.crypto.DecryptionError import DecryptionError
    key = ref.blob("shake", case["key"], case["bits"] // 8)
    text = payload_plain(case["text"])
    cls = AeadGcm if case["mode"] == "GCM" else AeadCcm
    k = cls(key)
    require_eq((k.aead_mode(), len(k), bytes(k.key())), (case["mode"], case["bits"], key), "what a key is")
    arg = A if case["arrays"][0] else bytes
    arg2 = (lambda x: None if x is None else A(x)) if case["arrays"][1] else (lambda x: x)
    impl = aead(1 if case["mode"] == "GCM" else 3, key)
    want = impl.encrypt(case["iv"], text, case["aad"])
    ct, tag = k.encrypt(iv=case["iv"], plaintext=arg(text), associated_data=arg2(case["aad"]))
    require_eq((b(ct), b(tag)), (want[:-16], want[-16:]), "ciphertext and tag")
    got = k.decrypt(iv=case["iv"], ciphertext=arg(b(ct)), associated_data=arg2(case["aad"]), auth_tag=arg(b(tag)))
    require_eq(b(got), text, "decrypted")
    whole = bytearray(b(ct) + b(tag))
    i = case["flip"] % (8 * len(whole))
    whole[i // 8] ^= 1 << (i % 8)
    must_raise(DecryptionError, lambda: k.decrypt(iv=case["iv"], ciphertext=bytes(whole[:-16]), associated_data=case["aad"], auth_tag=bytes(whole[-16:])),
               "a flipped bit")
    must_raise(DecryptionError, lambda: k.decrypt(iv=case["iv"], ciphertext=b(ct), associated_data=(case["aad"] or b"") + b"x", auth_tag=b(tag)),
               "other associated data")
    must_raise(DecryptionError, lambda: k.decrypt(iv=case["iv"][:-1] + bytes([case["iv"][-1] ^ 1]), ciphertext=b(ct), associated_data=case["aad"],
                                                  auth_tag=b(tag)), "another initialization vector")
    if case["bits"] != 192:
        g = cls.generate(case["bits"])
        require_eq((len(g), len(bytes(g.key()))), (case["bits"], case["bits"] // 8), "size of a generated key")
        require(bytes(g.key()) != bytes(cls.generate(case["bits"]).key()), "the same key was generated twice")
        ct, tag = g.encrypt(iv=case["iv"], plaintext=text, associated_data=case["aad"])
        require_eq(b(cls(bytes(g.key())).decrypt(iv=case["iv"], ciphertext=ct, associated_data=case["aad"], auth_tag=tag)), text, "decrypted with a copy of a generated key")
    else:
        must_raise(ValueError, lambda: cls.generate(case["bits"]), "generating a key of 192 bits")
    for bits in (64, 96, 128, 256):
        require_eq(len(k.nonce(bits)), bits // 8, "bytes of a nonce of %d bits" % bits)
    ctx.label("%s-%d" % (case["mode"], case["bits"]), "aad" if case["aad"] else "no aad")
    ctx.nontrivial(len(text) > 0)


@law(LAWS, 700, lambda tier: st.fixed_dictionaries({"tree": tm.tree_spec(enc=st.one_of(tm.aead_enc, tm.oaep_enc), max_chunks=60 if tier == "quick" else 400)}))
def trees(case, ctx):
    """
    In an encrypted tree every manifest is encrypted, with the key asked for and a nonce of its own, and shows none of its
    pointers; data packets are not encrypted.
    """
    s = case["tree"]
    e = s["enc"]
    t = tm.build(s)
    nonces_seen = set()
    visits = tm.walk(s, t.wires, b(t.root.serialize()))
    n = 0
    for v in visits:
        if not v.is_manifest:
            continue
        n += 1
        kind, a, wrapper = v.packet["sec"]
        require_eq(kind, fm.AEAD_CTX if e["kind"] == "aead" else fm.RSAOAEP_CTX, "kind of the security context")
        require_eq((a["num"], a["mode"], a["kdf"]), (e["num"], tm.mode_number(e), kdf_of(e)), "parameters in the security context")
        require(a["nonce"] not in nonces_seen, "two manifests have the same nonce")
        nonces_seen.add(a["nonce"])
        require_eq(wrapper is not None, e["kind"] == "oaep" and v.depth == 0, "a wrapped key, at depth %d" % v.depth)
        for c in v.children:
            require(c.digest not in v.packet["wire"], "an encrypted manifest shows a pointer")
    ctx.label(s["schema"], e["kind"], "manifests<%d" % (1 << n.bit_length()))
    ctx.nontrivial(n > 2)
