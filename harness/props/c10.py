"""C10: manifest keys wrapped with RSA-OAEP."""
from hypothesis import strategies as st

from props import c09
from vh import flic_model as fm
from vh import keys, ref
from vh import tree_model as tm
from vh.core_model import A, b
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C10"
RULE = ("Cases are keys to wrap, manifests, readers and damage; non-trivial = the reader has no content key of his own, or something was "
        "changed; distinct by the case.")
ASSUMPTIONS = ["The reference for RSA-OAEP is the cryptography library.",
               "The number of the KDF is not part of what a wrapped key is bound to (the documented label has KdfInfo only); it is still "
               "authenticated by the manifest.",
               "A KDF salt cannot be sent with a wrapped key, so there is none.",
               "A reader who has a content key with the key number uses it and does not look at the wrapped key (documented in the code)."]
LAWS = []
RSA = ["rsa1024a", "rsa1024b", "rsa1025a", "rsa1536a", "rsa2048a"]
enc = tm.oaep_enc


def label(e, keyid):
    info = b"" if e["kdf"] is None or e["kdf"]["info"] is None else ref.tlv(fm.KDF_INFO, e["kdf"]["info"])
    return (b"FLIC RSA-OAEP" + ref.tlv(fm.KEYNUM, ref.varint(e["num"])) + ref.tlv(fm.AEAD_MODE, bytes([tm.mode_number(e)])) + info +
            ref.tlv(fm.KEYID, ref.tlv(1, keyid)) + ref.tlv(fm.HASH_ALG, b"\1"))


def oaep(lab):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    return padding.OAEP(mgf=padding.MGF1(algorithm=hashes.SHA256()), algorithm=hashes.SHA256(), label=lab)


def secret(e):
    return e["salt"].to_bytes(4, "big") + tm.aes_key(e)


def ref_wrap(e):
    return keys.crypto_key(e["rsa"]).public_key().encrypt(secret(e), oaep(label(e, keys.keyid(e["rsa"]))))


def ref_unwrap(e, wrapped):
    return keys.crypto_key(e["rsa"]).decrypt(wrapped, oaep(label(e, keys.keyid(e["rsa"]))))


def wrapper_tlvs(e, wrapped):
    return ref.tlv(fm.KEYID, ref.tlv(1, keys.keyid(e["rsa"]))) + ref.tlv(fm.HASH_ALG, b"\1") + ref.tlv(fm.WRAPPED_KEY, wrapped)


def aead_data(e):
    return fm.aead_data_obj({"num": e["num"], "nonce": b"12345678", "mode": tm.mode_number(e), "kdf": e["kdf"]})


def flip(x, pos):
    i = pos % (8 * len(x))
    x = bytearray(x)
    x[i // 8] ^= 1 << (i % 8)
    return bytes(x)


def keystore(rsa=(), aes=(), private=True):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    ks = InsecureKeystore()
    for k in rsa:
        ks.add_rsa_key(k, keys.private(k) if private else keys.public(k))
    for e in aes:
        ks.add_aes_key(tm.aead_params(e))
    return ks


WRAP_CHANGES = ["none", "number", "mode", "bits", "info", "rsa", "flip", "cut", "add"]


@law(LAWS, 800, lambda tier: st.fixed_dictionaries({
    "enc": enc, "by": st.sampled_from(["ccnpy", "ccnpy", "reference"]), "change": st.sampled_from(["none", "none"] + WRAP_CHANGES),
    "pos": st.integers(0, 1 << 20), "other": st.sampled_from(RSA), "bytes": st.binary(min_size=1, max_size=8)}))
def wrapping(case, ctx):
    """
    A wrapped key holds salt and key, under the documented label, for the reference as for the code; it does not open with another
    key, or under another key number, mode or KDF info, or when it was changed.
    """
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    e = case["enc"]
    if case["by"] == "ccnpy":
        w = WrappedKey.create(wrapping_key=keys.private(e["rsa"]) if case["pos"] % 2 else keys.public(e["rsa"]), params=tm.aead_params(e))
        wrapped = b(w.value())
        require_eq(b(w.serialize()), ref.tlv(fm.WRAPPED_KEY, wrapped), "wrapped key TLV")
        require_eq(ref_unwrap(e, wrapped), secret(e), "what the reference unwraps")
    else:
        wrapped = ref_wrap(e)
    change = case["change"]
    ctx.label(change, case["by"], e["rsa"])
    ctx.nontrivial()
    if change == "none":
        salt, key = WrappedKey(A(wrapped)).decrypt(wrapping_key=keys.private(e["rsa"]), aead_data=aead_data(e))
        require_eq((salt, b(key)), (e["salt"], tm.aes_key(e)), "salt and key unwrapped")
        return
    r, rsa = dict(e), e["rsa"]
    if change == "number":
        r["num"] = (e["num"] + 1 + case["pos"]) % (1 << 64)
    elif change == "mode":
        r["mode"] = "CCM" if e["mode"] == "GCM" else "GCM"
    elif change == "bits":
        r["bits"] = 384 - e["bits"]
    elif change == "info":
        k = e["kdf"] or {"alg": 1, "info": None}
        r["kdf"] = dict(k, info=(k["info"] or b"") + case["bytes"])
    elif change == "rsa":
        rsa = case["other"] if case["other"] != e["rsa"] else RSA[(RSA.index(e["rsa"]) + 1) % len(RSA)]
    elif change == "flip":
        wrapped = flip(wrapped, case["pos"])
    elif change == "cut":
        wrapped = wrapped[:case["pos"] % len(wrapped)]
    else:
        wrapped = wrapped + case["bytes"]
    must_raise(Exception, lambda: WrappedKey(A(wrapped)).decrypt(wrapping_key=keys.private(rsa), aead_data=aead_data(r)),
               "unwrapping (%s changed)" % change)


@law(LAWS, 1000, lambda tier: st.fixed_dictionaries({
    "node": fm.node_spec, "enc": enc, "wrap": st.booleans(), "reader": st.sampled_from(["rsa", "rsa", "aes", "both", "public", "none", "other rsa"]),
    "other": st.sampled_from(RSA), "by": st.sampled_from(["ccnpy", "ccnpy", "reference"]), "nonce": st.binary(min_size=8, max_size=8),
    "parsed": st.booleans()}))
def manifests(case, ctx):
    """
    A manifest with a wrapped key is in the documented form and decrypts for who has the private key or the content key; without
    the wrapped key it takes the content key; others get an error.
    """
    from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
    from ccnpy.flic.tlvs.Manifest import Manifest
    e, spec = case["enc"], case["node"]
    value = fm.node_value_plain(spec)
    m = None
    if case["by"] == "ccnpy":
        sec, en, tag = tm.encryptor(e).encrypt(fm.node_obj(spec), include_wrapper=case["wrap"])
        m = Manifest(security_ctx=sec, node=en, auth_tag=tag)
        wire = b(m.serialize())
        (_, v), _, _ = ref.tlvs(wire)
        kind, a, w = tm.parse_security(v)
        require_eq(kind, fm.RSAOAEP_CTX, "kind of context")
        require_eq(w is not None, case["wrap"], "there is a wrapped key")
        if w is not None:
            require_eq((w["keyid"], w["alg"]), (ref.tlv(1, keys.keyid(e["rsa"])), 1), "key id and hash algorithm")
            require_eq(ref_unwrap(e, w["wrapped"]), secret(e), "what the reference unwraps")
        require_eq(len(a["nonce"]), 8, "bytes of the nonce")
        require_eq(b(sec.serialize()), c09.ctx_plain(e, a["nonce"], "oaep", None if w is None else wrapper_tlvs(e, w["wrapped"])), "security context")
        require_eq(tm.decrypt(e, a, b(sec.serialize()), b(en.value()), b(tag.value())), value, "what the reference decrypts")
    else:
        wire = c09.manifest_wire(*c09.ref_encrypt(e, case["nonce"], value, "oaep", wrapper_tlvs(e, ref_wrap(e)) if case["wrap"] else None))
    if m is None or case["parsed"]:
        m = c09.parse_manifest(wire)
    r = case["reader"]
    other = case["other"] if case["other"] != e["rsa"] else RSA[(RSA.index(e["rsa"]) + 1) % len(RSA)]
    ks = keystore(rsa=[e["rsa"]] if r in ("rsa", "both", "public") else [other] if r == "other rsa" else [],
                  aes=[e] if r in ("aes", "both") else [], private=r != "public")
    d = RsaOaepDecryptor(ks)
    can = r in ("aes", "both") or (r == "rsa" and case["wrap"])
    if can:
        c09.is_plain_manifest(d.decrypt_manifest(m), spec, "decrypted manifest")
        require(d.decrypt_node(m.security_ctx(), m.node(), m.auth_tag()) == fm.node_obj(spec), "decrypted node")
        # and from now on without the wrapped key
        wire2 = c09.manifest_wire(*c09.ref_encrypt(e, case["nonce"][::-1], value, "oaep", None))
        c09.is_plain_manifest(d.decrypt_manifest(c09.parse_manifest(wire2)), spec, "a manifest without the wrapped key, afterwards")
        c09.is_plain_manifest(RsaOaepDecryptor(ks).decrypt_manifest(c09.parse_manifest(wire2)), spec, "the same with another decryptor")
    else:
        must_raise(Exception, lambda: d.decrypt_manifest(m), "decrypting without the keys (%s)" % r)
        must_raise(Exception, lambda: d.decrypt_node(m.security_ctx(), m.node(), m.auth_tag()), "decrypting the node without the keys (%s)" % r)
    ctx.label(r + (" wrapped" if case["wrap"] else " bare"), "opens" if can else "does not open")
    ctx.nontrivial(r not in ("aes", "both"))


CHANGES = ["wrapped flip", "wrapped cut", "wrapped other secret", "keyid other", "keyid flip", "alg", "number", "mode", "bits", "kdf info", "kdf alg",
           "nonce flip", "ct flip", "tag flip", "drop wrapper", "kind"]


@law(LAWS, 1600, lambda tier: st.fixed_dictionaries({
    "node": fm.node_spec, "enc": enc, "reader": st.sampled_from(["rsa", "rsa", "aes", "both"]), "change": st.sampled_from(CHANGES),
    "nonce": st.binary(min_size=8, max_size=8), "pos": st.integers(0, 1 << 20), "bytes": st.binary(min_size=1, max_size=8),
    "primed": st.booleans()}))
def refusal(case, ctx):
    """A manifest whose security context, ciphertext or tag was changed in any part is refused, with the content key known or not."""
    from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
    e, spec, pos, change = case["enc"], case["node"], case["pos"], case["change"]
    value = fm.node_value_plain(spec)
    wrapped = ref_wrap(e)
    nonce = case["nonce"]
    sec, ct, tag = c09.ref_encrypt(e, nonce, value, "oaep", wrapper_tlvs(e, wrapped))
    good = c09.manifest_wire(sec, ct, tag)
    w = dict(e)
    wrapper = wrapper_tlvs(e, wrapped)
    kind = "oaep"
    other = RSA[(RSA.index(e["rsa"]) + 1 + pos % (len(RSA) - 1)) % len(RSA)]
    if change == "wrapped flip":
        wrapper = wrapper_tlvs(e, flip(wrapped, pos))
    elif change == "wrapped cut":
        wrapper = wrapper_tlvs(e, wrapped[:pos % len(wrapped)])
    elif change == "wrapped other secret":
        wrapper = wrapper_tlvs(e, ref_wrap(dict(e, key=e["key"] + 1)))
    elif change == "keyid other":
        wrapper = wrapper_tlvs(dict(e, rsa=other), wrapped)
    elif change == "keyid flip":
        wrapper = ref.tlv(fm.KEYID, ref.tlv(1, flip(keys.keyid(e["rsa"]), pos))) + ref.tlv(fm.HASH_ALG, b"\1") + ref.tlv(fm.WRAPPED_KEY, wrapped)
    elif change == "alg":
        wrapper = ref.tlv(fm.KEYID, ref.tlv(1, keys.keyid(e["rsa"]))) + ref.tlv(fm.HASH_ALG, b"\2") + ref.tlv(fm.WRAPPED_KEY, wrapped)
    elif change == "number":
        w["num"] = (e["num"] + 1 + pos) % (1 << 64)
    elif change == "mode":
        w["mode"] = "CCM" if e["mode"] == "GCM" else "GCM"
    elif change == "bits":
        w["bits"] = 384 - e["bits"]
    elif change == "kdf info":
        k = e["kdf"] or {"alg": 1, "info": None}
        w["kdf"] = dict(k, info=(k["info"] or b"") + case["bytes"])
    elif change == "kdf alg":
        w["kdf"] = {"alg": 1 + pos % 3, "info": None} if e["kdf"] is None else dict(e["kdf"], alg=1 + (e["kdf"]["alg"] + pos % 2) % 3)
    elif change == "nonce flip":
        nonce = flip(nonce, pos)
    elif change == "ct flip":
        ct = flip(ct, pos)
    elif change == "tag flip":
        tag = flip(tag, pos)
    elif change == "drop wrapper":
        wrapper = None
    else:
        kind = "aead"
        wrapper = None
    bad = c09.parse_manifest(c09.manifest_wire(c09.ctx_plain(w, nonce, kind, wrapper), ct, tag))
    r = case["reader"]
    ks = keystore(rsa=RSA if r != "aes" else [], aes=[e, w] if r != "rsa" and change == "number" else [e] if r != "rsa" else [])
    if r != "rsa" and change == "number":
        # the reader has the same key under both numbers
        ks.add_aes_key(tm.aead_params(dict(e, num=w["num"])))
    d = RsaOaepDecryptor(ks)
    if case["primed"]:
        c09.is_plain_manifest(d.decrypt_manifest(c09.parse_manifest(good)), spec, "the good manifest, before")
    must_raise(Exception, lambda: d.decrypt_manifest(bad), "decrypting (%s changed)" % change)
    must_raise(Exception, lambda: d.decrypt_node(bad.security_ctx(), bad.node(), bad.auth_tag()), "decrypting the node (%s changed)" % change)
    if change != "wrapped other secret" or case["primed"] or r != "rsa":
        c09.is_plain_manifest(d.decrypt_manifest(c09.parse_manifest(good)), spec, "the good manifest, afterwards")
    ctx.label(change, r, "primed" if case["primed"] else "fresh")
    ctx.nontrivial()


@law(LAWS, 200, lambda tier: st.fixed_dictionaries({"node": fm.node_spec, "rsa": st.sampled_from(RSA), "kdf": st.none() | tm.kdf_aead, "n": st.integers(1, 4)}))
def new_content_keys(case, ctx):
    """An encryptor with a new content key: who has the private key can read it, and no two encryptors have the same key."""
    from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
    from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
    from ccnpy.flic.tlvs.Manifest import Manifest
    ks = keystore(rsa=[case["rsa"]])
    d = RsaOaepDecryptor(ks)
    secrets, numbers = set(), set()
    for _ in range(case["n"]):
        enc_ = RsaOaepEncryptor.create_with_new_content_key(wrapping_key=keys.private(case["rsa"]), kdf_data=fm.kdf_obj(case["kdf"]))
        for wrap in (True, False):
            sec, en, tag = enc_.encrypt(fm.node_obj(case["node"]), include_wrapper=wrap)
            m = Manifest(security_ctx=sec, node=en, auth_tag=tag)
            c09.is_plain_manifest(d.decrypt_manifest(c09.parse_manifest(b(m.serialize()))), case["node"], "decrypted manifest")
            if wrap:
                _, a, w = tm.parse_security(ref.tlvs(b(sec.serialize()))[0][1])
                e = {"num": a["num"], "mode": "GCM", "bits": 256, "kdf": case["kdf"], "rsa": case["rsa"]}
                s = ref_unwrap(e, w["wrapped"])
                require_eq(len(s), 36, "bytes of salt and key")
                secrets.add(s)
                numbers.add(a["num"])
    require_eq(len(secrets), case["n"], "different keys")
    ctx.label("kdf" if case["kdf"] is not None else "no kdf")
    ctx.nontrivial()
