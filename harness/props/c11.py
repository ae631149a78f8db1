"""C11: key derivation."""
import hashlib
import hmac

from hypothesis import strategies as st

from props import c09
from vh import flic_model as fm
from vh import ref
from vh import tree_model as tm
from vh.core_model import A, b
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C11"
RULE = "Cases are inputs of a key derivation; non-trivial = there is a salt or an info, or more than one block of output; distinct by the case."
ASSUMPTIONS = ["The reference HKDF is built on hmac of the standard library, and checked with the vectors of RFC 5869."]
LAWS = []
ALGS = {1: "sha256", 2: "sha384", 3: "sha512"}

opt_bytes = st.one_of(st.none(), st.just(b""), st.binary(min_size=1, max_size=20), st.binary(min_size=60, max_size=200),
                      st.tuples(st.sampled_from([253, 254, 255, 256, 300, 600, 1100]), st.integers(0, 1 << 20)).map(lambda t: ref.blob("shake", t[1], t[0])))
long_info = st.tuples(st.integers(1, 3), opt_bytes).map(lambda t: {"alg": t[0], "info": t[1]})


def kdf_id(n):
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    return KdfAlg(n).identifier()


RFC5869 = [
    (1, "0b" * 22, 42, "f0f1f2f3f4f5f6f7f8f9", "000102030405060708090a0b0c",
     "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865"),
    (1, "".join("%02x" % i for i in range(0x50)), 82, "".join("%02x" % i for i in range(0xb0, 0x100)),
     "".join("%02x" % i for i in range(0x60, 0xb0)),
     "b11e398dc80327a1c8e7f78c596a49344f012eda2d4efad8a050cc4c19afa97c59045a99cac7827271cb41c65e590e09da3275600c2f09b8367793a9aca3db71cc30c58179ec3e87c14c01d5c1f3434f1d87"),
    (1, "0b" * 22, 42, "", "", "8da4e775a563c18f715f802a063c5a31b8a11f5c5ee1879ec3454e5f3c738d2d9d201395faa4b61a96c8"),
]


def vectors(tier):
    for alg, ikm, length, info, salt, want in RFC5869:
        yield {"alg": alg, "key": bytes.fromhex(ikm), "length": length, "info": bytes.fromhex(info), "salt": bytes.fromhex(salt),
               "want": bytes.fromhex(want)}


@law(LAWS, 4000, lambda tier: st.fixed_dictionaries({
    "alg": st.integers(1, 3), "key": st.one_of(st.binary(min_size=16, max_size=16), st.binary(min_size=32, max_size=32), st.binary(max_size=300)),
    "length": st.one_of(st.sampled_from([16, 32]), st.integers(1, 200), st.integers(1, 8160)), "info": opt_bytes, "salt": opt_bytes,
    "want": st.none()}), enumerate_cases=vectors)
def derivation(case, ctx):
    """KDF.derive is HKDF, for every hash function, key, length, info and salt; none is as good as an empty one."""
    from ccnpy.crypto.KDF import KDF
    alg = ALGS[case["alg"]]
    want = ref.hkdf(alg, case["key"], case["length"], case["info"] or b"", case["salt"] or b"")
    if case["want"] is not None:
        require_eq(want, case["want"], "the reference")
    got = KDF.derive(kdf_id=kdf_id(case["alg"]), input_key=case["key"], length=case["length"], info=case["info"], salt=case["salt"])
    require_eq(bytes(got), want, "derived key")
    require_eq(bytes(KDF.derive(kdf_id(case["alg"]), case["key"], case["length"], case["info"], case["salt"])), want, "derived key, again")
    if not case["info"] and not case["salt"]:
        require_eq(bytes(KDF.derive(kdf_id(case["alg"]), case["key"], case["length"])), want, "derived key, with the defaults")
    size = hashlib.new(alg).digest_size
    ctx.label(alg, "blocks:%d" % min(4, -(-case["length"] // size)), "info" if case["info"] else "no info", "salt" if case["salt"] else "no salt")
    ctx.nontrivial(bool(case["info"]) or bool(case["salt"]) or case["length"] > size)


@law(LAWS, 600, lambda tier: st.fixed_dictionaries({"alg": st.integers(1, 3), "over": st.integers(0, 3000), "key": st.binary(max_size=40), "odd": st.integers(4, 1 << 16)}))
def limits(case, ctx):
    """255 blocks can be derived and no more; functions that are not known are refused."""
    from ccnpy.crypto.KDF import KDF
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    size = hashlib.new(ALGS[case["alg"]]).digest_size
    n = 255 * size
    require_eq(bytes(KDF.derive(kdf_id(case["alg"]), case["key"], n)), ref.hkdf(ALGS[case["alg"]], case["key"], n, b"", b""), "the longest key")
    must_raise(ValueError, lambda: KDF.derive(kdf_id(case["alg"]), case["key"], n + 1 + case["over"]), "a key that is too long")
    must_raise(Exception, lambda: KDF.derive(KdfAlg(case["odd"]).identifier(), case["key"], 16), "deriving with an unknown function")
    for bad in (None, case["alg"], "HKDF-SHA256"):
        must_raise(Exception, lambda: KDF.derive(bad, case["key"], 16), "deriving with %r" % (bad,))
    ctx.label("alg:%d" % case["alg"])
    ctx.nontrivial()


@law(LAWS, 60, lambda tier: st.fixed_dictionaries({"alg": st.integers(1, 3), "text": st.sampled_from(["upper", "lower", "mixed"])}))
def identifiers(case, ctx):
    """A function is the same by its name, its number and its encoding."""
    from ccnpy.core.Tlv import Tlv
    from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    n = case["alg"]
    name = "HKDF-SHA" + {1: "256", 2: "384", 3: "512"}[n]
    text = {"upper": name, "lower": name.lower(), "mixed": name.title()}[case["text"]]
    i = HpkeKdfIdentifiers.parse(text)
    require(i is kdf_id(n), "%s is %r", text, i)
    require_eq(str(i), name, "name")
    wire = ref.tlv(fm.KDF_ALG, bytes([n]))
    for a in (KdfAlg(n), KdfAlg(i), KdfAlg.parse(Tlv.deserialize(A(wire)))):
        require_eq(b(a.serialize()), wire, "encoding")
        require(a.identifier() is i, "identifier")
    require([KdfAlg.create_hkdf_sha256, KdfAlg.create_hkdf_sha384, KdfAlg.create_hkdf_sha512][n - 1]() == KdfAlg(n), "created by name")
    ctx.label(name)
    ctx.nontrivial(case["text"] != "upper")


@law(LAWS, 1200, lambda tier: st.fixed_dictionaries({
    "node": fm.node_spec, "enc": st.tuples(st.one_of(tm.aead_enc, tm.aead_enc, tm.oaep_enc), st.one_of(tm.kdf_aead, tm.kdf_aead, long_info)).map(lambda t: dict(t[0], kdf=t[1])),
    "wrong": st.sampled_from(["plain key", "no info", "other number", "other mode"])}))
def manifests(case, ctx):
    """
    With a KDF the key of a manifest is the one derived from the content key, with FLIC, key number, mode and KDF info as the info and
    with the KDF salt; it is not the content key, and another number or mode gives another key.
    """
    e, spec = case["enc"], case["node"]
    sec, en, tag = tm.encryptor(e).encrypt(fm.node_obj(spec))
    mode = tm.mode_number(e)
    key = tm.derive(e, c09.kdf_of(e), mode)
    require_eq(len(key), e["bits"] // 8, "bytes of the derived key")
    fixed = b"FLIC" + ref.tlv(fm.KEYNUM, ref.varint(e["num"])) + ref.tlv(fm.AEAD_MODE, bytes([mode]))
    if e["kdf"]["info"] is not None:
        fixed += ref.tlv(fm.KDF_INFO, e["kdf"]["info"])
    # by hand: extract and expand
    alg = ALGS[e["kdf"]["alg"]]
    salt = b"\0" * hashlib.new(alg).digest_size if e["kdf_salt"] is None else e["kdf_salt"].to_bytes(4, "big")
    prk = hmac.new(salt, tm.aes_key(e), alg).digest()
    require_eq(hmac.new(prk, fixed + b"\1", alg).digest()[:len(key)], key, "the reference")
    nonce = b(sec.nonce().value() if e["kind"] == "aead" else sec.aead_data().nonce().value())
    plain = c09.aead(mode, key).decrypt(c09.iv_of(e, nonce), b(en.value()) + b(tag.value()), b(sec.serialize()))
    require_eq(plain, fm.node_value_plain(spec), "decrypted with the derived key")
    w = case["wrong"]
    if w == "plain key":
        bad = tm.aes_key(e)
    elif w == "no info":
        bad = ref.hkdf(alg, tm.aes_key(e), len(key), b"", salt)
    elif w == "other number":
        bad = tm.derive(dict(e, num=(e["num"] + 1) % (1 << 64)), c09.kdf_of(e), mode)
    else:
        bad = tm.derive(e, c09.kdf_of(e), mode % 4 + 1)
    from cryptography.exceptions import InvalidTag
    must_raise(InvalidTag, lambda: c09.aead(mode, bad).decrypt(c09.iv_of(e, nonce), b(en.value()) + b(tag.value()), b(sec.serialize())),
               "decrypting with the wrong key (%s)" % w)
    ctx.label(e["kind"], alg, "info" if e["kdf"]["info"] else "no info", "salt" if e["kdf_salt"] is not None else "no salt")
    ctx.nontrivial(e["kdf"]["info"] is not None or e["kdf_salt"] is not None)


@law(LAWS, 800, lambda tier: st.fixed_dictionaries({
    "node": fm.node_spec, "enc": tm.aead_enc, "kdf": st.none() | tm.kdf_aead, "reader": st.none() | tm.kdf_aead}))
def reader_settings(case, ctx):
    """A reader derives the key as the manifest says, whatever KDF it would use itself: it needs the content key and the salts only."""
    from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
    from ccnpy.flic.tlvs.Manifest import Manifest
    w = dict(case["enc"], kdf=case["kdf"])
    r = dict(case["enc"], kdf=case["reader"])
    sec, en, tag = tm.encryptor(w).encrypt(fm.node_obj(case["node"]))
    m = Manifest.deserialize(Manifest(security_ctx=sec, node=en, auth_tag=tag).serialize())
    got = AeadDecryptor(tm.aead_params(r)).decrypt_manifest(m)
    require_eq(b(got.node().serialize()), fm.node_plain(case["node"]), "decrypted node")
    require_eq(got.is_encrypted(), False, "the decrypted manifest is encrypted")
    ctx.label("manifest: %s" % ("kdf" if w["kdf"] else "no kdf"), "reader: %s" % ("kdf" if r["kdf"] else "no kdf"))
    ctx.nontrivial(w["kdf"] != r["kdf"])
