"""C13: the keystore."""
from hypothesis import strategies as st

from vh import keys
from vh import tree_model as tm
from vh.core_model import A, b
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C13"
RULE = "Cases are histories of additions and lookups; non-trivial = an identifier was added twice, or at least three keys were added; distinct by the case."
ASSUMPTIONS = []
LAWS = []
RSA = ["rsa1024a", "rsa1024b", "rsa1025a", "rsa1536a"]
number = st.one_of(st.integers(0, 3), st.sampled_from([0, 1, 255, 256, 65536, (1 << 32) - 1, 1 << 32, (1 << 64) - 1]))
name = st.sampled_from(["a", "b", "alice", "", "rsa1024a"])
op = st.one_of(
    st.tuples(st.just("rsa"), name, st.sampled_from(RSA), st.booleans()),
    st.tuples(st.just("aes"), number, st.integers(0, 5), st.sampled_from(["GCM", "CCM"])),
    st.tuples(st.just("look"), st.just(0), st.just(0), st.just(0)),
).map(list)


@law(LAWS, 1500, lambda tier: st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=12 if tier == "quick" else 40)}))
def histories(case, ctx):
    """Every identifier gives the key last added under it, and those under which nothing was added give the documented errors."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.KeyId import KeyId
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore, KeyIdNotFoundError, KeyNumberNotFoundError
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    ks = InsecureKeystore()
    untouched = InsecureKeystore()
    by_name, by_id, by_num = {}, {}, {}
    again = False

    def look():
        for n in ("a", "b", "alice", "", "rsa1024a", "nobody"):
            if n in by_name:
                require(ks.get_rsa(n) is by_name[n], "the key named %r", n)
            else:
                must_raise(KeyIdNotFoundError, lambda: ks.get_rsa(n), "a key named %r" % n)
        for k in RSA + ["rsa2048a"]:
            digest = keys.keyid(k)
            ids = [HashValue.create_sha256(digest), HashValue.create_sha256(A(digest)), KeyId(HashValue.create_sha256(digest)), keys.public(k).keyid()]
            for i in ids:
                if k in by_id:
                    require(ks.get_rsa(i) is by_id[k], "the key with the id of %s", k)
                    if not isinstance(i, KeyId):
                        require(ks.get_rsa_pub_key(i) is by_id[k], "the public key with the id of %s", k)
                else:
                    must_raise(KeyIdNotFoundError, lambda: ks.get_rsa(i), "a key with the id of %s" % k)
                    must_raise(KeyIdNotFoundError, lambda: ks.get_rsa_pub_key(i), "a public key with the id of %s" % k)
        for n in set(by_num) | {0, 1, 2, 3, 255, 256, (1 << 64) - 1}:
            if n in by_num:
                require(ks.get_aes_key(KeyNumber(n)) is by_num[n], "the key with number %d", n)
                require_eq(ks.get_aes_key(KeyNumber(n)).key_number.value(), n, "the number of the key")
            else:
                must_raise(KeyNumberNotFoundError, lambda: ks.get_aes_key(KeyNumber(n)), "a key with number %d" % n)
    for o in case["ops"]:
        if o[0] == "rsa":
            k = keys.private(o[2]) if o[3] else keys.public(o[2])
            again |= o[1] in by_name or o[2] in by_id
            require(ks.add_rsa_key(o[1], k) is ks, "adding a key does not return the keystore")
            by_name[o[1]] = by_id[o[2]] = k
        elif o[0] == "aes":
            p = tm.aead_params({"mode": o[3], "num": o[1], "salt": None, "kdf": None, "kdf_salt": None, "key": o[2], "bits": 128})
            again |= o[1] in by_num
            require(ks.add_aes_key(p) is ks, "adding a key does not return the keystore")
            by_num[o[1]] = p
        else:
            look()
    look()
    # another keystore has nothing to do with it
    for k in by_id:
        must_raise(KeyIdNotFoundError, lambda: untouched.get_rsa(keys.public(k).keyid()), "a key added to another keystore")
    for n in by_num:
        must_raise(KeyNumberNotFoundError, lambda: untouched.get_aes_key(KeyNumber(n)), "a key added to another keystore")
    for e, err in ((None, Exception),):
        must_raise(err, lambda: untouched.add_rsa_key("x", e), "adding no key")
        must_raise(err, lambda: untouched.add_aes_key(e), "adding no key")
    ctx.label("replaced" if again else "no replacement", "keys:%d" % min(8, len(by_name) + len(by_num)))
    ctx.nontrivial(again or len(by_name) + len(by_num) >= 3)


@law(LAWS, 600, lambda tier: st.fixed_dictionaries({"n": st.one_of(st.integers(0, 300), st.integers(0, (1 << 64) - 1)), "form": st.sampled_from(["int", "hex", "dec", "bytes"])}))
def key_numbers(case, ctx):
    """A key number is the same number in every form in which it can be given."""
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    from vh import ref
    from vh import flic_model as fm
    n = case["n"]
    k = KeyNumber({"int": n, "hex": hex(n), "dec": str(n), "bytes": n.to_bytes(8, "big")}[case["form"]])
    require_eq(k.value(), n, "value")
    require_eq(b(k.serialize()), ref.tlv(fm.KEYNUM, ref.varint(n)), "encoding")
    require(k == KeyNumber(n), "equality")
    p = tm.aead_params({"mode": "GCM", "num": n, "salt": None, "kdf": None, "kdf_salt": None, "key": 1, "bits": 128})
    require(p.key_number == k, "number of the parameters")
    require(InsecureKeystore().add_aes_key(p).get_aes_key(k) is p, "lookup")
    ctx.label(case["form"])
    ctx.nontrivial(case["form"] != "int")
