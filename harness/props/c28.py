"""C28: decrypting many manifests with one reader."""
import hashlib

from hypothesis import strategies as st

from props import c09, c10
from vh import flic_model as fm
from vh import keys, ref
from vh import tree_model as tm
from vh.core_model import A, b
from vh.engine import law, require, require_eq

PROPERTY = "C28"
RULE = ("Cases are histories of manifests met and keys learned by one reader; non-trivial = at least two keys are used, one manifest cannot be "
        "decrypted and a later one of the same key can; distinct by the case.")
ASSUMPTIONS = ["A key number stands for one key in a history; the same content key may be wrapped under several RSA keys.",
               "Whether a wrapped key is kept from a manifest that was damaged is left open.",
               "The reference for encryption and wrapping is the cryptography library."]
LAWS = []
RSA = ["rsa1024a", "rsa1024b", "rsa2048a"]
FORMS = ["wrap 0", "wrap 0", "wrap 1", "bare", "bare", "aead"]
VIA = ["cache", "cache", "cache", "node", "oaep", "utils"]


def distinct(specs, bit):
    """Numbers that differ in two bits only, the lowest or others."""
    m = (1 << 64) - 1
    return [dict(e, num=(e["num"] & ~(3 << bit) & m) | i << bit) for i, e in enumerate(specs)]


def alike(specs, num, bit):
    """The same, with numbers that agree in all else."""
    return distinct([dict(e, num=num) for e in specs], bit)


four = st.tuples(tm.aead_enc, tm.aead_enc, tm.oaep_enc, tm.oaep_enc)
key_specs = st.one_of(
    four.map(lambda t: distinct(t, 0)),
    st.tuples(four, st.one_of(st.integers(0, 300), st.integers(0, (1 << 64) - 1)), st.integers(0, 62)).map(lambda t: alike(*t)))
meet = st.fixed_dictionaries({"op": st.just("meet"), "key": st.integers(0, 3), "form": st.sampled_from(FORMS), "via": st.sampled_from(VIA),
                              "node": st.integers(0, 2), "kdf": st.integers(0, 2), "damage": st.sampled_from([None] * 5 + ["ct", "tag"]),
                              "pos": st.integers(0, 1 << 16)})
learn = st.one_of(st.fixed_dictionaries({"op": st.just("aes"), "key": st.integers(0, 3)}),
                  st.fixed_dictionaries({"op": st.just("rsa"), "key": st.integers(0, 2), "public": st.sampled_from([False, False, True])}))
one = st.one_of(meet, meet, meet, learn)


pointers = st.integers(0, 40).map(lambda n: {"data": None, "groups": [{"data": None, "ptrs": [[1, ref.blob("shake", n + i, 32)] for i in range(n % 5)]}]})


def history(tier):
    n = 24 if tier == "quick" else 80
    return st.fixed_dictionaries({
        "keys": key_specs, "kdfs": st.lists(st.none() | tm.kdf_aead, min_size=3, max_size=3), "nodes": st.lists(pointers, min_size=3, max_size=3),
        "start": st.lists(learn, min_size=1, max_size=3), "ops": st.one_of(*[st.lists(one, min_size=k, max_size=n) for k in (0, 6, 10, 15, 20)])})


class Writer:
    """Encrypts, by the reference, the same thing always in the same way."""

    def __init__(self, case):
        self.case = case
        self.made = {}

    def manifest(self, op):
        k = (op["key"], op["form"] if self.case["keys"][op["key"]]["kind"] == "oaep" else "aead", op["node"], op["kdf"])
        if k not in self.made:
            e = dict(self.case["keys"][k[0]])
            if op["kdf"] > 0:
                e["kdf"] = self.case["kdfs"][op["kdf"]]
            wrapper = b""
            kind = "aead" if k[1] == "aead" else "oaep"
            if k[1].startswith("wrap"):
                e["rsa"] = self.rsa(k[0], k[1])
                wrapper = c10.wrapper_tlvs(e, c10.ref_wrap(e))
            nonce = hashlib.sha256(repr(k).encode()).digest()[:12 if e["salt"] is None else 8]
            self.made[k] = c09.ref_encrypt(e, nonce, fm.node_value_plain(self.case["nodes"][k[2]]), kind, wrapper)
        return k[1], self.made[k]

    def rsa(self, key, form):
        mine = RSA.index(self.case["keys"][key]["rsa"]) if self.case["keys"][key]["rsa"] in RSA else 0
        return RSA[(mine + int(form[-1])) % len(RSA)]


class Reader:
    def __init__(self):
        from ccnpy.crypto.InsecureKeystore import InsecureKeystore
        from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
        from ccnpy.flic.tree.DecryptorCache import DecryptorCache
        self.ks = InsecureKeystore()
        self.cache = DecryptorCache(self.ks)
        self.oaep = RsaOaepDecryptor(self.ks)

    def decrypt(self, via, m, form):
        """A manifest or node; or an exception; or None"""
        from ccnpy.apps.packet_utils import decrypt_manifest
        from ccnpy.flic.tlvs.Manifest import Manifest
        if via == "utils":
            return decrypt_manifest(self.ks, m)
        if via == "oaep" and form != "aead":
            return self.oaep.decrypt_manifest(m)
        d = self.cache.get_or_create(m.security_ctx())
        if via == "node":
            node = d.decrypt_node(m.security_ctx(), m.node(), m.auth_tag())
            return None if node is None else Manifest(node=node)
        return d.decrypt_manifest(m)


@law(LAWS, 7000, history)
def histories(case, ctx):
    """
    One keystore, cache of decryptors and unwrapping decryptor, through a history of manifests, good and damaged, and of keys
    learned; each result is what the keys known by then allow, whatever was met before.
    """
    from ccnpy.crypto.RsaKey import RsaKey
    w, r = Writer(case), Reader()
    known, maybe, private = set(), set(), set()
    held = set()
    failed, recovered, used = set(), 0, set()
    for op in case["start"] + case["ops"]:
        if op["op"] == "aes":
            r.ks.add_aes_key(tm.aead_params(case["keys"][op["key"]]))
            known.add(op["key"])
            continue
        if op["op"] == "rsa":
            name = RSA[op["key"]]
            if op["public"]:
                if name in private:
                    continue
                r.ks.add_rsa_key(name, keys.public(name))
            else:
                r.ks.add_rsa_key(name, keys.private(name))
                private.add(name)
            continue
        form, (sec, ct, tag) = w.manifest(op)
        k = op["key"]
        if op["damage"] == "ct" and ct:
            ct = c10.flip(ct, op["pos"])
        elif op["damage"] is not None:
            tag = c10.flip(tag, op["pos"])
        can_unwrap = form.startswith("wrap") and w.rsa(k, form) in private
        m = c09.parse_manifest(c09.manifest_wire(sec, ct, tag))
        before = b(m.serialize())
        error = None
        try:
            got = r.decrypt(op["via"], m, form)
        except Exception as e:
            got, error = None, e
        require_eq(b(m.serialize()), before, "the manifest after decryption")
        what = "manifest under key %d (%s, by %s)" % (k, form, op["via"])
        if op["damage"] is not None:
            require(got is None, "a damaged %s was decrypted", what)
            if can_unwrap:
                maybe.add(k)
            failed.add(k)
        elif k in known or can_unwrap:
            require(got is not None, "%s: not decrypted, with the key: %r", what, error)
            c09.is_plain_manifest(got, case["nodes"][op["node"]], what)
            known.add(k)
            used.add(k)
            recovered += k in failed
        elif k in maybe:
            if got is not None:
                c09.is_plain_manifest(got, case["nodes"][op["node"]], what)
        else:
            require(got is None, "%s: decrypted, without the key", what)
            failed.add(k)
    ctx.label("keys used:%d" % len(used), "recovered:%d" % min(4, recovered))
    ctx.nontrivial(len(used) >= 2 and recovered > 0)
