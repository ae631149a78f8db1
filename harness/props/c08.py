"""C08: signing and validating packets."""
from hypothesis import strategies as st

from props import c03
from vh import keys, mutate, ref
from vh.core_model import A, b, content_obj, content_plain, content_spec, datetime_ms, dt, link_obj, link_plain, link_spec
from vh.engine import law, must_raise, require, require_eq

PROPERTY = "C08"
RULE = ("Cases are content, a way to sign it, damage to the signed packet and the keys a reader has; non-trivial = a signed packet that is "
        "damaged, or checked against other keys; distinct by the case.")
ASSUMPTIONS = ["The reference verifier is the one of the cryptography library.",
               "A packet signed with RSA is accepted when the validator was given no keystore at all (documented in the code)."]
LAWS = []
RSA = ["rsa1024a", "rsa1024b", "rsa1025a", "rsa1536a", "rsa2048a"]


def sign_spec():
    return st.one_of(
        st.fixed_dictionaries({"alg": st.just("crc")}),
        st.fixed_dictionaries({"alg": st.just("rsa"), "key": st.sampled_from(RSA), "embed": st.booleans(),
                               "link": st.none() | link_spec, "time": st.none() | datetime_ms, "as_dt": st.booleans()}),
        st.fixed_dictionaries({"alg": st.just("rsa"), "key": st.sampled_from(RSA), "embed": st.booleans(),
                               "link": st.none() | link_spec, "time": st.none() | datetime_ms, "as_dt": st.booleans()}))


def make_signed(case):
    """A signed ccnpy packet."""
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.Packet import Packet
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.crypto.Crc32c import Crc32cSigner
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    body = content_obj(case["co"])
    s = case["sign"]
    if s["alg"] == "crc":
        signer = Crc32cSigner()
        alg = signer.validation_alg()
    else:
        signer = RsaSha256Signer(keys.private(s["key"]))
        t = s["time"]
        if t is not None:
            t = dt(t) if s["as_dt"] else SignatureTime(t / 1000.0)
        alg = signer.validation_alg(include_public_key=s["embed"], key_link=None if s["link"] is None else KeyLink(link_obj(s["link"])),
                                    signature_time=t)
    payload = signer.sign(body.serialize(), alg.serialize())
    return Packet.create_signed_content_object(body, alg, payload)


def rsa_ok(key_name, message, signature):
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    try:
        keys.crypto_key(key_name).public_key().verify(signature, message, padding.PKCS1v15(), hashes.SHA256())
        return True
    except InvalidSignature:
        return False


def verdict(wire, key_names):
    """What a validator has to say about an encoded packet: True, False, or None when it does not have the key."""
    top = ref.tlvs(wire[8:])
    if len(top) == 1:
        return True
    body, alg, val = ref.tlv(*top[0]), ref.tlv(*top[1]), top[2][1]
    (kind, inner), = ref.tlvs(top[1][1])
    if kind == ref.T_CRC32C:
        return val == ref.crc32c(body + alg).to_bytes(4, "big")
    if key_names is None:
        return True
    keyid = ref.find(inner, ref.T_KEYID)
    for k in key_names:
        if keyid is not None and ref.tlv(1, keys.keyid(k)) == keyid:
            return rsa_ok(k, body + alg, val)
    return None


def keystore(key_names, private):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    if key_names is None:
        return None
    ks = InsecureKeystore()
    for k in key_names:
        ks.add_rsa_key(k, keys.private(k) if private else keys.public(k))
    return ks


def validate(pkt, ks):
    """True, False, None like verdict()."""
    from ccnpy.core.PacketValidator import PacketValidator
    from ccnpy.crypto.InsecureKeystore import KeyIdNotFoundError
    try:
        PacketValidator(keystore=ks).validate_packet(pkt)
        return True
    except KeyIdNotFoundError:
        return None
    except ValueError:
        return False


reader_keys = st.one_of(st.just("right"), st.just("right"), st.none(), st.lists(st.sampled_from(RSA), unique=True, max_size=3))


@law(LAWS, 1200, lambda tier: st.fixed_dictionaries({"co": content_spec(), "sign": sign_spec(), "keys": reader_keys, "private": st.booleans()}))
def signing(case, ctx):
    """What a signer signs is in the documented form, the reference verifier accepts it, and so does a validator that has the key."""
    from ccnpy.core.Packet import Packet
    s = case["sign"]
    pkt = make_signed(case)
    wire = b(pkt.serialize())
    body, alg, val = ref.tlvs(wire[8:])
    require_eq(ref.tlv(*body), content_plain(case["co"]), "signed body")
    if s["alg"] == "crc":
        require_eq(ref.tlv(*alg), ref.validation_alg_crc(), "validation algorithm")
    else:
        f = dict(ref.tlvs(ref.tlvs(alg[1])[0][1]))
        time = int.from_bytes(f[ref.T_SIGTIME], "big")
        if s["time"] is not None:
            require_eq(time, s["time"], "signature time")
        require_eq(ref.tlv(*alg), ref.validation_alg_rsa((1, keys.keyid(s["key"])), keys.public_der(s["key"]) if s["embed"] else None,
                                                         None if s["link"] is None else link_plain(s["link"]), time), "validation algorithm")
    names = case["keys"]
    if names == "right":
        names = [s["key"]] if s["alg"] == "rsa" else []
    require_eq(verdict(wire, [s["key"]] if s["alg"] == "rsa" else []), True, "the reference verifier accepts it")
    want = verdict(wire, names)
    ks = keystore(names, case["private"])
    require_eq(validate(pkt, ks), want, "validation of the packet")
    require_eq(validate(Packet.deserialize(A(wire)), ks), want, "validation of the parsed packet")
    ctx.label(s["alg"], "verdict:%s" % want)
    ctx.nontrivial(want is not True or s["alg"] == "rsa")


def tamper_spec(tier):
    return st.fixed_dictionaries({
        "co": content_spec(), "sign": sign_spec(), "keys": reader_keys, "private": st.booleans(),
        "muts": st.lists(mutate.mutation, min_size=1, max_size=3), "part": st.sampled_from(["any", "body", "alg", "val", "val", "name or payload"])})


@law(LAWS, 3200, tamper_spec)
def tampering(case, ctx):
    """A damaged packet that can still be parsed is accepted if and only if the reference verifier accepts its encoding."""
    from ccnpy.core.Packet import Packet
    s = case["sign"]
    wire = b(make_signed(case).serialize())
    top = ref.tlvs(wire[8:])
    part = case["part"]
    if part == "any":
        msg = mutate.apply(wire[8:], case["muts"])
    else:
        i = {"body": 0, "alg": 1, "val": 2, "name or payload": 0}[part]
        t, v = top[i]
        if part == "name or payload":
            inner = ref.tlvs(v)
            inner = [(tt, mutate.apply(vv, case["muts"]) if tt in (ref.T_PAYLOAD, ref.T_EXPIRY) else vv) for tt, vv in inner]
            v = b"".join(ref.tlv(tt, vv) for tt, vv in inner)
        else:
            v = mutate.apply(v, case["muts"])
        msg = b"".join(ref.tlv(*x) for x in top[:i] + [(t, v)] + top[i + 1:])
    if 8 + len(msg) > 65535:
        ctx.exclude("too long")
        return
    bad = wire[:2] + (8 + len(msg)).to_bytes(2, "big") + wire[4:8] + msg
    try:
        pkt = Packet.deserialize(A(bad))
        again = b(pkt.serialize())
    except Exception:
        ctx.label("not parsed")
        return
    names = case["keys"]
    if names == "right":
        names = [s["key"]] if s["alg"] == "rsa" else []
    try:
        want = verdict(again, names)
    except Exception:
        # an encoding the reference does not read (say, no known algorithm): not accepted is all there is to say
        ctx.label("not read by the reference")
        return
    require_eq(validate(pkt, keystore(names, case["private"])), want, "validation of a damaged packet (%s)" % s["alg"])
    ctx.label("%s verdict:%s" % (s["alg"], want), "part:" + part)
    ctx.nontrivial()


@law(LAWS, 800, lambda tier: st.fixed_dictionaries({
    "data": st.one_of(st.binary(max_size=80), st.tuples(st.sampled_from(["shake", "zeros"]), st.integers(0, 1000), st.integers(0, 5000)).map(list)),
    "cuts": st.lists(st.integers(0, 5000), max_size=4), "cuts2": st.lists(st.integers(0, 5000), max_size=4),
    "alg": st.sampled_from(["crc", "rsa"]), "key": st.sampled_from(RSA), "flip": st.integers(0, 1 << 30)}))
def buffers(case, ctx):
    """Signing and verifying do not depend on how the message is divided into buffers; one flipped bit is noticed."""
    from ccnpy.core.ValidationPayload import ValidationPayload
    from ccnpy.crypto.Crc32c import Crc32cSigner, Crc32cVerifier
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer, RsaSha256Verifier
    data = case["data"] if isinstance(case["data"], bytes) else ref.blob(*case["data"])

    def split(cuts, d):
        cuts = sorted(c % (len(d) + 1) for c in cuts)
        out = []
        last = 0
        for c in cuts + [len(d)]:
            out.append(A(d[last:c]))
            last = c
        return out
    if case["alg"] == "crc":
        signer, verifier = Crc32cSigner(), Crc32cVerifier()
        require(signer.keyid() is None, "a CRC has no key id")
    else:
        signer, verifier = RsaSha256Signer(keys.private(case["key"])), RsaSha256Verifier(keys.public(case["key"]))
        require_eq(b(signer.keyid().value()), keys.keyid(case["key"]), "key id of the signer")
    sig = signer.sign(*split(case["cuts"], data))
    if case["alg"] == "crc":
        require_eq(b(sig.payload()), ref.crc32c(data).to_bytes(4, "big"), "CRC32C")
    else:
        require(rsa_ok(case["key"], data, b(sig.payload())), "the reference verifier rejects the signature")
    require(verifier.verify(*split(case["cuts2"], data), validation_payload=sig) is True, "the signature is not accepted")
    require(verifier.verify(*split(case["cuts2"], data), validation_payload=ValidationPayload(A(b(sig.payload())))) is True, "the copied signature is not accepted")
    must_raise(ValueError, lambda: verifier.verify(A(data), validation_payload=None), "verifying without a signature")
    if data:
        i = case["flip"] % (8 * len(data))
        bad = bytearray(data)
        bad[i // 8] ^= 1 << (i % 8)
        require(verifier.verify(*split(case["cuts2"], bytes(bad)), validation_payload=sig) is False, "a flipped bit of the message is not noticed")
    v = bytearray(b(sig.payload()))
    i = case["flip"] % (8 * len(v))
    v[i // 8] ^= 1 << (i % 8)
    require(verifier.verify(A(data), validation_payload=ValidationPayload(A(bytes(v)))) is False, "a flipped bit of the signature is not noticed")
    ctx.label(case["alg"])
    ctx.nontrivial(len(data) > 0)


@law(LAWS, 400, lambda tier: st.fixed_dictionaries({
    "data": st.binary(max_size=40), "byte": st.integers(0, 3), "zeros": st.integers(1, 5), "key": st.sampled_from(RSA),
    "alg": st.sampled_from(["crc", "crc", "rsa"])}))
def padding(case, ctx):
    """A signature with zero bytes added to it or zero bytes taken from it is not a signature any more, also when one of its own
    first or last bytes is zero."""
    from ccnpy.core.ValidationPayload import ValidationPayload
    from ccnpy.crypto.Crc32c import Crc32cSigner, Crc32cVerifier
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer, RsaSha256Verifier
    data = case["data"]
    if case["alg"] == "crc":
        # a message of which this byte of the checksum is zero
        for i in range(20000):
            sig = ref.crc32c(data + i.to_bytes(2, "big")).to_bytes(4, "big")
            if sig[case["byte"]] == 0:
                break
        data += i.to_bytes(2, "big")
        verifier = Crc32cVerifier()
        require_eq(b(Crc32cSigner().sign(A(data)).payload()), sig, "CRC32C")
    else:
        sig = b(RsaSha256Signer(keys.private(case["key"])).sign(A(data)).payload())
        verifier = RsaSha256Verifier(keys.public(case["key"]))
    z = bytes(case["zeros"])
    for what, bad in (("zeros in front", z + sig), ("zeros at the end", sig + z), ("no leading zeros", sig.lstrip(b"\0")),
                      ("no trailing zeros", sig.rstrip(b"\0")), ("first byte missing", sig[1:]), ("last byte missing", sig[:-1]),
                      ("nothing", b""), ("twice", sig + sig)):
        if bad != sig:
            require_eq(verifier.verify(A(data), validation_payload=ValidationPayload(A(bad))), False, "%s signature, %s" % (case["alg"], what))
    require_eq(verifier.verify(A(data), validation_payload=ValidationPayload(A(sig))), True, "%s signature" % case["alg"])
    ctx.label(case["alg"])
    ctx.nontrivial()
