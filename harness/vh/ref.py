"""
Reference wire format, written from RFC 8609, the FLIC draft and the documentation in the repository, and
sharing no code with ccnpy.  Everything here is bytes in, bytes out.
"""
import hashlib
import hmac
import struct


# -- TLV framing

def tlv(t, v):
    v = bytes(v)
    if not 0 <= t <= 0xFFFF or len(v) > 0xFFFF:
        raise OverflowError("does not fit in a TLV")
    return struct.pack("!HH", t, len(v)) + v


def varint(n):
    """Big endian, in 1, 2, 3, 4 or 8 bytes."""
    for size in (1, 2, 3, 4, 8):
        if n < 1 << (8 * size):
            return n.to_bytes(size, "big")
    raise OverflowError(n)


class Malformed(Exception):
    pass


def tlvs(buf):
    """Splits a buffer in its TLVs: a list of (type, value)."""
    out = []
    i = 0
    while i < len(buf):
        if len(buf) - i < 4:
            raise Malformed("truncated TLV header")
        t, n = struct.unpack_from("!HH", buf, i)
        i += 4
        if len(buf) - i < n:
            raise Malformed("truncated TLV value")
        out.append((t, bytes(buf[i:i + n])))
        i += n
    return out


def find(buf, t):
    for tt, v in tlvs(buf):
        if tt == t:
            return v
    return None


def find_all(buf, t):
    return [v for tt, v in tlvs(buf) if tt == t]


# -- core objects

T_NAME, T_PAYLOAD, T_KEYIDRESTR, T_OBJHASHRESTR = 0x0000, 0x0001, 0x0002, 0x0003
T_PAYLDTYPE, T_EXPIRY, T_FINALCHUNK, T_KEYID = 0x0005, 0x0006, 0x0007, 0x0009
T_PUBLICKEY, T_KEYLINK, T_SIGTIME, T_PAD = 0x000B, 0x000E, 0x000F, 0x0FFE
T_OBJECT, T_VALALG, T_VALPAYLOAD = 0x0002, 0x0003, 0x0004
T_CRC32C, T_RSASHA256 = 0x0002, 0x0004
T_NAMESEGMENT, T_IPID, T_CHUNK, T_MANIFESTID = 0x0001, 0x0002, 0x0005, 0x0010
T_SHA256, T_SHA512 = 1, 2


def hash_value(digest, alg=T_SHA256):
    return tlv(alg, digest)


def name_value(components):
    """components: list of (type, bytes)"""
    return b"".join(tlv(t, v) for t, v in components)


def name(components):
    return tlv(T_NAME, name_value(components))


def link_value(name_components=None, keyid=None, digest=None):
    """keyid and digest: (alg, bytes)"""
    out = b""
    if name_components is not None:
        out += name(name_components)
    if keyid is not None:
        out += tlv(T_KEYIDRESTR, tlv(*keyid))
    if digest is not None:
        out += tlv(T_OBJHASHRESTR, tlv(*digest))
    return out


def content_object(name_components=None, expiry_ms=None, payload_type=None, payload=None, final_chunk=None):
    out = b""
    if name_components is not None:
        out += name(name_components)
    if expiry_ms is not None:
        out += tlv(T_EXPIRY, struct.pack("!Q", expiry_ms))
    if payload_type is not None:
        out += tlv(T_PAYLDTYPE, bytes([payload_type]))
    if payload is not None:
        out += tlv(T_PAYLOAD, payload)
    if final_chunk is not None:
        out += tlv(T_FINALCHUNK, varint(final_chunk))
    return tlv(T_OBJECT, out)


def validation_alg_crc():
    return tlv(T_VALALG, tlv(T_CRC32C, b""))


def validation_alg_rsa(keyid=None, public_key_der=None, key_link=None, sigtime_ms=None):
    out = b""
    if keyid is not None:
        out += tlv(T_KEYID, tlv(*keyid))
    if public_key_der is not None:
        out += tlv(T_PUBLICKEY, public_key_der)
    if key_link is not None:
        out += tlv(T_KEYLINK, key_link)
    if sigtime_ms is not None:
        out += tlv(T_SIGTIME, struct.pack("!Q", sigtime_ms))
    return tlv(T_VALALG, tlv(T_RSASHA256, out))


def packet(body, valalg=None, valpayload=None, packet_type=1, fields=(0, 0, 0), version=1):
    msg = body
    if valalg is not None:
        msg += valalg
    if valpayload is not None:
        msg += tlv(T_VALPAYLOAD, valpayload)
    if 8 + len(msg) > 0xFFFF:
        raise OverflowError("packet too long")
    return struct.pack("!BBHBBBB", version, packet_type, 8 + len(msg), *fields, 8) + msg


def packet_hash(wire):
    """The content object hash of an encoded packet: SHA-256 of everything after the headers."""
    return hashlib.sha256(bytes(wire)[bytes(wire)[7]:]).digest()


# -- CRC32C (Castagnoli), bitwise, RFC 3720 B.4

def crc32c(data):
    crc = 0xFFFFFFFF
    for b in data:
        crc = _CRC[(crc ^ b) & 0xFF] ^ (crc >> 8)
    return crc ^ 0xFFFFFFFF


def _crc_table():
    out = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
        out.append(c)
    return out


_CRC = _crc_table()


# -- HKDF (RFC 5869)

def hkdf(hash_name, ikm, length, info, salt):
    size = hashlib.new(hash_name).digest_size
    prk = hmac.new(salt if salt else b"\0" * size, ikm, hash_name).digest()
    out = t = b""
    i = 1
    while len(out) < length:
        t = hmac.new(prk, t + info + bytes([i]), hash_name).digest()
        out += t
        i += 1
    return out[:length]


# -- deterministic payload data: a pure function of the drawn seed, so that big cases stay small as data

def blob(kind, seed, n):
    if n == 0:
        return b""
    if kind == "zeros":
        return b"\0" * n
    if kind == "periodic":
        unit = hashlib.sha256(b"p%d" % seed).digest()[:1 + seed % 7]
        return (unit * (n // len(unit) + 1))[:n]
    return hashlib.shake_128(b"blob%d" % seed).digest(n)
