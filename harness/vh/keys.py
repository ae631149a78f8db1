"""RSA keys used by the checks (committed under /verif/harness/keys; throw-away keys, for tests only)."""
import functools
import os

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "keys")
SMALL = ["rsa1024a", "rsa1024b"]
LARGE = ["rsa2048a", "rsa2048b"]
ALL = ["rsa1024a", "rsa1024b", "rsa1025a", "rsa1536a", "rsa2048a", "rsa2048b"]


@functools.lru_cache(None)
def pem(name):
    with open(os.path.join(DIR, name + ".pem"), "rb") as f:
        return f.read()


@functools.lru_cache(None)
def crypto_key(name):
    """The key as an object of the cryptography library, for the reference side."""
    from cryptography.hazmat.primitives import serialization
    return serialization.load_pem_private_key(pem(name), password=None)


@functools.lru_cache(None)
def public_der(name):
    from cryptography.hazmat.primitives import serialization
    return crypto_key(name).public_key().public_bytes(serialization.Encoding.DER,
                                                     serialization.PublicFormat.SubjectPublicKeyInfo)


@functools.lru_cache(None)
def public_pem(name):
    from cryptography.hazmat.primitives import serialization
    return crypto_key(name).public_key().public_bytes(serialization.Encoding.PEM,
                                                     serialization.PublicFormat.SubjectPublicKeyInfo)


@functools.lru_cache(None)
def private(name):
    from ccnpy.crypto.RsaKey import RsaKey
    return RsaKey(pem(name))


@functools.lru_cache(None)
def public(name):
    from ccnpy.crypto.RsaKey import RsaKey
    return RsaKey(public_pem(name))


def keyid(name):
    import hashlib
    return hashlib.sha256(public_der(name)).digest()


def modulus_bits(name):
    return crypto_key(name).key_size
