"""Cases are plain data (dict / list / tuple / int / float / str / None / bytes).  This module
stores them as JSON, so that a failing case is a self-contained replay file."""
import json


def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {"$b": bytes(v).hex()}
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise TypeError("case data must be plain, got %r" % type(v))


def dec(v):
    if isinstance(v, dict):
        if set(v.keys()) == {"$b"}:
            return bytes.fromhex(v["$b"])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def dumps(case):
    return json.dumps(enc(case), sort_keys=True)


def loads(text):
    return dec(json.loads(text))


def sample(case, limit=400):
    """A short JSON-able rendering of a case, for the evidence file."""
    text = dumps(case)
    if len(text) <= limit:
        return json.loads(text)
    return text[:limit] + "...(%d characters)" % len(text)
