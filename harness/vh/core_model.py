"""Plain-data specs of the core CCNx objects: strategies, constructors (ccnpy) and reference encodings."""
import array
import contextlib
import datetime
import os
import time

from hypothesis import strategies as st

from . import ref

UTC = datetime.timezone.utc

# ------------------------------------------------------------------------------------------ strategies

interesting_ints = st.one_of(
    st.integers(0, 3),
    st.sampled_from([0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0xFFFFFE,
                     0xFFFFFF, 0x1000000, 0x1000001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000,
                     0x100000001, 0xFFFFFFFFFF, 0x10000000000, 0xFFFFFFFFFFFF, 0x1000000000000, (1 << 56) - 1, 1 << 56,
                     (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]),
    st.integers(0, 0xFFFF),
    st.integers(0, 0xFFFFFFFF),
    st.integers(0, (1 << 64) - 1),
    # numbers with zero bytes inside
    st.tuples(st.integers(0, 255), st.integers(0, 7), st.integers(0, 255), st.integers(0, 7)).map(
        lambda t: (t[0] << (8 * t[1])) | (t[2] << (8 * t[3]))),
)

small_bytes = st.one_of(st.binary(max_size=12), st.binary(max_size=70))

text_segment = st.text(alphabet="abcdefghijklmnopqrstuvwxyz0123456789-_ABCé€", min_size=1, max_size=10).map(
    lambda s: s.encode("utf-8"))

name_component = st.one_of(
    st.tuples(st.just("n"), text_segment),
    st.tuples(st.just("n"), st.binary(max_size=9)),
    st.tuples(st.just("n"), text_segment),
    st.tuples(st.just("i"), st.binary(max_size=9)),
    st.tuples(st.just("c"), interesting_ints),
    st.tuples(st.just("m"), interesting_ints),
    st.tuples(st.integers(0, 0xFFFF), st.binary(max_size=9)),
).map(list)

name_spec = st.lists(name_component, max_size=5)
uri_name_spec = st.lists(st.tuples(st.just("n"), st.text(alphabet="abcdefghijklmnopqrstuvwxyz0123456789-_", min_size=1,
                                                         max_size=8).map(str.encode)).map(list), min_size=1, max_size=4)

digest32 = st.one_of(st.binary(min_size=32, max_size=32), st.binary(min_size=32, max_size=32),
                     st.integers(0, 255).map(lambda b: bytes([b]) * 32))
hash_spec = st.one_of(
    st.tuples(st.just(1), digest32),
    st.tuples(st.just(1), digest32),
    st.tuples(st.just(2), st.binary(min_size=64, max_size=64)),
    st.tuples(st.integers(0, 0xFFFF), st.binary(max_size=40)),
).map(list)

ms_spec = st.one_of(
    st.integers(0, 2000),
    st.integers(1_500_000_000_000, 1_900_000_000_000),
    st.integers(0, 253_402_300_799_999),
    st.integers(0, 1 << 48),
)
datetime_ms = st.one_of(st.integers(0, 2000), st.integers(1_500_000_000_000, 1_900_000_000_000),
                        st.integers(0, 253_402_214_400_000))

link_spec = st.fixed_dictionaries({
    "name": st.none() | name_spec,
    "keyid": st.none() | hash_spec,
    "digest": st.none() | hash_spec,
})

blob_spec = st.one_of(
    st.binary(max_size=40),
    st.tuples(st.sampled_from(["shake", "zeros", "periodic"]), st.integers(0, 1 << 30),
              st.one_of(st.integers(0, 300), st.integers(0, 1500), st.sampled_from(
                  [255, 256, 257, 1023, 1024, 1500, 4096, 32767, 32768]))).map(list),
)


def content_spec(big=False):
    sizes = [blob_spec]
    if big:
        sizes.append(st.tuples(st.just("shake"), st.integers(0, 1 << 30),
                               st.integers(60000, 65000)).map(list))
    return st.fixed_dictionaries({
        "name": st.none() | name_spec,
        "expiry": st.none() | ms_spec,
        "ptype": st.none() | st.integers(0, 3) | st.integers(0, 255),
        "payload": st.none() | st.one_of(*sizes),
        "final": st.none() | interesting_ints,
    })


# ---------------------------------------------------------------------------------- specs -> plain values

COMPONENT_TYPES = {"n": ref.T_NAMESEGMENT, "i": ref.T_IPID, "c": ref.T_CHUNK, "m": ref.T_MANIFESTID}


def component_plain(c):
    k, v = c
    t = COMPONENT_TYPES.get(k, k)
    if isinstance(v, int):
        v = ref.varint(v)
    return t, v


def name_plain(spec):
    return None if spec is None else [component_plain(c) for c in spec]


def payload_plain(spec):
    if spec is None or isinstance(spec, bytes):
        return spec
    return ref.blob(*spec)


def link_plain(spec):
    return ref.link_value(name_plain(spec["name"]), spec["keyid"], spec["digest"])


def content_plain(spec):
    return ref.content_object(name_plain(spec["name"]), spec["expiry"], spec["ptype"], payload_plain(spec["payload"]),
                              spec["final"])


# ------------------------------------------------------------------------------------- specs -> ccnpy

def A(b):
    return array.array("B", b)


def name_obj(spec):
    from ccnpy.core.Name import Name, NameComponent
    if spec is None:
        return None
    out = []
    for k, v in spec:
        if k == "n":
            out.append(NameComponent.create_name_segment(v))
        elif k == "i":
            out.append(NameComponent.create_ipid_segment(v))
        elif k == "c":
            out.append(NameComponent.create_chunk_segment(v))
        elif k == "m":
            out.append(NameComponent.create_manifest_id(v))
        else:
            out.append(NameComponent(k, v))
    return Name(out)


def hash_obj(spec):
    from ccnpy.core.HashValue import HashValue
    if spec is None:
        return None
    return HashValue(spec[0], spec[1])


def link_obj(spec):
    from ccnpy.core.Link import Link
    return Link(name=name_obj(spec["name"]), keyid=hash_obj(spec["keyid"]), digest=hash_obj(spec["digest"]))


def dt(ms):
    """An aware datetime, in one of several time zones."""
    t = datetime.datetime(1970, 1, 1, tzinfo=UTC) + datetime.timedelta(milliseconds=ms)
    offset = (0, 330, 0, -480, 0, -1)[ms // 10 % 6]
    if 90_000_000 < ms < 253_402_000_000_000:
        t = t.astimezone(datetime.timezone(datetime.timedelta(minutes=offset)))
    return t


zone_names = st.sampled_from(["UTC0", "UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "<+14>-14", "<-11>11"])


@contextlib.contextmanager
def time_zone(name):
    """The local time zone of the process."""
    old = os.environ.get("TZ")
    os.environ["TZ"] = name
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def content_obj(spec):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    payload = payload_plain(spec["payload"])
    return ContentObject(
        name=name_obj(spec["name"]),
        payload_type=None if spec["ptype"] is None else PayloadType(spec["ptype"]),
        payload=None if payload is None else Payload(payload),
        expiry_time=None if spec["expiry"] is None else ExpiryTime(spec["expiry"] / 1000.0),
        final_chunk_id=None if spec["final"] is None else FinalChunkId(spec["final"]))


def b(x):
    """bytes of whatever serialize() and value() return"""
    return bytes(bytearray(x))
