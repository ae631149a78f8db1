"""Generators of damaged and of hand-made wire data."""
from hypothesis import strategies as st

from . import ref

# (type, value) trees made of type numbers that mean something somewhere in the format
TYPE_NUMBERS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0x10, 0x11, 0x12, 0x0FFE, 0x0FFF, 0x1234]

soup_leaf = st.tuples(st.sampled_from(TYPE_NUMBERS), st.one_of(
    st.binary(max_size=10), st.just(b""), st.binary(min_size=32, max_size=32).map(lambda d: ref.tlv(1, d)))).map(list)
soup_tree = st.recursive(soup_leaf, lambda kids: st.tuples(
    st.sampled_from(TYPE_NUMBERS), st.lists(kids, max_size=4)).map(list), max_leaves=12)
soup = st.lists(soup_tree, max_size=4)


def soup_bytes(trees):
    out = b""
    for t, v in trees:
        out += ref.tlv(t, soup_bytes(v) if isinstance(v, list) else v)
    return out


mutation = st.one_of(
    st.tuples(st.just("flip"), st.integers(0, 1 << 20), st.integers(0, 7)),
    st.tuples(st.just("set"), st.integers(0, 1 << 20), st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14, 15, 16, 127, 128, 254, 255])),
    st.tuples(st.just("cut"), st.integers(0, 1 << 20), st.integers(0, 0)),
    st.tuples(st.just("drop"), st.integers(0, 1 << 20), st.integers(1, 8)),
    st.tuples(st.just("dup"), st.integers(0, 1 << 20), st.integers(1, 40)),
    st.tuples(st.just("ins"), st.integers(0, 1 << 20), st.binary(min_size=1, max_size=8)),
    st.tuples(st.just("swap"), st.integers(0, 1 << 20), st.integers(0, 1 << 20)),
).map(list)


def apply(buf, muts):
    """Positions are reduced modulo the current length, so that any mutation applies to any buffer."""
    buf = bytearray(buf)
    for kind, pos, arg in muts:
        if not buf:
            break
        i = pos % len(buf)
        if kind == "flip":
            buf[i] ^= 1 << arg
        elif kind == "set":
            buf[i] = arg
        elif kind == "cut":
            del buf[i:]
        elif kind == "drop":
            del buf[i:i + arg]
        elif kind == "dup":
            buf[i:i] = buf[i:i + arg]
        elif kind == "ins":
            buf[i:i] = arg
        elif kind == "swap":
            j = arg % len(buf)
            buf[i], buf[j] = buf[j], buf[i]
    return bytes(buf)
