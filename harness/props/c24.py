"""C24: the network writer."""
import signal
import socket
import threading
import time

from hypothesis import strategies as st

from props.c23 import make, packet
from vh import tree_model as tm
from vh.core_model import b
from vh.engine import HarnessError, law, must_raise, require, require_eq

PROPERTY = "C24"
RULE = ("Cases are packets put through a loopback connection to a receiver with its own pace; non-trivial = at least three packets, one of them "
        "put twice or larger than the receiver's reads; distinct by the case.")
ASSUMPTIONS = ["The loopback network works; the receiver reads to the end of the stream."]
LAWS = []

big = st.fixed_dictionaries({"name": st.none(), "expiry": st.none(), "ptype": st.just(0), "final": st.none(), "sig": st.sampled_from([None, "crc"]),
                             "payload": st.tuples(st.just("shake"), st.integers(0, 100), st.sampled_from([4096, 16384, 60000, 65000])).map(list)})


class Receiver(threading.Thread):
    def __init__(self, sizes, buffer, pause=0, port=0):
        super().__init__(daemon=True)
        self.server = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if buffer is not None:
            self.server.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, buffer)
        if port:
            self.server.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.server.bind(("127.0.0.1", port))
        self.server.listen(4)
        self.server.settimeout(20)
        self.port = self.server.getsockname()[1]
        self.sizes = sizes
        self.pause = pause
        self.streams = []
        self.error = None
        self.connections = 1

    def run(self):
        try:
            for _ in range(self.connections):
                conn, _ = self.server.accept()
                conn.settimeout(20)
                data, i = [], 0
                while True:
                    x = conn.recv(self.sizes[i % len(self.sizes)])
                    i += 1
                    if self.pause and i % 4 == 0:
                        time.sleep(self.pause)
                    if not x:
                        break
                    data.append(x)
                conn.close()
                self.streams.append(b"".join(data))
        except OSError as e:
            self.error = e
        finally:
            self.server.close()


@law(LAWS, 1200, lambda tier: st.fixed_dictionaries({
    "packets": st.lists(st.one_of(packet, packet, packet, big), min_size=1, max_size=6),
    "order": st.lists(st.one_of(st.lists(st.integers(0, 5), min_size=3, max_size=25), st.lists(st.integers(0, 5), min_size=3, max_size=25), st.lists(st.integers(0, 5), max_size=25)), min_size=1, max_size=2),
    "sizes": st.lists(st.sampled_from([100, 777, 4096, 65536]), min_size=1, max_size=3), "buffer": st.none() | st.sampled_from([2048, 16384])}))
def stream(case, ctx):
    """What a receiver gets, up to the end of the connection, is the concatenation of the packets put; of two writers, one after the other."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    made = [make(p) for p in case["packets"]]
    n = len(made)
    rx = Receiver(case["sizes"], case["buffer"])
    rx.connections = len(case["order"])
    rx.start()
    sent = []
    for order in case["order"]:
        w = TreeIO.PacketNetworkWriter("127.0.0.1", rx.port)
        out = []
        for i in order:
            pkt, wire = made[i % n]
            w.put(pkt)
            out.append(wire)
            require_eq(b(pkt.serialize()), wire, "a packet after it was sent")
        w.close()
        w.close()
        if made:
            must_raise(Exception, lambda: w.put(made[0][0]), "putting a packet after the connection was closed")
        sent.append(out)
    rx.join(40)
    if rx.is_alive() or rx.error is not None:
        require(False, "the receiver did not see the end of the connection: %r", rx.error)
    for got, out in zip(rx.streams, sent):
        want = b"".join(out)
        i = 0
        while i < min(len(got), len(want)) and got[i] == want[i]:
            i += 1
        require(got == want, "the stream of %d packets: %d bytes instead of %d, different from byte %d on", len(out), len(got), len(want), i)
    total = max(len(o) for o in sent)
    ctx.label("packets:%d" % min(10, total), "connections:%d" % len(sent))
    ctx.nontrivial(total >= 3 and (len(set(case["order"][0])) < len(case["order"][0]) or
                                   any(len(x) > min(case["sizes"]) for o in sent for x in o)))


@law(LAWS, 120, lambda tier: st.fixed_dictionaries({
    "tree": tm.tree_spec(max_chunks=40, min_chunks=4), "sizes": st.lists(st.sampled_from([100, 777, 4096]), min_size=1, max_size=3)}))
def trees(case, ctx):
    """A tree built through the network writer: the packets received are those of the tree, and make up the data."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    rx = Receiver(case["sizes"], None)
    rx.start()
    w = TreeIO.PacketNetworkWriter("127.0.0.1", rx.port)
    try:
        t = tm.build(case["tree"], writer=w)
    finally:
        w.close()
        rx.join(40)
    if rx.is_alive() or rx.error is not None:
        raise HarnessError("receiver: %r" % rx.error)
    got = rx.streams[0]
    require_eq(len(got), sum(len(x) for x in t.wires), "bytes received")
    wires = []
    while got:
        n = int.from_bytes(got[2:4], "big")
        wires.append(got[:n])
        got = got[n:]
    require_eq(wires, t.wires, "packets received")
    require_eq(tm.walked_data(tm.walk(case["tree"], wires, wires[-1])), t.data, "data")
    ctx.label("packets:%d" % min(50, len(wires) // 10 * 10))
    ctx.nontrivial(len(wires) >= 3)


@law(LAWS, 10, lambda tier: st.fixed_dictionaries({
    "packets": st.lists(big.map(lambda p: dict(p, payload=p["payload"][:2] + [max(60000, p["payload"][2])])), min_size=1, max_size=4),
    "order": st.tuples(st.lists(st.integers(0, 3), min_size=1, max_size=15), st.integers(5, 9)).map(lambda t: t[0] * (t[1] * 15 // len(t[0]))),
    "buffer": st.sampled_from([2048, 16384]), "every_us": st.sampled_from([500, 1000, 3000])}))
def interrupted(case, ctx):
    """
    The stream is whole, too, when the receiver is slow, so that the connection is full, and signals (a timer of the program) arrive
    while a packet is being sent.
    """
    from ccnpy.flic.tree.TreeIO import TreeIO
    made = [make(p) for p in case["packets"]]
    rx = Receiver([16384], case["buffer"], pause=0.002)
    rx.start()
    ticks = []
    old = signal.signal(signal.SIGALRM, lambda *a: ticks.append(1))
    try:
        w = TreeIO.PacketNetworkWriter("127.0.0.1", rx.port)
        out = []
        signal.setitimer(signal.ITIMER_REAL, case["every_us"] / 1e6, case["every_us"] / 1e6)
        try:
            for i in case["order"]:
                pkt, wire = made[i % len(made)]
                w.put(pkt)
                out.append(wire)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            w.close()
    finally:
        signal.signal(signal.SIGALRM, old)
    rx.join(60)
    if rx.is_alive() or rx.error is not None:
        raise HarnessError("receiver: %r" % rx.error)
    want, got = b"".join(out), rx.streams[0]
    require(got == want, "the stream of %d packets: %d bytes instead of %d", len(out), len(got), len(want))
    ctx.label("signals<%d" % (1 << len(ticks).bit_length()), "bytes<2^%d" % len(want).bit_length())
    ctx.nontrivial(len(ticks) > 3 and len(want) > 500000)
