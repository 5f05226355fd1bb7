"""C14: a connection is kept alive every 25 seconds without traffic"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check, raw

LEVEL = "model_checking"
RULE = ("every sequence of up to four steps of a pause (0 to 130 seconds, around the multiples of 25) and an action (commands to the "
        "gateway or either of two nodes, several at once, queued, lost, cancelled; anything received; asking for an address; nothing) on three connections; up to 232 connections used in turn; "
        "the keep-alives of each connection are compared with a timer model at every step")

PAUSES = [0, 0.5, 12, 24.5, 25.5, 49.75, 51, 130.25]
ACTIONS = ["none", "gw", "2", "3", "all", "twice", "lost 2", "queued 2", "cancelled gw", "rx gw", "rx 2", "operation", "address"]
RECEIVED = [
    b"\x23\x03\x40", sim.zip_packet(raw("Basic.Report", value=1), 5), sim.ack(77), sim.waiting(78, 5), b"\x99", b"",
    sim.zip_packet(raw("Basic.Report", value=1), 6, ext=sim.header_ext([sim.option(1, b"\x00\x00\x01")])),
]


class Watch:
    """Timer model of each connection"""

    def __init__(self, loop, net):
        self.loop, self.net = loop, net
        self.due = {}    # transport -> when the next keep-alive must be sent
        net.hook = self.hook
        self.silent = set()
        self.queued = set()

    def add(self, transport, last):
        """Start watching"""
        self.due[transport] = last + 25

    def hook(self, pkt):
        """Something was sent"""
        now = self.loop.time()
        if pkt.transport not in self.due:
            return False
        if pkt.kind == "keepalive":
            check(pkt.data == sim.KEEPALIVE, "not a keep-alive", "{} on {}", pkt.data.hex(), pkt.remote)
            check(abs(now - self.due[pkt.transport]) < 1e-6, "keep-alive", "a keep-alive to {} at {} and not {}", pkt.remote, now,
                  self.due[pkt.transport])
            self.due[pkt.transport] = now + 25
            self.net.deliver(pkt.transport, b"\x23\x03\x40", 0.01)
            return True
        if pkt.kind == "zip":
            check(now < self.due[pkt.transport] + 1e-6, "missing", "no keep-alive to {} at {}", pkt.remote, self.due[pkt.transport])
            self.due[pkt.transport] = now + 25
            if pkt.transport in self.silent:
                return True
            if pkt.transport in self.queued:
                self.net.deliver(pkt.transport, sim.waiting(pkt.seq, 10))
                self.net.deliver(pkt.transport, sim.ack(pkt.seq), 9)
                return True
        return False

    def verify(self, where):
        """None is missing"""
        for transport, due in self.due.items():
            check(due > self.loop.time() - 1e-6, "missing", "{}: no keep-alive to {} at {} (now {})", where, transport.remote, due,
                  self.loop.time())


FEW = (PAUSES[1::2], ["none", "gw", "2", "all", "lost 2", "queued 2", "rx gw", "rx 2", "address"])


async def play(loop, ch, prefix, depth, few):
    """All sequences with a prefix, as one long history"""
    gw, net = await world.gateway(loop, nodes=(2, 3, 4))
    await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
    await gw.sendToNode(3, world.cls("Basic.Set")(value=0))
    watch = Watch(loop, net)
    for pkts in (net.zips(remote=sim.GW), net.zips(remote=sim.node_ip(2)), net.zips(remote=sim.node_ip(3))):
        watch.add(pkts[-1].transport, pkts[-1].time)
    cmd = world.cls("Basic.Set")(value=1)
    done = 0
    background = []

    def start(coro):
        background.append(asyncio.ensure_future(coro))
        return background[-1]

    for rest in itertools.product(itertools.product(*(FEW if few else (PAUSES, ACTIONS))), repeat=depth - 1):
        for pause, action in (prefix,) + rest:
            await asyncio.sleep(pause)
            # Never exactly when a keep-alive is due
            if any(abs(due - loop.time()) < 0.01 for due in watch.due.values()):
                await asyncio.sleep(0.125)
            watch.verify((prefix, rest))
            if action in ("gw", "all", "cancelled gw", "twice"):
                task = start(gw.send(cmd))
                if action == "cancelled gw":
                    await loop.settle()
                    task.cancel()
                elif action == "twice":
                    start(gw.send(cmd))
            if action in ("2", "all", "twice"):
                start(gw.sendToNode(2, cmd))
            if action in ("3", "all"):
                start(gw.sendToNode(3, cmd))
            if action in ("lost 2", "queued 2"):
                (watch.silent if action == "lost 2" else watch.queued).add(net.node(2))
                start(gw.sendToNode(2, cmd))
                await loop.settle()
                watch.silent.clear()
                watch.queued.clear()
            if action == "rx gw":
                for data in RECEIVED:
                    net.gw.deliver(data)
            if action == "rx 2":
                for data in RECEIVED:
                    net.node(2).deliver(data)
                net.unsolicited(2, raw("Basic.Set", value=2), ackreq=True)
            if action == "operation":
                start(gw.getFailedNodeList())
            if action == "address":
                start(gw.ipOfNode(4))
            await loop.settle()
        watch.verify((prefix, rest))
        for task in background:
            if task.done() and not task.cancelled():
                task.result()
        background[:] = [t for t in background if not t.done()]
        net.sent.clear()
        del loop.sent_log[:]
        done += 1
        ch.case()
    await asyncio.sleep(1000)
    watch.verify("the end")
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return (prefix, done)


def histories(ch, prefix, depth, few=False):
    """Histories"""
    return world.run(lambda loop: play(loop, ch, tuple(prefix), depth, few), horizon=10 ** 9)


async def play_connect(loop, ch, sends):
    """From the moment of the connection"""
    net = sim.Net(loop, nodes=(2,))
    net.autoack = True
    conn = world.ZIPConnection(sim.GW, b"psk")
    await asyncio.sleep(3)
    await conn.connect()
    watch = Watch(loop, net)
    watch.add(net.gw, loop.time())
    for pause in sends:
        await asyncio.sleep(pause)
        watch.verify(sends)
        await conn.send(world.cls("Basic.Get")())
    await asyncio.sleep(500)
    watch.verify(sends)
    ch.case()
    return sends


def connect(ch):
    """New connections"""
    for length in range(4):
        for sends in itertools.product((0, 7, 24.5, 26, 74), repeat=length):
            world.run(lambda loop, sends=sends: play_connect(loop, ch, sends))
    return True


async def play_many(loop, ch, count, gap):
    """So many connections, used one after the other"""
    gw, net = await world.gateway(loop, nodes=range(2, count + 2))
    watch = Watch(loop, net)
    watch.add(net.gw, loop.time())
    cmd = world.cls("Basic.Set")(value=1)
    for rounds in range(3):
        for node in range(2, count + 2):
            await gw.sendToNode(node, cmd)
            if not rounds:
                watch.add(net.node(node), net.zips(remote=sim.node_ip(node))[-1].time)
                # Asking for the address was traffic with the gateway
                if rounds == 0 and node == 2:
                    check(len(watch.due) == 2, "harness")
            await asyncio.sleep(gap)
            watch.verify((count, gap, rounds, node))
            ch.case()
        await asyncio.sleep(130.123)
        watch.verify((count, gap, rounds))
        net.sent.clear()
    await asyncio.sleep(1000)
    watch.verify("the end")
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return count, gap


def many(ch, count, gap):
    """So many connections"""
    return world.run(lambda loop: play_many(loop, ch, count, gap), horizon=10 ** 7)


SCENARIOS = {"histories": histories, "connect": connect, "many": many}


def jobs(thorough):
    """By the first step"""
    result = [("connect", {}, None)]
    result += [("many", {"count": c, "gap": g}, None) for c in (range(1, 232, 2) if thorough else (5, 32, 33, 128, 129, 231)) for g in (0.037, 1.003)]
    result += [("histories", {"prefix": [p, a], "depth": 3 if thorough else 2}, None) for p in PAUSES for a in ACTIONS]
    return result + [("histories", {"prefix": [p, a], "depth": 4 if thorough else 3, "few": True}, None)
                     for p in FEW[0] for a in FEW[1]]
