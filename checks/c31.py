"""C31: connecting and starting always completes and prepares the gateway"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check, raw

from pyzwave.application import Application
from pyzwave.zipgateway import ZIPGateway

LEVEL = "model_checking"
RULE = ("connecting and starting with up to two (thorough: three) deviations from a healthy gateway in the fate of every packet sent (lost, only "
        "acknowledged, only answered, acknowledged after the answer, late, refused, queued) and in the mode reported (every one of the 256 modes "
        "by itself), with no, some and 231 nodes, several controllers, and everything lost. Packets, their order, and what works afterwards are compared with a model of the start")
ASSUMPTIONS = ["the address registered for unsolicited messages is not judged, only the port"]

FATES = ["healthy", "lost", "ack only", "reply only", "reply first", "slow reply", "late reply", "late ack", "nack", "queued", "twice"]
ADVERTS = ["healthy", "lost", "late", "other", "twice"]


def fault(net, ch, mode, faults):
    """The hook that decides what becomes of every packet; the log of (packet, fate)"""
    log = []

    def hook(pkt):
        if pkt.kind == "inv":
            how = "lost" if faults == "all" else ch.pick(ADVERTS, "advert {}".format(pkt.node)) if faults else "healthy"
            log.append((pkt, how))
            pkt.listening = any(t.remote is None for t in net.loop.transports)
            if how != "lost":
                net.deliver(pkt.transport, net.advert(pkt.node % 232 + 1 if how == "other" else pkt.node), 3.2 if how == "late" else 0)
            if how == "twice":
                net.deliver(pkt.transport, net.advert(pkt.node), 1)
            return True
        if pkt.kind != "zip" or pkt.cmd is None or not pkt.ackreq:
            log.append((pkt, "-"))
            return False
        how = "lost" if faults == "all" else ch.pick(FATES, "fate of {}".format(pkt.cmd[:2].hex())) if faults else "healthy"
        pkt.listening = any(t.remote is None for t in net.loop.transports)
        log.append((pkt, how))
        replies = [bytes([0x5F, 0x03, mode])] if pkt.cmd[:2] == b"\x5f\x02" else net.gw_answers(pkt.cmd)

        def answer(delay):
            for reply in replies:
                net.deliver(pkt.transport, sim.zip_packet(reply, 0x90), delay)

        def ack(delay):
            net.deliver(pkt.transport, sim.ack(pkt.seq), delay)

        if how in ("healthy", "ack only", "slow reply", "late reply", "twice"):
            ack(0)
        if how == "reply first":
            answer(0)
            ack(0.5)
        if how == "late ack":
            answer(1)
            ack(3.2)
        if how == "nack":
            net.deliver(pkt.transport, sim.zip_packet(None, pkt.seq, nackres=True))
        if how == "queued":
            net.deliver(pkt.transport, sim.waiting(pkt.seq, 20))
            ack(30)
            answer(31)
        if how in ("healthy", "reply only", "twice"):
            answer(0.1)
        if how == "twice":
            ack(0.2)
            answer(0.3)
        if how == "slow reply":
            answer(2.5)
        if how == "late reply":
            answer(3.5)
        return True

    net.hook = hook
    return log


ARRIVES = ("healthy", "slow reply", "reply first", "reply only", "late ack", "queued", "twice")
SURE = ("healthy", "slow reply", "reply first", "queued", "twice")


async def play(loop, ch, mode, nodes, faults, start, controller=1, ask=True):
    """Connect, and start an application"""
    net = sim.Net(loop, nodes=nodes, controller=controller)
    net.info.update({node: (True, 4, 0x10, 0x01, b"\x20") for node in nodes})
    log = fault(net, ch, mode, faults)
    gw = ZIPGateway(sim.GW, b"psk")
    app = Application(gw, world.Storage()) if start else None
    ear = world.Ear("nodesAdded", "nodeAdded", "nodesRemoved", "nodeRemoved")
    if app:
        app.addListener(ear)

    async def run():
        await gw.connect()
        if app:
            await app.startup()

    task = world.timed(loop, run())
    await asyncio.wait([task], timeout=5000)
    await loop.settle()
    where = "mode {} nodes {}: {}".format(mode, len(nodes), [(p.cmd[:2].hex() if p.cmd else p.node if p.kind == "inv" else p.kind, how)
                                                             for p, how in log][:12])
    check(world.state(task) == ("ok", None), "not connected", "{}: {}", where, task)
    sent = [(p, how) for p, how in log if p.kind in ("zip", "inv")]
    # The mode
    first, how = sent[0]
    check(first.cmd == b"\x5f\x02", "requests", "{}: started with {}", where, first)
    modes = [p.cmd for p, _how in sent[1:] if p.cmd and p.cmd[0] == 0x5F and p.cmd[1] in (1, 2)]
    if how in ARRIVES:
        check(modes == ([b"\x5f\x01\x01"] if mode != 1 else []) or (how not in SURE and not modes), "mode", "{}: sent {}", where, modes)
    else:
        check(not modes, "mode", "{}: sent {}", where, modes)
    # The unsolicited destination
    where_to = [i for i, (p, _how) in enumerate(sent) if p.cmd and p.cmd[:2] == b"\x5f\x08"]
    check(len(where_to) == 1, "destination", "{}: registered {} times", where, len(where_to))
    register = sent[where_to[0]][0]
    check(len(register.cmd) == 20 and register.cmd[18:] == b"\x10\x1b", "destination", "{}: {}", where, register)
    check(register.listening, "not listening", "{}: registered before listening", where)
    check([t.local[1] for t in loop.transports if t.remote is None] == [4123], "not listening", "{}", where)
    check(where_to[0] == 1 + len(modes), "requests", "{}: the destination was registered as packet {}", where, where_to)
    # The node list and the addresses
    lists = [(i, how) for i, (p, how) in enumerate(sent) if p.cmd and p.cmd[:2] == b"\x52\x01"]
    check(lists and lists[0][0] == where_to[0] + 1, "requests", "{}: the node list was asked for as packets {}", where, lists)
    asked = [p.node for p, _how in sent if p.kind == "inv"]
    known = set(nodes) | {controller}
    listed = lists[0][1]
    if listed in SURE:
        check(set(asked) == known and len(asked) == len(known) and len(lists) == 1, "addresses", "{}: asked for {}", where, asked[:9])
    elif listed not in ARRIVES:
        check(not asked, "addresses", "{}: asked for {} before any list", where, asked[:9])
    if app:
        got = any(how in SURE for _i, how in lists)
        names = {"{}:0".format(n) for n in nodes}
        check(set(app.nodes) == names or (not got and not app.nodes), "nodes", "{}: {}", where, sorted(app.nodes))
        calls = before = ear.take()
        check([c[0] for c in calls] == ["nodesAdded"] + ["nodeAdded"] * len(app.nodes), "announced", "{}: {}", where, calls)
        check([n for n in calls[0][1]] == [c[1] for c in calls[1:]] and {n.nodeId for n in calls[0][1]} == set(app.nodes), "announced",
              "{}: {}", where, calls)
    # Unsolicited messages of the nodes with an address
    heard = world.Ear("messageReceived")
    gw.addListener(heard)
    adverts = {p.node: how for p, how in sent if p.kind == "inv"}
    for node in nodes[:3]:
        net.unsolicited(node, raw("Basic.Report", value=node), 5)
        await loop.settle()
        calls = heard.take()
        if adverts.get(node) in ("healthy", "twice"):
            check([c[1] for c in calls] == [node], "unsolicited", "{}: node {}: {}", where, node, calls)
    # From now on nothing is lost
    net.hook = None
    await asyncio.sleep(100)
    del net.sent[:]

    async def listed_now():
        task = world.timed(loop, gw.getNodeList())
        await asyncio.wait([task], timeout=100)
        check(world.state(task) == ("ok", known), "afterwards", "{}: the list is {}", where, world.state(task))
        check(gw.nodeId == controller, "afterwards", "{}: the controller is {}", where, gw.nodeId)

    if ask:
        await listed_now()
    net.deliver(net.listener, sim.zip_packet(net.nodelist(77), 7), 0, 0, (sim.GW, sim.PORT, 0, 0))
    await asyncio.sleep(10)
    heard.take()
    await listed_now()
    for node in nodes[:3]:
        task = world.timed(loop, gw.sendToNode(node, world.cls("Basic.Set")(value=node)))
        await asyncio.wait([task], timeout=100)
        check(world.state(task) == ("ok", True), "afterwards", "{}: sending to node {}: {}", where, node, world.state(task))
        net.unsolicited(node, raw("Basic.Report", value=node), 5)
        await loop.settle()
        calls = heard.take()
        check([c[1] for c in calls] == [node], "afterwards", "{}: node {} is not heard: {}", where, node, calls)
    if app:
        check(set(app.nodes) == {"{}:0".format(n) for n in nodes}, "afterwards", "{}: {}", where, sorted(app.nodes))
        added = [c[1].nodeId for c in before + ear.take() if c[0] == "nodeAdded"]
        check(sorted(added) == sorted(app.nodes), "announced", "{}: {}", where, added)
    check(not loop.errors, "escaped", "{}: {}", where, loop.errors[:1])
    return where


def connect(ch, mode, nodes, start, controller, ask):
    """Faults while connecting; the list may be asked for before it is announced"""
    return world.run(lambda loop: play(loop, ch, mode, nodes, True, start, controller, ask))


def modes(ch, first):
    """Every mode"""
    for mode in range(first, 256, 8):
        world.run(lambda loop, m=mode: play(loop, ch, m, [2], False, False))
        ch.case()
    return first


def sizes(ch, count, faults):
    """Large networks with any controller, and nothing answers at all"""
    for controller in (1, 2, 7, 8, 9, 128, 232) if count < 100 else (1, 9, 232):
        for ask in (True, False):
            nodes = [node for node in range(1, count + 2) if node != controller][:count]
            world.run(lambda loop, c=controller, a=ask, n=nodes: play(loop, ch, 2, n, faults, True, c, a), horizon=10 ** 7)
            ch.case()
    return count


SCENARIOS = {"connect": connect, "modes": modes, "sizes": sizes}


def jobs(thorough):
    """By size and mode"""
    result = [("modes", {"first": first}, None) for first in range(8)]
    result += [("sizes", {"count": count, "faults": faults}, None) for count in (0, 1, 20, 231) for faults in (False, "all")]
    for start in (False, True):
        for mode in (1, 2):
            for nodes in ([], [2], [2, 3], [2, 3, 4]) if thorough else ([], [2], [2, 3]):
                if thorough or not start or len(nodes) == mode:
                    controllers = (1, 2, 232) if thorough else (5,) if start and len(nodes) == 1 else (1,)
                    for controller, ask in itertools.product(controllers, (True, False)):
                        result.append(("connect", {"mode": mode, "nodes": [n + (n >= controller > 1) for n in nodes], "start": start,
                                                   "controller": controller, "ask": ask}, 3 if thorough and controller == 1 else 2))
    return result
