"""C12: a node's address and connection belong to that node only"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check, raw, state

LEVEL = "model_checking"
RULE = ("up to five concurrent senders, address lookups and cancelled senders to up to three nodes, every answer (at once, later, lost, "
        "too late, repeated, incomplete, not found, of another node before, instead or after) to every node solicitation up to "
        "three deviations from a healthy gateway; every answer during startup; histories of up to four messages and nodes leaving and coming back somewhere else; "
        "231 nodes at once, each answered once it is asked for, in permuted orders. Every packet must be on the one connection to the address advertised for its node")

#: How a solicitation can be answered: [(delay, lag, what)]
ANSWERS = {
    "now": [(0, 0, "own")],
    "lag": [(0, 2, "own")],
    "second": [(1, 0, "own")],
    "just in time": [(2.9, 0, "own")],
    "lost": [],
    "too late": [(3.5, 0, "own")],
    "twice": [(0, 0, "own"), (0, 0, "own"), (0.5, 0, "own")],
    "other first": [(0, 0, "other"), (0, 1, "own")],
    "others same time": [(0, 0, "other"), (0, 0, "third"), (0, 0, "own"), (0, 0, "other")],
    "other only": [(0, 0, "other"), (1, 0, "third")],
    "truncated": [(0, 0, "truncated"), (0.1, 0, "own")],
    "truncated only": [(0, 0, "truncated")],
    "not found": [(0, 0, "not found")],
    "obsolete then own": [(0, 0, "obsolete"), (0.2, 0, "own")],
}
INTIME = {"now", "lag", "second", "just in time", "twice", "other first", "others same time", "truncated", "obsolete then own"}


def advert(net, node, what):
    """Bytes of an advertisement"""
    if what == "own":
        return net.advert(node)
    if what == "other":
        return net.advert(node % 4 + 1)
    if what == "third":
        return net.advert((node + 1) % 4 + 1)
    if what == "truncated":
        return net.advert(node)[:12]
    if what == "not found":
        return net.advert(node, validity=2, ip="::")
    return net.advert(node, validity=1, ip="fd00:dead::{:x}".format(node))


async def verify(loop, gw, net, nodes, where):
    """Where everything went, and that everything is right afterwards"""
    for pkt in net.sent:
        if pkt.kind == "zip" and pkt.cmd and pkt.cmd[:2] == b"\x20\x01":
            check(pkt.remote == sim.node_ip(pkt.cmd[2]), "wrong address", "{}: a message to node {} was sent to {}", where,
                  pkt.cmd[2], pkt.remote)
    ear = world.Ear("messageReceived")
    gw.addListener(ear)
    connections = {}
    for node in nodes:
        connections[node] = await gw.connectToNode(node)
        check(await gw.connectToNode(node) is connections[node], "two connections", "{}: node {} has two connections", where, node)
        task = asyncio.ensure_future(gw.sendToNode(node, world.cls("Basic.Set")(value=node)))
        await loop.settle()
        check(state(task) == ("ok", True), "cannot send", "{}: sending to node {}: {}", where, node, state(task))
        pkt = [p for p in net.zips(b"\x20\x01") if p.cmd[2] == node][-1]
        check(pkt.remote == sim.node_ip(node), "wrong address", "{}: node {} at {}", where, node, pkt.remote)
        sockets = net.transports_to(sim.node_ip(node))
        check(len(sockets) == 1, "two connections", "{}: {} sockets to node {}", where, len(sockets), node)
        pkt.transport.deliver(sim.zip_packet(raw("Basic.Report", value=node), 3))
        await loop.settle()
        calls = ear.take()
        check(len(calls) == 1 and calls[0][1] == node, "wrong node", "{}: a message from node {} was reported as {}", where, node, calls)
    check(len({id(c) for c in connections.values()}) == len(connections), "shared connection", "{}", where)
    for transport in loop.transports:
        if transport.remote and transport.remote[0] != sim.GW:
            check(transport.remote[0] in [sim.node_ip(n) for n in nodes], "wrong address", "{}: a socket to {}", where,
                  transport.remote[0])
    check(not loop.errors, "escaped", "{}: {}", where, loop.errors[:1])


async def play_race(loop, ch, ops):
    """ops: [kind, node, start]"""
    gw, net = await world.gateway(loop, nodes=(2, 3, 4))
    answered = {}
    healthy = []

    def hook(pkt):
        if pkt.kind != "inv" or healthy:
            return False
        how = ch.pick(list(ANSWERS), "advert of {}".format(pkt.node))
        answered.setdefault(pkt.node, []).append((loop.time(), how))
        for delay, lag, what in ANSWERS[how]:
            net.deliver(pkt.transport, advert(net, pkt.node, what), delay, lag)
        return True

    net.hook = hook
    tasks = []

    async def start(kind, node, when):
        if when:
            await asyncio.sleep(when)
        if kind == "ip":
            return await gw.ipOfNode(node)
        if kind == "connect":
            return await gw.connectToNode(node)
        return await gw.sendToNode(node, world.cls("Basic.Set")(value=node))

    for kind, node, when in ops:
        tasks.append(world.timed(loop, start(kind, node, when)))
        if kind == "cancelled":
            task = tasks[-1]
            loop.call_later(when + 0.3, task.cancel)
    await asyncio.sleep(60)
    where = "{} answers {}".format(ops, answered)
    for (kind, node, _when), task in zip(ops, tasks):
        got = state(task)
        fates = {how for _t, how in answered.get(node, [])}
        if kind == "cancelled" and got == "cancelled":
            continue
        if got == world.TIMEOUT:
            check(fates - INTIME, "failed", "{}: {} to node {} failed although every advertisement came", where, kind, node)
        elif kind == "ip":
            check(got[0] == "ok" and got[1].compressed == sim.node_ip(node), "wrong address", "{}: address of {} is {}", where, node, got)
        elif kind == "connect":
            check(got[0] == "ok", "failed", "{}: {}", where, got)
        else:
            check(got == ("ok", True), "failed", "{}: {} to node {}: {}", where, kind, node, got)
    healthy.append(True)
    await verify(loop, gw, net, [2, 3, 4], where)
    return [state(t)[0] for t in tasks]


def race(ch, ops):
    """Concurrent operations"""
    return world.run(lambda loop: play_race(loop, ch, ops))


async def play_startup(loop, ch):
    """Answers while starting, and after the next node list"""
    net = sim.Net(loop, nodes=(2, 3, 4))
    answered = {}

    def hook(pkt):
        if pkt.kind != "inv" or pkt.node == 1:
            return False
        how = ch.pick(list(ANSWERS), "advert of {}".format(pkt.node))
        answered.setdefault(pkt.node, []).append(how)
        for delay, lag, what in ANSWERS[how]:
            net.deliver(pkt.transport, advert(net, pkt.node, what), delay, lag)
        return True

    net.hook = hook
    gw, _net = await world.gateway(loop, net=net)
    await asyncio.sleep(10)
    ear = world.Ear("messageReceived", "nodeListUpdated")
    gw.addListener(ear)
    where = str(answered)

    async def heard(must):
        for node in (2, 3, 4):
            net.unsolicited(node, raw("Basic.Set", value=node))
            await loop.settle()
            calls = ear.take()
            if calls or node in must:
                check([(c[0], c[1], int(c[3].value)) for c in calls] == [("messageReceived", node, node)], "wrong node",
                      "{}: node {} was heard as {}", where, node, calls)

    await heard({n for n, hows in answered.items() if set(hows) & INTIME})
    # The addresses that are missing are looked up when the next list comes
    net.hook = None
    net.unsolicited(1, net.nodelist(0))
    await asyncio.sleep(30)
    check(len(ear.take()) == 1, "node list", "{}: the update was not announced once", where)
    await heard({2, 3, 4})
    await verify(loop, gw, net, [2, 3, 4], where)
    return sorted(answered.items())


def startup(ch):
    """Addresses retrieved at startup"""
    return world.run(lambda loop: play_startup(loop, ch))


EVENTS = ["send 2", "send 3", "both", "gone 2", "gone 3", "none", "back", "back moved", "back swapped", "back lost", "back late", "list"]


async def play_again(loop, events):
    """Nodes that leave and come back, with another address"""
    gw, net = await world.gateway(loop, nodes=(2, 3))
    ear = world.Ear("messageReceived")
    gw.addListener(ear)
    places = {2: sim.node_ip(2), 3: sim.node_ip(3)}
    known = dict(places)      # As the gateway was told
    fate = ["now"]
    number = [0]
    where = str(events)

    def hook(pkt):
        if pkt.kind != "inv" or pkt.node not in places:
            return False
        if fate[0] != "lost":
            net.deliver(pkt.transport, net.advert(pkt.node, ip=places[pkt.node]), 2.5 if fate[0] == "late" else 0)
            known[pkt.node] = places[pkt.node]
        return True

    net.hook = hook

    async def update():
        net.unsolicited(1, net.nodelist(0, nodes={1} | present))
        await asyncio.sleep(10)

    async def send(nodes):
        number[0] += 1
        sent = len(net.sent)
        tasks = [(n, asyncio.ensure_future(gw.sendToNode(n, world.cls("Basic.Set")(value=n)))) for n in nodes for _ in range(2)]
        await asyncio.sleep(1)
        for node, task in tasks:
            check(state(task) == ("ok", True), "failed", "{}: node {}: {}", where, node, state(task))
        for node in nodes:
            pkts = [p for p in net.sent[sent:] if p.kind == "zip" and p.cmd == bytes([0x20, 1, node])]
            check([p.remote for p in pkts] == [known[node]] * 2, "wrong address", "{}: node {} at {} was sent {}", where, node, known[node], pkts)
            check(pkts[0].transport is pkts[1].transport, "two connections", "{}: {}", where, pkts)
            ear.take()
            pkts[0].transport.deliver(sim.zip_packet(raw("Basic.Report", value=node), 3, src=5))
            await loop.settle()
            calls = ear.take()
            check([(c[1], c[2]) for c in calls] == [(node, 5)], "wrong node", "{}: a message from node {} was reported as {}", where, node, calls)

    present = {2, 3}
    for event in events:
        what, _, which = event.partition(" ")
        if what in ("send", "both"):
            fate[0] = "now"
            nodes = sorted(present & ({int(which)} if which else {2, 3}))
            # One that came back without being found may still be where it was
            await send([n for n in nodes if known.get(n) == places[n]])
            continue
        if what == "gone":
            present.discard(int(which))
        elif what == "none":
            present.clear()
        elif what == "back":
            back = {2, 3} - present
            for node in back:
                known.pop(node, None)
                if which in ("moved", "lost", "late"):
                    places[node] = "fd00:cccc::{:x}{}".format(node, number[0])
                    number[0] += 1
            if which == "swapped" and len(back) == 2:
                places[2], places[3] = places[3], places[2]
            present.update(back)
            fate[0] = which
        await update()
        fate[0] = "now"
    await update()
    await send(sorted(present))
    # Nobody goes on talking to where a node has been
    for node in present:
        sockets = [t for t in net.transports_to(known[node]) if not t.is_closing()]
        check(len(sockets) == 1, "two connections", "{}: {} sockets to node {}", where, len(sockets), node)
    mark = len(net.sent)
    await asyncio.sleep(60)
    if present == {2, 3}:
        talk = {p.remote for p in net.sent[mark:]}
        check(talk == set(places.values()) | {sim.GW}, "wrong address", "{}: {} instead of {}", where, talk, places)
    check(not loop.errors, "escaped", "{}: {}", where, loop.errors[:1])


def again(ch, first, depth):
    """Nodes that leave and come back"""
    for length in range(depth):
        for rest in itertools.product(EVENTS, repeat=length):
            world.run(lambda loop, events=(EVENTS[first],) + rest: play_again(loop, events))
            ch.case()
    return first


async def play_many(loop, ch, stride, offset, wait):
    """All nodes at once, answered in another order"""
    nodes = list(range(2, 233))
    gw, net = await world.gateway(loop, nodes=())
    net.nodes = set(nodes)
    asked = []

    def hook(pkt):
        if pkt.kind == "inv":
            asked.append(pkt.node)
            return True
        return False

    net.hook = hook
    tasks = [asyncio.ensure_future(gw.sendToNode(n, world.cls("Basic.Set")(value=n))) for n in nodes for _ in range(2)]
    await loop.settle()
    left = [nodes[(offset + i * stride) % len(nodes)] for i in range(len(nodes))]
    while set(left) & set(asked):
        for node in [n for n in left if n in asked]:
            left.remove(node)
            net.gw.deliver(net.advert(node))
            if wait:
                await loop.settle()
        await loop.settle()
    check(not left, "not asked for", "order {} {}: the address of {}", stride, offset, left)
    await asyncio.sleep(0.5)
    missing = [n for n in nodes if net.transports_to(sim.node_ip(n)) == []]
    check(not missing, "lost", "order {} {}: no connection to {}", stride, offset, missing)
    await loop.settle()
    for task in tasks:
        check(state(task) == ("ok", True), "failed", "order {} {}: {}", stride, offset, state(task))
    net.hook = None
    await verify(loop, gw, net, nodes, "all nodes")
    ch.case(len(nodes))
    return (stride, offset)


def many(ch, stride, offset, wait):
    """231 nodes"""
    return world.run(lambda loop: play_many(loop, ch, stride, offset, wait), horizon=10 ** 7)


SCENARIOS = {"race": race, "startup": startup, "many": many, "again": again}
RACES = [
    [["send", 2, 0]],
    [["send", 2, 0], ["send", 2, 0]],
    [["send", 2, 0], ["send", 3, 0]],
    [["send", 2, 0], ["send", 2, 1]],
    [["send", 2, 0], ["ip", 2, 0]],
    [["ip", 2, 0], ["ip", 3, 0], ["ip", 4, 0]],
    [["connect", 2, 0], ["send", 2, 0.5], ["send", 3, 0.5]],
    [["cancelled", 2, 0], ["send", 2, 0], ["send", 3, 0.1]],
    [["send", 2, 0], ["cancelled", 2, 0], ["send", 2, 0.5]],
    [["send", 2, 0], ["send", 2, 0], ["send", 2, 0], ["send", 3, 0]],
    [["send", 2, 0], ["send", 3, 0], ["send", 4, 0]],
    [["send", 2, 0], ["send", 3, 3.2], ["send", 4, 3.4]],
    [["send", 2, 0], ["send", 2, 3.5], ["send", 3, 3.5], ["ip", 4, 1]],
    [["send", 2, 0], ["ip", 2, 2], ["send", 2, 2.95], ["send", 2, 3], ["send", 3, 3]],
]


def jobs(thorough):
    """Races up to the bound"""
    result = [("race", {"ops": ops}, None if len(ops) <= (3 if thorough else 2) else (3 if thorough else 2), 1) for ops in RACES]
    if thorough:
        for ops in itertools.product(("send", "ip", "cancelled"), (2, 3), (0, 0.3, 3.1), repeat=2):
            result.append(("race", {"ops": [list(ops[:3]), list(ops[3:]), ["send", 2, 0.1]]}, 2, 1))
    result.append(("startup", {}, None if thorough else 3, 1))
    result += [("again", {"first": i, "depth": 5 if thorough else 4}, None) for i in range(len(EVENTS))]
    result += [("many", {"stride": s, "offset": o, "wait": w}, None) for s, o in
               ((1, 0), (230, 5), (2, 1), (37, 100), (115, 0)) for w in (False, True)]
    return result
