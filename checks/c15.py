"""C15: applications see every node appear and disappear exactly once"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("every starting list and every sequence of up to three node list updates over three nodes (one of them with end points), arriving "
        "before the startup, one by one, in the same iteration, while the previous one is being handled or while listeners are busy, with a gateway that "
        "answers at once or slowly and with lost node infos, advertisements and first node lists. The announcements are replayed against a model of what "
        "an application knows, and the known nodes are compared with the last list")

INFO = {2: [0x25, 0x86], 3: [0x60, 0x25, 0x20], 4: [0x72, 0xEF, 0x20], 5: [0x60]}
POINTS = {3: 2, 5: 1}
CAPS = {(3, 1): [0x25], (3, 2): [0x20, 0x26], (5, 1): [0x25, 0x85]}
SUBSETS = [frozenset(c) for n in range(4) for c in itertools.combinations((2, 3, 4), n)]
LIMITED = [frozenset(), frozenset({2}), frozenset({3}), frozenset({2, 3}), frozenset({3, 4})]


def names(nodes, lost=()):
    """The names of the nodes and their end points"""
    result = set()
    for node in nodes:
        result.add("{}:0".format(node))
        if node not in lost:
            result |= {"{}:{}".format(node, i + 1) for i in range(POINTS.get(node, 0))}
    return result


class App:
    """An application keeping track of the nodes by the announcements alone"""

    def __init__(self, app, busy):
        self.app, self.busy = app, busy
        self.known = {}
        self.batch = {}
        self.log = []

    async def nodeAdded(self, _sender, node):
        """One node"""
        self.log.append(("added", node.nodeId))
        check(node.nodeId not in self.known, "added twice", "{}", self.log)
        check(self.app.nodes.get(node.nodeId) is node, "added before known", "{}: {}", self.log, list(self.app.nodes))
        self.known[node.nodeId] = node
        if self.busy:
            await asyncio.sleep(self.busy)

    async def nodesAdded(self, _sender, nodes):
        """Several at once"""
        self.log.append(("batch", [n.nodeId for n in nodes]))
        for node in nodes:
            check(node.nodeId not in self.batch, "added twice", "{}", self.log)
            check(self.app.nodes.get(node.nodeId) is node, "added before known", "{}: {}", self.log, list(self.app.nodes))
            self.batch[node.nodeId] = node
        if self.busy:
            await asyncio.sleep(self.busy)

    async def nodeRemoved(self, _sender, node):
        """One node gone"""
        self.log.append(("removed", node))
        check(node in self.known, "removed twice", "{}", self.log)
        del self.known[node]
        if self.busy:
            await asyncio.sleep(self.busy)

    async def nodesRemoved(self, _sender, nodes):
        """Several gone"""
        self.log.append(("batch removed", list(nodes)))
        for node in nodes:
            check(node in self.batch, "removed twice", "{}", self.log)
            del self.batch[node]


class Failing:
    """Fails in every notification"""

    async def nodeAdded(self, _sender, _node):
        """Fails later"""
        await asyncio.sleep(0)
        raise ValueError()

    def nodeRemoved(self, _sender, _node):
        """Fails at once"""
        raise ValueError()

    nodesAdded = nodesRemoved = nodeRemoved


async def case(loop, ch, start, lists, spacing, mode):
    """One history"""
    busy = 0.4 if mode == "busy" else 0
    lost = (3,) if mode == "info lost" else ()
    early = float(mode.split()[1]) if mode.startswith("early") else None  # The first list comes that long before the startup
    slow = mode == "slow" or mode.endswith("slow")
    unlisted = mode == "list lost"  # The list is first known by an update
    net = sim.Net(loop, nodes=start, controller=9 if unlisted else 1)
    net.info.update({n: (True, 4, 0x10, 0x01, bytes(c)) for n, c in INFO.items()})
    net.endpoints.update(POINTS)
    net.capabilities.update({k: (0x10, 0x01, bytes(c)) for k, c in CAPS.items()})

    def hook(pkt):
        if pkt.kind == "inv":
            net.deliver(pkt.transport, net.advert(pkt.node), 0.3 if slow else 0)
            return True
        if pkt.kind == "zip" and pkt.remote == sim.GW and pkt.cmd:
            if unlisted and pkt.cmd[:2] == b"\x52\x01":
                return True
            if pkt.cmd[:2] == b"\x52\x03" and pkt.cmd[4] in lost:
                net.deliver(pkt.transport, sim.ack(pkt.seq))
                return True
            if slow:
                net.default(pkt, 0.3)
                return True
        if mode == "advert lost" and pkt.kind == "inv" and pkt.node == 4:
            return True
        return False

    net.hook = hook
    gw = world.ZIPGateway(sim.GW, b"psk")
    app = world.Application(gw, world.Storage())
    tracker = App(app, busy)
    if mode == "failing":
        app.addListener(Failing())
    app.addListener(tracker)
    await gw.connect()
    if early is not None:
        net.nodes = set(lists[0])
        net.unsolicited(net.controller, net.nodelist(90))
        await asyncio.sleep(early)
    await app.startup()
    where = "from {} through {} ({}, {})".format(sorted(start), [sorted(x) for x in lists], spacing, mode)
    await asyncio.sleep(5 if mode == "plain" else 20)
    kept = {}
    before = set()

    def verify(nodes, position):
        text = "{}, at {}: {}".format(where, position, tracker.log)
        want = names(nodes, lost)
        check(set(app.nodes) == want, "nodes", "{}: known {} instead of {}", text, sorted(app.nodes), sorted(want))
        check(set(tracker.known) == want, "announced", "{}: announced {} instead of {}", text, sorted(tracker.known), sorted(want))
        check(set(tracker.batch) == want, "announced in batch", "{}: {} instead of {}", text, sorted(tracker.batch), sorted(want))
        for name, node in app.nodes.items():
            check(node.nodeId == name and tracker.known[name] is node, "another node", "{}: {}", text, name)
            root, _, point = name.partition(":")
            listed = (CAPS[(int(root), int(point))] if point != "0" else INFO[int(root)]) if int(root) not in lost else []
            listed = listed[:listed.index(0xEF)] if 0xEF in listed else listed
            check(sorted(node.supported) == sorted(listed), "supported", "{}: {} supports {}", text, name, sorted(node.supported))

    before = frozenset() if unlisted else lists[0] if early is not None else start
    verify(before, "start")
    for number, nodes in enumerate(lists[1:] if early is not None else lists):
        kept = dict(app.nodes)
        net.nodes = set(nodes)
        tracker.log.clear() if spacing == "settled" else None
        net.unsolicited(net.controller, net.nodelist(number), lag=number if spacing == "lag" else 0)
        if spacing == "settled":
            await asyncio.sleep(5 if mode in ("plain", "failing") else 20)
            verify(nodes, number)
            added, removed = names(nodes, lost) - names(before, lost), names(before, lost) - names(nodes, lost)
            check(sorted(n for k, n in tracker.log if k == "added") == sorted(added), "announced", "{}: {}", where, tracker.log)
            check(sorted(n for k, n in tracker.log if k == "removed") == sorted(removed), "announced", "{}: {}", where, tracker.log)
            for name in names(nodes & before, lost):
                check(app.nodes[name] is kept[name], "replaced", "{}: {} lost its state", where, name)
            before = nodes
        elif spacing == "apart":
            await asyncio.sleep(0.5)
        elif spacing == "mid":
            await asyncio.sleep(0.1)
    await asyncio.sleep(5 if mode == "plain" else 60)
    verify(lists[-1] if lists else before, "end")
    check(not loop.errors, "escaped", "{}: {}", where, loop.errors[:1])
    ch.case()
    return len(tracker.log)


def histories(ch, start, depth, spacing, mode, full):
    """All histories from a start"""
    subsets = SUBSETS if full else LIMITED
    for length in range(1 if spacing == "settled" else 2, depth + 1):
        for lists in itertools.product(subsets, repeat=length):
            world.run(lambda loop, lists=lists: case(loop, ch, frozenset(start), lists, spacing, mode))
    return (start, depth, spacing, mode)


async def play_many(loop, ch, sizes):
    """Long lists"""
    net = sim.Net(loop, nodes=())
    gw = world.ZIPGateway(sim.GW, b"psk")
    app = world.Application(gw, world.Storage())
    tracker = App(app, 0)
    app.addListener(tracker)
    net.info.update({n: (True, 4, 0x10, 0x01, bytes([0x60, 0x25] if n % 50 == 0 else [0x20])) for n in range(233)})
    net.endpoints.update({n: 127 for n in range(0, 233, 50)})
    await gw.connect()
    await app.startup()
    for first, count in sizes:
        net.nodes = set(range(first, first + count))
        net.unsolicited(1, net.nodelist(0))
        await asyncio.sleep(10)
        want = {"{}:0".format(n) for n in net.nodes if n != 1}
        want |= {"{}:{}".format(n, e) for n in net.nodes if n % 50 == 0 for e in range(1, 128)}
        check(set(app.nodes) == want, "nodes", "known {} instead of {}", sorted(app.nodes), sorted(want))
        check(set(tracker.known) == want, "announced", "announced {} instead of {}", sorted(tracker.known), sorted(want))
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return sizes


def many(ch, sizes):
    """Long lists"""
    return world.run(lambda loop: play_many(loop, ch, sizes), horizon=10 ** 7)


SCENARIOS = {"histories": histories, "many": many}
MODES = ["plain", "slow", "busy", "failing", "info lost", "advert lost", "list lost", "early 0", "early 0.0001", "early 0.5 slow", "early 9"]


def jobs(thorough):
    """By start, spacing and mode"""
    result = [("many", {"sizes": s}, None) for s in ([[2, 231]], [[2, 5], [1, 232], [100, 3], [2, 231]], [[232, 1], [231, 2], [2, 1]])]
    for start in SUBSETS:
        for spacing in ("settled", "same", "lag", "mid", "apart"):
            for mode in MODES:
                if spacing == "settled" and mode in ("slow", "busy") and not thorough:
                    continue
                if mode.startswith("early") and spacing not in ("settled", "lag") and not thorough:
                    continue
                if mode != "plain" and len(start) == 1 and not thorough:
                    continue
                full = thorough or spacing in ("settled", "same") and mode == "plain"
                result.append(("histories", {"start": sorted(start), "depth": 3 if thorough or mode in ("plain", "busy", "slow") else 2,
                                             "spacing": spacing, "mode": mode, "full": full}, None))
    return result
