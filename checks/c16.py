"""C16: node messages reach only their end point and supervision is answered once"""
import asyncio
import itertools

from mc import sim, wire

from . import world
from .c05 import compare
from .codec import quiet
from .world import check

LEVEL = "model_checking"
RULE = ("an application with three nodes and end points; every source end point and session, every combination of handlers (missing, "
        "accepting, declining, failing, slow; two command class listeners, two node listeners, a waiter) for every kind of command, bare and "
        "supervised, by the unsolicited and by the node connection; every sequence of up to three commands with slow handlers; up to 256 commands from up to 231 nodes at once. The handlers "
        "called and the supervision reports on the wire are compared with a model of the routing")

INFO = {2: [0x20, 0x60, 0x70, 0x6C, 0x59, 0x99], 3: [0x20, 0x70]}
CAPS = {(2, 1): [0x20, 0x70], (2, 2): [0x20]}
NODES = ("2:0", "2:1", "2:2", "3:0")
BASIC, CONFIG = 0x20, 0x70
SUPPORTED = {"2:0": INFO[2], "2:1": CAPS[2, 1], "2:2": CAPS[2, 2], "3:0": INFO[3]}

# What is sent: name (or bytes), values, name of the class level handler, command class
KINDS = {
    "basic": ("Basic.Set", {"value": 0x42}, "onSet", BASIC),
    "report": ("Basic.Report", {"value": 0x17}, "onReport", BASIC),
    "config": ("Configuration.Report", {"parameterNumber": 3, "size": 2, "value": 0x1234}, None, CONFIG),
    "foreign": ("SwitchBinary.Set", {"value": 255}, None, None),
    "unknown class": (b"\x99\x01\x05", None, None, None),
    "unknown command": (b"\x20\x55\x05", None, None, None),
    # The command class fails to use it
    "incomplete": (b"\x70\x06\x03", None, None, None),
    "no groups": (b"\x59\x04", None, None, None),
}
WAITED = {"incomplete": "Configuration.Report", "no groups": "AssociationGrpInfo.GroupInfoReport"}
ACCEPTS = ("yes", "async yes", "slow yes", "one")


class Handler:
    """A handler behaving as told"""

    def __init__(self, log, who, names, how):
        for name in names:
            if how == "missing":
                continue
            setattr(self, name, self._async(log, who, how) if "async" in how or "slow" in how else self._sync(log, who, how))

    @staticmethod
    def _sync(log, who, how):
        def handler(_speaker, *args):
            log.append((who, args))
            if how == "raise":
                raise RuntimeError("handler failed")
            return {"yes": True, "one": 1, "no": False, "none": None}[how]

        return handler

    @staticmethod
    def _async(log, who, how):
        async def handler(_speaker, *args):
            log.append((who, args))
            if how.startswith("slow"):
                await asyncio.sleep(1.5)
            if how.endswith("raise"):
                raise RuntimeError("handler failed")
            return how.endswith("yes")

        return handler


HOW = ("missing", "yes", "one", "no", "none", "raise", "async yes", "async no", "async raise", "slow yes", "slow no", "slow raise")


class Bench:
    """The application and everything listening to it"""

    def __init__(self, loop, app, net):
        self.loop, self.app, self.net = loop, app, net
        self.log = []
        self.told = world.Ear("messageReceived", answer=True)
        app.addListener(self.told)
        self.slots = {}
        # Delegates whose behaviour can change, as listeners can not be removed
        self.delegates = {}
        for nodeId in NODES:
            node = app.nodes[nodeId]
            for key in ("n", "n2"):
                self.delegates[key, nodeId] = Delegate()
                node.addListener(self.delegates[key, nodeId])
            for number in (1, 2):
                self.delegates[number, nodeId] = Delegate()
                node.supported[BASIC].addListener(self.delegates[number, nodeId])
        net.sent.clear()

    def setup(self, nodeId, first="missing", second="missing", nodelevel="missing", another="missing"):
        """The handlers of a node"""
        for key, names, how in ((1, ("onSet", "onReport"), first), (2, ("onSet", "onReport"), second), ("n", ("onMessage",), nodelevel),
                                ("n2", ("onMessage",), another)):
            self.delegates[key, nodeId].target = Handler(self.log, (key, nodeId), names, how)

    def reports(self):
        """The supervision reports sent: [(node address, end point, session, status)]"""
        found = []
        for pkt in self.net.sent:
            if pkt.kind != "zip" or pkt.cmd is None:
                continue
            check(pkt.cmd[:2] == b"\x6c\x02" and len(pkt.cmd) == 5, "stray", "sent {} {}", pkt, pkt.data.hex())
            check(pkt.cmd[2] & 0xC0 == 0, "more updates announced", "sent {}", pkt)
            found.append((pkt.remote, pkt.dst, pkt.cmd[2] & 0x3F, pkt.cmd[3]))
        self.net.sent.clear()
        return found

    def take(self):
        """Handler calls"""
        calls, self.log[:] = list(self.log), []
        return calls


class Delegate:
    """Forwards to a replaceable target"""

    target = None

    def __getattr__(self, name):
        if name.startswith("on"):
            return getattr(self.target, name, None)
        raise AttributeError(name)


def command(kind, session=None):
    """Bytes of the command, supervised if a session is given"""
    name, values = KINDS[kind][:2]
    cmd = wire.encode(name, values) if values is not None else name
    if session is not None:
        cmd = bytes([0x6C, 0x01, session, len(cmd)]) + cmd
    return cmd


def is_message(msg, kind):
    """Is this what was sent?"""
    name, values = KINDS[kind][:2]
    if values is None:
        return msg.hid() == int.from_bytes(name[:2], "big")
    return world.describe(msg) == (name, {f.name: wire.expected(f, values[f.name]) for f in wire.MESSAGES[name].fields if not f.reserved})


def model(nodeId, kind, first, second, nodelevel, waiting, another="missing"):
    """Who is called and was it handled: (handlers, handled)"""
    _name, values, handler, cmdclass = KINDS[kind]
    called = []
    accepted = False
    if kind == "config" and CONFIG in SUPPORTED.get(nodeId, ()):
        return [], True
    if handler and cmdclass in SUPPORTED.get(nodeId, ()):
        called = [n for n, how in ((1, first), (2, second)) if how != "missing"]
        accepted = first in ACCEPTS or second in ACCEPTS
    if accepted or waiting:
        return called, True
    called += [key for key, how in (("n", nodelevel), ("n2", another)) if how != "missing"]
    return called, nodelevel in ACCEPTS or another in ACCEPTS


def send(bench, path, node, endpoint, cmd, ext=None):
    """From a node, by a path"""
    if path == "unsolicited":
        bench.net.unsolicited(node, cmd, seq=77, src=endpoint, ext=ext)
    else:
        bench.net.deliver(bench.net.node(node), sim.zip_packet(cmd, 77, src=endpoint, ext=ext))


async def one(bench, path, node, endpoint, kind, session, first="missing", second="missing", nodelevel="missing", waiter=None, options=None,
              another="missing"):
    """One command with these handlers. waiter is the node that is waiting for it"""
    nodeId = "{}:{}".format(node, endpoint)
    known = nodeId in SUPPORTED
    for other in NODES:
        # Everybody else would accept it
        bench.setup(other, *((first, second, nodelevel, another) if other == nodeId else ("yes", "missing", "yes")))
    waits = {}
    values = KINDS[kind][1]
    if waiter and (values is not None or kind in WAITED):
        for waiting in NODES:
            if waiter in (waiting, "all"):
                waits[waiting] = asyncio.ensure_future(
                    bench.app.nodes[waiting].waitForMessage(world.cls(WAITED.get(kind, KINDS[kind][0])), timeout=30))
    config = {n: dict(bench.app.nodes[n].supported[CONFIG].parameters) for n in NODES if CONFIG in SUPPORTED[n]}
    for nid, params in config.items():
        bench.app.nodes[nid].supported[CONFIG].parameters.clear()
    await bench.loop.settle()
    where = "{} {} {} session={} handlers={} waiter={}".format(path, nodeId, kind, session, (first, second, nodelevel, another), waiter)
    ext = sim.header_ext([sim.option(*o) for o in options]) if options else None
    send(bench, path, node, endpoint, command(kind, session), ext)
    await bench.loop.settle()
    if any(how.startswith("slow") for how in (first, second, nodelevel, another)):
        await asyncio.sleep(5)
    await asyncio.sleep(0.01)
    await bench.loop.settle()
    called, handled = model(nodeId, kind, first, second, nodelevel, nodeId in waits, another) if known else ([], False)
    calls = bench.take()
    want = [(who, nodeId) for who in called]
    check(sorted((c[0] for c in calls), key=str) == sorted(want, key=str), "wrong handlers", "{}: handled by {} instead of {}", where, [c[0] for c in calls], want)
    for who, args in calls:
        check(is_message(args[0], kind), "wrong message", "{}: {} got {}", where, who, args)
        if len(args) > 1 and path == "unsolicited":
            compare(args[1], options or [], where)
    for waiting, task in waits.items():
        if waiting == nodeId:
            check(task.done() and is_message(task.result(), kind), "waiter not served", "{}: {}", where, world.state(task))
        else:
            check(not task.done(), "wrong waiter", "{}: {} was given {}", where, waiting, world.state(task))
            task.cancel()
    for nid in config:
        params = bench.app.nodes[nid].supported[CONFIG].parameters
        wanted = {3: (0x1234, 2)} if kind == "config" and nid == nodeId else {}
        got = {int(n): (p.value, p.size) for n, p in params.items()}
        check(got == wanted, "wrong node's command class", "{}: parameters of {} {} instead of {}", where, nid, got, wanted)
    reports = bench.reports()
    wanted = [(sim.node_ip(node), endpoint, session, 0xFF if handled else 0)] if session is not None and known else []
    check(reports == wanted, "supervision report", "{}: reports (to, end point, session, status) {} instead of {}", where, reports, wanted)
    check(not bench.told.take(), "told the application", where)
    return handled


async def bench_for(loop, connect=True):
    """A fresh one"""
    app, gw, net = await world.application(loop, (2, 3), info=INFO, endpoints={2: 2}, capabilities=CAPS)
    if connect:
        for node in (2, 3):
            await gw.connectToNode(node)
    return Bench(loop, app, net)


async def play_routing(loop, ch, path, kind):
    """All end points and sessions"""
    bench = await bench_for(loop)
    for node, endpoint in itertools.product((2, 3), range(128)):
        for session in (None, endpoint & 63):
            await one(bench, path, node, endpoint, kind, session, "yes", "missing", "no", waiter="all" if endpoint % 2 else None)
            ch.case()
    for session in range(64):
        for (node, endpoint), how in itertools.product(((2, 0), (2, 1), (2, 2), (3, 0)), ("yes", "no")):
            await one(bench, path, node, endpoint, kind, session, how, "missing", how, options=[(1, b"\x00\x00\x05", False)])
            ch.case()
    # The controller is no node
    if path == "unsolicited":
        for endpoint in range(4):
            bench.net.unsolicited(1, command(kind), seq=78, src=endpoint)
            await loop.settle()
            told = bench.told.take()
            if endpoint == 0:
                check(len(told) == 1 and is_message(told[0][1], kind), "controller", "told {}", told)
            check(not bench.take() and not bench.reports(), "controller", "handled by a node")
            ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return kind


def routing(ch, path, kind):
    """All end points and sessions"""
    with quiet():
        return world.run(lambda loop: play_routing(loop, ch, path, kind), horizon=10 ** 8)


async def play_handlers(loop, ch, first, thorough):
    """All handlers"""
    bench = await bench_for(loop)
    outcomes = set()
    for second, nodelevel, waiter in itertools.product(HOW, HOW, (None, "3:0", "2:1", "2:0")):
        if not thorough and sum(how.startswith("slow") for how in (first, second, nodelevel)) > 1:
            continue
        for kind in KINDS:
            if kind not in ("basic", "report") and (first, second) not in (("missing", "missing"), ("yes", "yes"), ("raise", "raise")):
                # Nobody at the command class is asked
                continue
            if kind == "report" and not thorough:
                continue
            for session, path in ((None, "unsolicited"), (5, "connection"), (9, "unsolicited")):
                for node, endpoint in ((2, 1), (2, 0), (3, 0)) if thorough else ((2, 0 if waiter == "2:0" or kind == "no groups" else 1),):
                    outcomes.add((kind, await one(bench, path, node, endpoint, kind, session, first, second, nodelevel, waiter)))
                    ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return sorted(outcomes)


def handlers(ch, first, thorough):
    """All handlers"""
    with quiet():
        return world.run(lambda loop: play_handlers(loop, ch, first, thorough), horizon=10 ** 8)


async def play_listeners(loop, ch, first, thorough):
    """Several listeners at the node"""
    bench = await bench_for(loop)
    outcomes = set()
    for nodelevel, another in itertools.product(HOW, HOW):
        for kind in KINDS:
            if kind != "basic" and not thorough and first not in ("missing", "yes"):
                continue
            for session, path in ((7, "unsolicited"), (8, "connection")) if thorough else ((7, "unsolicited"),):
                for node, endpoint in ((2, 0), (2, 1), (3, 0)) if thorough else ((2, 1),):
                    outcomes.add((kind, await one(bench, path, node, endpoint, kind, session, first, "missing", nodelevel, None, None, another)))
                    ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return sorted(outcomes)


def listeners(ch, first, thorough):
    """Several listeners at the node"""
    with quiet():
        return world.run(lambda loop: play_listeners(loop, ch, first, thorough), horizon=10 ** 8)


EVENTS = [(2, 0, "basic", 1, "slow yes"), (2, 0, "basic", 1, "slow no"), (2, 0, "report", 2, "yes"), (2, 1, "basic", 1, "slow raise"),
          (2, 1, "basic", 3, "yes"), (3, 0, "basic", 1, "async yes"), (3, 0, "basic", None, "slow yes"), (2, 0, "config", 4, None),
          (2, 7, "basic", 5, None), (3, 0, "unknown class", 6, "no"), (2, 2, "unknown command", 7, "no")]


async def sequence(loop, ch, events, connect):
    """Several commands at once"""
    bench = await bench_for(loop, connect)
    wanted_reports, wanted_calls = [], []
    where = str([EVENTS[e] for e, _p in events])
    for number, (event, path) in enumerate(events):
        node, endpoint, kind, session, how = EVENTS[event]
        if not connect:
            path = "unsolicited"
        nodeId = "{}:{}".format(node, endpoint)
        if nodeId in SUPPORTED:
            # The handler at that moment
            bench.setup(nodeId, how or "missing")
            called, handled = model(nodeId, kind, how or "missing", "missing", "missing", False)
            wanted_calls += [(who, nodeId) for who in called]
            if session is not None:
                wanted_reports.append((sim.node_ip(node), endpoint, session, 0xFF if handled else 0))
        send(bench, path, node, endpoint, command(kind, session))
        gap = ch.pick((0, 0.2, 1.5), "gap", free=True) if number + 1 < len(events) else 0
        if gap:
            await asyncio.sleep(gap)
        else:
            await loop.settle()
    await asyncio.sleep(8)
    calls = bench.take()
    check(sorted(map(str, (c[0] for c in calls))) == sorted(map(str, wanted_calls)), "wrong handlers", "{}: {} instead of {}", where, calls,
          wanted_calls)
    reports = bench.reports()
    check(sorted(reports) == sorted(wanted_reports), "supervision report", "{}: {} instead of {}", where, reports, wanted_reports)
    check(not world.errors(loop), "escaped", "{}: {}", where, loop.errors[:1])


def sequences(ch, first, depth, connect):
    """Several commands at once"""
    events = [(first, ch.pick(("unsolicited", "connection"), "path", free=True) if connect else "unsolicited")]
    for _ in range(depth - 1):
        event = ch.choose(len(EVENTS), "event", free=True)
        events.append((event, "unsolicited" if len(events) % 2 else "connection"))
    with quiet():
        return world.run(lambda loop: sequence(loop, ch, events, connect))


async def play_many(loop, ch, count, sessions, how):
    """So many supervised commands from so many nodes while all handlers are busy"""
    app, gw, net = await world.application(loop, range(2, count + 2), info={n: [0x20] for n in range(2, count + 2)})
    log = []
    for node in range(2, count + 2):
        app.nodes["{}:0".format(node)].supported[BASIC].addListener(Handler(log, node, ("onSet",), how))
        await gw.connectToNode(node)
    bench = Bench.__new__(Bench)
    bench.net = net
    told = world.Ear("messageReceived", answer=True)
    app.addListener(told)
    net.sent.clear()
    wanted = []
    for rounds in range(2):
        for node, session in itertools.product(range(2, count + 2), range(sessions)):
            cmd = wire.encode("Basic.Set", {"value": session})
            send(bench, ("unsolicited", "connection")[session + node & 1], node, 0, bytes([0x6C, 0x01, session, len(cmd)]) + cmd)
            wanted.append((sim.node_ip(node), 0, session, 0xFF if how.endswith("yes") else 0))
            ch.case()
        if not rounds:
            await loop.settle()
    await asyncio.sleep(20)
    where = "{} nodes {} sessions {}".format(count, sessions, how)
    calls = sorted((who, int(args[0].value)) for who, args in log)
    want = sorted((n, s) for n in range(2, count + 2) for s in range(sessions) for _ in range(2))
    check(calls == want, "wrong handlers", "{}: {} calls instead of {}", where, len(calls), len(want))
    reports = bench.reports()
    check(sorted(reports) == sorted(wanted), "supervision report", "{}: {} reports instead of {}", where, len(reports), len(wanted))
    check(not told.take() and not loop.errors, "escaped", "{}: {}", where, loop.errors[:1])
    return count, sessions


def many(ch, count, sessions, how):
    """So many supervised commands from so many nodes while all handlers are busy"""
    with quiet():
        return world.run(lambda loop: play_many(loop, ch, count, sessions, how), horizon=10 ** 7)


SCENARIOS = {"many": many, "listeners": listeners, "routing": routing, "handlers": handlers, "sequences": sequences}


def jobs(thorough):
    """By part"""
    result = [("handlers", {"first": how, "thorough": thorough}, None) for how in HOW]
    result += [("listeners", {"first": how, "thorough": thorough}, None) for how in (HOW if thorough else ("missing", "yes", "none", "raise"))]
    result += [("many", {"count": c, "sessions": s, "how": how}, None) for c, s in ((1, 64), (4, 64), (60, 4), (231, 1))
               for how in ("slow yes", "slow no", "slow raise")]
    result += [("routing", {"path": p, "kind": k}, None) for p in ("unsolicited", "connection") for k in KINDS]
    result += [("sequences", {"first": i, "depth": 3 if thorough else 2, "connect": c}, None, 2 if thorough else 0)
               for i in range(len(EVENTS)) for c in (True, False)]
    return result
