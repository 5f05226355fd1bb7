"""C10: every inbound command is delivered exactly once to whoever it is for"""
import asyncio
import itertools

from mc import sim, wire

from . import world
from .world import check, raw

LEVEL = "model_checking"
RULE = ("every sequence of up to three packets of sixteen kinds (commands, repeated, unknown, with extension and end points, nested, "
        "acks, nacks, waiting responses, keep-alives, empty packets, advertisements) in the same or different event loop iterations "
        "against every set of up to two pending waits, on the gateway and on a node connection, with three listeners; every known "
        "message; commands of every length up to 1440 bytes; every sequence number with every header while "
        "messages of our own are acknowledged, queued or pending. Each "
        "command must complete the pending waits for it or reach every listener once, in order, and be acknowledged if its packet asks for it")

A, B = "Basic.Report", "SwitchBinary.Report"
KINDS = {
    "A": (A, {"value": 1}, {}),
    "A2": (A, {"value": 2}, {"src": 3, "dst": 4}),
    "B": (B, {"value": 3}, {"ext": sim.header_ext([sim.option(1, b"\x00\x00\x05")]), "ackreq": True, "dst": 7}),
    "set": ("Basic.Set", {"value": 4}, {"src": 127, "ackreq": True}),
    "nowait": ("Association.GroupingsGet", {}, {"secure": False, "more": True}),
    "super": ("Supervision.Get", {"statusUpdates": 0, "sessionID": 5, "command": (A, {"value": 9})}, {}),
}
OTHERS = {
    "unknown": lambda: sim.zip_packet(b"\x99\x07\x01", 7),
    "ack": lambda: sim.ack(0x77),
    "ackcmd": lambda: sim.zip_packet(raw(A, value=5), 0x78, ackres=True),
    "nack": lambda: sim.zip_packet(None, 0x79, nackres=True),
    "waiting": lambda: sim.waiting(0x7A, 5),
    "keepalive": lambda: b"\x23\x03\x40",
    "empty": lambda: sim.zip_packet(None, 0x7B),
    "asking": lambda: sim.zip_packet(None, 0x7D, ackreq=True),
    "flag": lambda: sim.zip_packet(None, 0x7C) + raw(A, value=6),
    "nowhere": lambda: b"\x20\x03\x05",
}
ALL = list(KINDS) + list(OTHERS)
WAITS = [(), ("A",), ("B",), ("A", "A"), ("A", "B"), ("super",), ("A", "match")]


class Three:
    """Three listeners: synchronous, failing and asynchronous"""

    def __init__(self, speaker, name):
        self.calls = [[], [], []]
        log = self.calls

        class One:
            pass

        one, two, three = One(), One(), One()
        setattr(one, name, lambda _s, *args: log[0].append(args))

        def failing(_s, *args):
            log[1].append(args)
            raise ValueError("listener")

        setattr(two, name, failing)

        async def slow(_s, *args):
            log[2].append(args)

        setattr(three, name, slow)
        for listener in (one, two, three):
            speaker.addListener(listener)

    def take(self):
        """What each of them heard"""
        calls = [list(c) for c in self.calls]
        for log in self.calls:
            log.clear()
        return calls


def confirmed(net, transport, mark, want, where):
    """The acknowledgements sent since then: one for every command that asked for it (whether an empty packet is answered is left open)"""
    acks = [p for p in net.sent[mark:] if p.kind == "zip" and p.cmd is None and p.seq != 0x7D]
    for pkt in acks:
        check(pkt.transport is transport and pkt.ackres and not pkt.ackreq and not pkt.nackres and pkt.ext is None, "not an ack", "{}: {} {}",
              where, pkt, pkt.data.hex())
    got = [(p.seq, p.src, p.dst) for p in acks]
    check(got == want, "acks", "{}: acknowledgements (seq, from, to) {} instead of {}", where, got, want)


def show(msg):
    """Comparable content of a message or packet"""
    return world.describe(msg)


async def case(loop, conn, target, transport, listeners, waits, kinds, spacing, where):
    """One sequence"""
    tasks = []
    for wait in waits:
        if wait == "match":
            # Only for a value that does not come
            session = conn.addWaitingSession(world.cls(A), lambda m: int(m.value) == 2)
            tasks.append(asyncio.ensure_future(conn.waitForMessage(world.cls(A), timeout=1, session=session)))
        else:
            tasks.append(asyncio.ensure_future(conn.waitForMessage(world.cls(KINDS[wait][0]), timeout=1)))
    await loop.settle()
    results = [None] * len(waits)
    heard, asked, mark = [], [], len(loop.net.sent)
    for number, kind in enumerate(kinds):
        if kind in KINDS:
            name, values, header = KINDS[kind]
            packet = sim.zip_packet(wire.encode(name, values), 0x40 + number, **header)
            if header.get("ackreq"):
                asked.append((0x40 + number, header.get("dst", 0), header.get("src", 0)))
            taken = False
            for i, wait in enumerate(waits):
                if results[i] is None and (KINDS[wait][0] == name if wait != "match" else name == A and values["value"] == 2):
                    results[i] = (name, values)
                    taken = True
            if not taken:
                heard.append(((name, values), header.get("src", 0), 0x40 + number))
        else:
            packet = OTHERS[kind]()
            if kind == "unknown":
                heard.append((("UnknownMessage", {"hid": 0x9907}), 0, 7))
        loop.env(0, 0 if spacing == "same" else number * 3, lambda p=packet: transport.deliver(p))
        if spacing == "settled":
            await loop.settle()
    await loop.settle()
    confirmed(loop.net, transport, mark, asked, where)
    calls = listeners.take()
    for number, log in enumerate(calls):
        got = []
        for args in log:
            if target == "gw":
                (packet,) = args
                check(world.name_of(packet) == "Zip.ZipPacket", "not the packet", "{}: listener got {}", where, packet)
                got.append((show(packet.command), int(packet.sourceEP), int(packet.seqNo)))
            else:
                node, endpoint, msg, _flags = args
                check(node == 2, "wrong node", "{}: from node {}", where, node)
                got.append((show(msg), int(endpoint), None))
        want = heard if target == "gw" else [(m, ep, None) for m, ep, _s in heard]
        check(got == want, "listeners", "{}: listener {} heard {} instead of {}", where, number, got, want)
    for i, task in enumerate(tasks):
        if results[i] is None:
            check(world.state(task) == world.PENDING, "wait ended", "{}: wait {} ended with {}", where, i, world.state(task))
            task.cancel()
        else:
            check(task.done() and not task.exception(), "wait lost", "{}: wait {} is {}", where, i, world.state(task))
            check(show(task.result()) == results[i], "wrong message", "{}: wait {} got {} instead of {}", where, i,
                  show(task.result()), results[i])
    await loop.settle()


async def play(loop, ch, target, waits, first, depth):
    """All sequences starting with a kind"""
    gw, net = await world.gateway(loop)
    loop.net = net
    if target == "gw":
        conn, transport = gw, net.gw
        listeners = Three(gw, "onMessageReceived")
    else:
        await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
        await gw.sendToNode(3, world.cls("Basic.Set")(value=0))
        conn, transport = await gw.connectToNode(2), net.node(2)
        listeners = Three(gw, "messageReceived")
    done = 0
    for length in range(depth):
        for rest in itertools.product(ALL, repeat=length):
            kinds = (ALL[first],) + rest
            for spacing in ("same", "lag", "settled"):
                await case(loop, conn, target, transport, listeners, waits, kinds, spacing,
                           "{} waits {} packets {} {}".format(target, waits, kinds, spacing))
                done += 1
                ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return (target, waits, first, done)


def sequences(ch, target, waits, first, depth):
    """Packet sequences"""
    return world.run(lambda loop: play(loop, ch, target, tuple(waits), first, depth), horizon=10 ** 9, dressed="reserved")


async def every(loop, ch, target):
    """Every known message is given to the listeners or the one waiting for it, and to no other"""
    gw, net = await world.gateway(loop)
    await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
    conn, transport = (gw, net.gw) if target == "gw" else (await gw.connectToNode(2), net.node(2))
    ear = world.Ear("onMessageReceived" if target == "gw" else "messageReceived")
    gw.addListener(ear)
    for number, name in enumerate(wire.MESSAGES):
        spec = wire.MESSAGES[name]
        cmd = wire.encode(name, wire.default_values(name))
        task = asyncio.ensure_future(conn.waitForMessage(spec.load(), timeout=1))
        await loop.settle()
        for other in wire.MESSAGES:
            if wire.MESSAGES[other].head == spec.head or other == "Zip.ZipPacket":
                continue
            transport.deliver(sim.zip_packet(wire.encode(other, wire.default_values(other)), 1))
        await loop.settle()
        check(len(ear.take()) >= len(wire.MESSAGES) - 3, "listeners", "a wait for {} took another message", name)
        check(not task.done(), "wrong message", "{} ended the wait for {}", task, name)
        transport.deliver(sim.zip_packet(cmd, number))
        await loop.settle()
        check(task.done() and type(task.result()) is spec.load(), "wait lost", "{}: {}", name, world.state(task))
        check(not ear.take(), "twice", "{} was also given to the listeners", name)
        transport.deliver(sim.zip_packet(cmd, number))
        await loop.settle()
        calls = ear.take()
        check(len(calls) == 1, "listeners", "{} given {} times", name, len(calls))
        ch.case(len(wire.MESSAGES))
    return target


def messages(ch, target):
    """Every known message"""
    from .codec import quiet  # pylint: disable=import-outside-toplevel

    with quiet():
        return world.run(lambda loop: every(loop, ch, target), horizon=10 ** 8, dressed="reserved")


async def numbers_main(loop, ch, target, waiting):
    """Every sequence number, with messages of our own in every state"""
    conn, transport, listeners = await place(loop, target)
    for rounds in range(5):
        net = loop.net
        held = []

        def hook(pkt):
            if pkt.kind == "zip" and pkt.transport is transport and pkt.cmd is not None and pkt.ackreq:
                held.append(pkt.seq)
                return True
            return False

        net.hook = hook
        # One that is acknowledged, one that is queued and one that is neither
        tasks = [asyncio.ensure_future(conn.send(world.cls("Basic.Set")(value=v), timeout=10 ** 6)) for v in range(3)]
        await loop.settle()
        check(len(held) == 3, "harness", "{}", held)
        transport.deliver(sim.ack(held[0]))
        transport.deliver(sim.waiting(held[1], 10 ** 6))
        await loop.settle()
        check([t.done() for t in tasks] == [True, False, False], "harness", "{}", tasks)
        listeners.take()
        for seq in range(256):
            for number, header in enumerate(HEADERS):
                task = asyncio.ensure_future(conn.waitForMessage(world.cls(A), timeout=10 ** 5)) if waiting else None
                await loop.settle()
                mark = len(net.sent)
                transport.deliver(sim.zip_packet(raw(A, value=number), seq, **header))
                await loop.settle()
                where = "{} sent {} received {} {}".format(target, held, seq, header)
                if seq != 0x7D:
                    confirmed(net, transport, mark, [(seq, header.get("dst", 0), header.get("src", 0))] if "ackreq" in header else [], where)
                calls = listeners.take()
                if waiting:
                    check(task.done() and int(task.result().value) == number, "wait lost", "{}: {}", where, world.state(task))
                    check(calls == [[], [], []], "twice", "{}: {}", where, calls)
                else:
                    check([len(c) for c in calls] == [1, 1, 1], "listeners", "{}: {}", where, calls)
                check([t.done() for t in tasks] == [True, False, False], "confirmed", "{}: {}", where, tasks)
                ch.case()
        for task in tasks[1:]:
            task.cancel()
        net.hook = None
        for _ in range(rounds * 40 + 7):
            await conn.send(world.cls("Basic.Set")(value=9))
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return target


HEADERS = [{}, {"more": True}, {"secure": False}, {"src": 1}, {"dst": 1}, {"src": 127, "dst": 127}, {"ackreq": True, "src": 3, "dst": 126}]


async def place(loop, target):
    """A connection with its listeners"""
    gw, net = await world.gateway(loop)
    loop.net = net
    if target == "gw":
        return gw, net.gw, Three(gw, "onMessageReceived")
    await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
    return await gw.connectToNode(2), net.node(2), Three(gw, "messageReceived")


def numbers(ch, target, waiting):
    """Sequence numbers of what is received have nothing to do with those of what is sent"""
    return world.run(lambda loop: numbers_main(loop, ch, target, waiting), horizon=10 ** 9, dressed="reserved")


LONG = {"Mailbox.Queue": ({"last": 0, "operation": 1, "queueHandle": 3}, "mailboxEntry"),
        "NodeProvisioning.Set": ({"seqNo": 4, "dsk": bytes(range(16))}, "metaDataExtension")}


async def large_main(loop, ch, target, part):
    """Packets of every size"""
    conn, transport, listeners = await place(loop, target)
    wide = [sim.header_ext([sim.option(20 + i, bytes([i]) * 60) for i in range(n)]) for n in range(5)]
    for length in range(part, 1441, 8):
        content = bytes((length + i) & 255 for i in range(length))
        header = {"ext": wide[length // 8 % 5], "src": length & 127}
        for name in LONG:
            values = dict(LONG[name][0], **{LONG[name][1]: content})
            for waiting in (False, True):
                task = asyncio.ensure_future(conn.waitForMessage(world.cls(name), timeout=1)) if waiting else None
                await loop.settle()
                transport.deliver(sim.zip_packet(wire.encode(name, values), 9, **header))
                await loop.settle()
                where = "{} with {} bytes to {}, waiting {}".format(name, length, target, waiting)
                calls = listeners.take()
                check([len(c) for c in calls] == ([0, 0, 0] if waiting else [1, 1, 1]), "twice" if waiting else "listeners", "{}: {}", where,
                      calls)
                if waiting:
                    check(task.done(), "wait lost", where)
                    got = [task.result()]
                else:
                    got = [c[0][0].command if target == "gw" else c[0][2] for c in calls]
                for msg in got:
                    check(world.name_of(msg) == name and bytes(getattr(msg, LONG[name][1])) == content, "wrong message", "{}: {}", where, msg)
                ch.case()
        transport.deliver(sim.zip_packet(b"\x99\x07" + content, 9, **header))
        await loop.settle()
        calls = listeners.take()
        check([len(c) for c in calls] == [1, 1, 1], "listeners", "unknown command of {} bytes: {}", length, calls)
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return target, part


def large(ch, target, part):
    """Packets of every size"""
    return world.run(lambda loop: large_main(loop, ch, target, part), horizon=10 ** 8, dressed="reserved")


SCENARIOS = {"sequences": sequences, "messages": messages, "numbers": numbers, "large": large}


def jobs(thorough):
    """By the first packet"""
    return [("messages", {"target": t}, None) for t in ("gw", "node")] + [
        ("large", {"target": t, "part": p}, None) for t in ("gw", "node") for p in range(8)] + [
        ("numbers", {"target": t, "waiting": w}, None) for t in ("gw", "node") for w in (False, True)] + [
        ("sequences", {"target": target, "waits": waits, "first": first, "depth": 4 if thorough else 3}, None)
        for target in ("gw", "node") for waits in WAITS for first in range(len(ALL))]
