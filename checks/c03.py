"""C03: a malformed datagram never disturbs the connection or later datagrams"""
import asyncio
import itertools

from mc import report, sim, wire
from mc.explore import Violation

from . import codec, world
from .world import check, raw

import pyzwave.commandclass  # pylint: disable=unused-import
from pyzwave.message import Message

LEVEL = "model_checking"
RULE = ("a case is one malformed datagram delivered on one socket at three moments of a running request (before its ack, between "
        "ack and report, after it), followed by a valid report and a valid unsolicited message that must be handled as always: all "
        "datagrams of up to one byte, of two bytes with every known class, every truncation and one-byte corruptions of "
        "representative datagrams and of every known message inside a packet, bodies failing to decode in every way, packets nested deeply; "
        "floods of them, and every kind of error the network tells, at four moments of a request")
ASSUMPTIONS = ["a datagram is well formed when its Z/IP header is complete, its header extension is consistent and its command decodes",
               "quick: corrupted bytes take nine values; thorough: all 256"]

SOCKETS = ("gw", "node", "listener")
NODES = (2, 3)
CLASSES = [0x20, 0x25, 0x26, 0x31, 0x32, 0x59, 0x5E, 0x60, 0x6C, 0x70, 0x72, 0x80, 0x85, 0x86, 0x87, 0x8E]
BAD_EXTS = [b"\x00", b"\x02\x01", b"\x05\x01\x03\x00\x00", b"\xff\x01\x03\x00\x00\x05", b"\x03\x81\x09", b"\x04\x82\x02\x00",
            b"\x03\x82\x00", b"\x03\x85\x00", b"\x05\x03\x02\x01\x05", b"\x04\x03\x01\x00", b"\x06\x81\x03\x00\x01"]


def base_datagrams():
    """Representative datagrams (name, bytes)"""
    ext = sim.header_ext([sim.option(1, b"\x00\x00\x05"), sim.option(3, b"\x00\x01\x01\x02\x05\x02\x03\x00\x00\x02")])
    encapsulated = sim.zip_packet(raw("Basic.Set", value=7), 77)
    return [
        ("ack", sim.ack(200)),
        ("waiting", sim.waiting(201, 5)),
        ("nack", sim.zip_packet(None, 202, nackres=True)),
        ("keepalive", b"\x23\x03\x40"),
        ("advert", bytes([0x58, 0x01, 0, 3]) + sim.packed(sim.node_ip(3)) + b"\xc0\xff\xee\x01"),
        ("command", sim.zip_packet(raw("Basic.Set", value=5), 203, src=0, dst=0, ext=ext)),
        ("ackreq", sim.zip_packet(raw("Basic.Set", value=5), 204, ackreq=True)),
        ("empty", sim.zip_packet(None, 205, ackreq=True)),
        ("unknown", sim.zip_packet(b"\x99\x01\x02", 206)),
        ("nested", sim.zip_packet(encapsulated, 207)),
        ("nodelist", sim.zip_packet(raw("NetworkManagementProxy.NodeListReport", seqNo=1, status=0, nodeListControllerId=1,
                                        nodes=[1, 2, 3]), 208)),
        ("inverse", b"\x58\x04\x00\x02"),
        ("mdg", sim.zip_packet(raw("Supervision.Get", statusUpdates=0, sessionID=9, command=("Basic.Set", {"value": 1})), 209)),
    ]


def values(full):
    """What a corrupted byte becomes (on top of single bit flips)"""
    return range(256) if full else (0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF)


def corruptions(data, full, upto=None):
    """All truncations and one byte corruptions"""
    seen = {bytes(data)}
    for size in range(len(data)):
        seen.add(bytes(data[:size]))
    for i in range(min(len(data), upto or len(data))):
        for value in list(values(full)) + [data[i] ^ 1, data[i] ^ 0x80]:
            seen.add(bytes(data[:i]) + bytes([value]) + bytes(data[i + 1:]))
    for tail in (b"\x00", b"\xff", b"\xff" * 40):
        seen.add(bytes(data) + tail)
    seen.discard(bytes(data))
    return sorted(seen)


def failing(name, full):
    """Bodies of a command that fail to decode, the first ones of every kind of failure and length"""
    found = {}
    spec = wire.MESSAGES[name]
    for size in range(0, 7 if full else 6):
        for body in itertools.product((0, 1, 5, 255), repeat=size):
            data = bytes(spec.head) + bytes(body)
            try:
                Message.decode(data)
            except Exception as error:  # pylint: disable=broad-except
                found.setdefault((type(error), size), []).append(data)
    return [data for bodies in found.values() for data in bodies[:4] + bodies[-4:]]


def datagrams(group, full):
    """All the datagrams of a group"""
    if group == "deep":
        # Packets in packets, and supervised commands in supervised commands
        for depth in list(range(1, 40)) + [100, 150, 200, 300, 500, 1000, 3000, 9000]:
            data = raw("Basic.Set", value=5)
            supervised = data
            for _ in range(depth):
                data = sim.zip_packet(data, 230)
                if len(supervised) < 250:
                    supervised = b"\x6c\x01\x05" + bytes([len(supervised)]) + supervised
            yield data
            yield sim.zip_packet(supervised, 231)
        return
    if group == "short":
        yield b""
        for a in range(256):
            yield bytes([a])
        for a in sorted({0, 1, 0xF0, 0xFF} | {s.head[0] for s in wire.MESSAGES.values()}):
            for b in range(256):
                yield bytes([a, b])
        return
    if group == "ext":
        for ext in BAD_EXTS:
            for cmd in (None, raw("Basic.Set", value=5)):
                for ackreq in (False, True):
                    yield sim.zip_packet(cmd, 210, ackreq=ackreq, ext=ext)
        return
    if group == "bare":
        # Commands that are not in a packet at all
        for name in wire.MESSAGES:
            yield wire.encode(name, wire.default_values(name))
        return
    kind, _, name = group.partition(":")
    if kind == "base":
        data = dict(base_datagrams())[name]
        yield data
        yield from corruptions(data, full, 14 if name == "nodelist" else None)
        return
    spec = wire.MESSAGES[name]
    for ground in codec.backgrounds(name)[:3 if full else 1]:
        cmd = wire.encode(name, ground)
        for size in range(len(cmd) + 1):
            yield sim.zip_packet(cmd[:size], 220)
        start = len(spec.head)
        for i in range(start, min(len(cmd), start + (40 if full else 12))):
            for value in list(values(full)) + [cmd[i] ^ 1, cmd[i] ^ 0x80]:
                yield sim.zip_packet(cmd[:i] + bytes([value]) + cmd[i + 1:], 221)
        for extra in (b"\x00", b"\xff\xff"):
            yield sim.zip_packet(cmd + extra, 222)
    for cmd in failing(name, full):
        yield sim.zip_packet(cmd, 223)


def classify(data):
    """Reference parser of the outer layer: (kind, seq or node, command)"""
    if data[:2] == b"\x58\x01":
        if len(data) < 20:
            # Listeners may be told about it, but it tells no address
            return ("dubious", None, None)
        return ("advert", data[3], None)
    if data[:2] == b"\x23\x03":
        return ("keepalive", None, None)
    if data[:2] != b"\x23\x02" or len(data) < 7:
        return ("junk", None, None)
    rest = data[7:]
    if data[3] & 0x80:
        if not rest:
            return ("dubious", data[4], None)
        if rest[0] < 1 or rest[0] > len(rest):
            return ("junk", None, None)
        ext, rest = rest[1:rest[0]], rest[rest[0]:]
        while ext:
            if len(ext) == 1:
                # Only the type of an option is there: nothing of it can be lost
                return ("dubious", data[4], None)
            if len(ext) < 2 + ext[1]:
                return ("junk", None, None)
            kind, body, ext = ext[0], ext[2:2 + ext[1]], ext[2 + ext[1]:]
            if kind & 0x80 and kind & 0x7F not in (1, 3, 4):
                return ("junk", None, None)
            if kind & 0x7F == 1 and len(body) < 3:
                return ("dubious", None, None)
            if kind & 0x7F in (3, 4):
                return ("dubious", data[4], None)
    if data[2] & 0x40:
        return ("ack", data[4], None)
    if data[2] & 0x20:
        return ("waiting" if data[2] & 0x10 else "nack", data[4], None)
    return ("packet", data[4], bytes(rest) if data[3] & 0x40 and len(rest) >= 2 else None)


async def play(loop, ch, group, socket, full):
    """All the datagrams of the group, one after another on the same connections"""
    count, known_node = 0, None
    app, gw, net = await world.application(
        loop, NODES, info={2: CLASSES, 3: CLASSES}, endpoints={2: 1}, capabilities={(2, 1): CLASSES[:4]})
    ear = world.Ear("messageReceived", "onMessageReceived")
    await gw.sendToNode(2, world.cls("Basic.Set")(value=1))
    held = []

    def hook(pkt):
        if pkt.kind == "zip" and pkt.cmd == b"\x20\x02" and pkt.remote == sim.node_ip(2):
            held.append(pkt)
            return True
        return False

    net.hook = hook
    gw.addListener(ear)
    nodeear = world.Ear("onMessage")
    targets = {"gw": net.gw, "node": net.node(2), "listener": net.listener}
    known = wire.encode("NetworkManagementProxy.NodeListReport", {"seqNo": 99, "status": 0, "nodeListControllerId": 1,
                                                                  "nodes": [1, 2, 3]})

    async def bad(data, task, where):
        kind, ident, cmd = classify(data)
        ear.take()
        before = len(net.sent)
        targets[socket].deliver(data, (sim.node_ip(2), sim.PORT, 0, 0) if socket == "listener" else None)
        await loop.settle()
        calls = ear.take()
        if kind == "junk":
            check(not calls, "fabricated", "{} {} {}: listeners got {}", data.hex(), socket, where, calls)
            check(len(net.sent) == before, "answered", "{} {} {}: answered {}", data.hex(), socket, where, net.sent[before:])
        check(len(calls) <= 1, "duplicated", "{} {} {}: listeners got {}", data.hex(), socket, where, calls)
        if task is not None and world.state(task) != world.PENDING:
            report_for = b"\x20\x03" in data and socket in ("node", "listener")
            check(report_for and not task.exception(), "completed", "{} {} {}: the request ended with {}", data.hex(), socket,
                  where, world.state(task))
        if socket == "listener" and kind in ("packet", "dubious", "ack", "waiting", "nack"):
            # It may have been a node list
            net.listener.deliver(sim.zip_packet(known, 1), (sim.GW, sim.PORT, 0, 0))
            await loop.settle()

    for n, data in enumerate(datagrams(group, full)):
        task = asyncio.ensure_future(app.nodes["2:0"].sendAndReceive(world.cls("Basic.Get")(), world.cls("Basic.Report")))
        await loop.settle()
        pkt = held.pop()
        kind, ident, cmd = classify(data)
        confirms = ident == pkt.seq and socket == "node" and kind != "packet" or kind == "advert"
        if kind == "packet" and cmd is not None and cmd[:2] == b"\x52\x02":
            # Other nodes: the request may go with its node
            confirms = True
        if not confirms:
            await bad(data, task, "before the ack")
        net.node(2).deliver(sim.ack(pkt.seq))
        await loop.settle()
        if not task.done() and not confirms:
            await bad(data, task, "between ack and report")
        value = n & 0xFF
        net.node(2).deliver(sim.zip_packet(raw("Basic.Report", value=value), 5))
        await loop.settle()
        check(task.done(), "lost", "{} on {}: the request did not get its report", data.hex(), socket)
        outcome = world.state(task)
        if b"\x20\x03" not in data:
            check(outcome[0] == "ok" and int(outcome[1].value) == value, "lost", "{} on {}: the request ended with {}", data.hex(),
                  socket, outcome)
        await bad(data, None, "after the report")
        # A valid unsolicited message
        node = app.nodes.get("3:0")
        check(node is not None, "node lost", "{} on {}: node 3 is gone", data.hex(), socket)
        if node is not known_node:
            # The first time, or it was replaced when a corrupted node list removed it
            node.addListener(nodeear)
            known_node = node
        ear.take(), nodeear.take()
        before = len(net.sent)
        net.unsolicited(3, raw("Basic.Set", value=value), seq=value, ackreq=True)
        await loop.settle()
        calls = ear.take()
        check(len(calls) == 1 and calls[0][1] == 3 and int(calls[0][3].value) == value, "unsolicited",
              "{} on {}: valid message afterwards heard as {}", data.hex(), socket, calls)
        heard = nodeear.take()
        check(heard and int(heard[0][1].value) == value, "unsolicited", "{} on {}: node heard {}", data.hex(), socket, heard)
        acks = [p for p in net.sent[before:] if p.transport is net.listener]
        check(len(acks) == 1 and acks[0].ackres and acks[0].seq == value, "unsolicited ack", "{} on {}: acks {}", data.hex(),
              socket, acks)
        del net.sent[:]
        if loop.errors:
            raise Violation("escaped", "{} on {}: {}".format(data.hex(), socket, loop.errors[0]))
        count += 1
        ch.case()
    found = world.errors(loop)
    check(not found, "escaped", "{} {}: {}", group, socket, found[:2])
    return (group, socket, count)


def malformed(ch, group, socket, full):
    """One group of datagrams on one socket"""
    with codec.quiet():
        return world.run(lambda loop: play(loop, ch, group, socket, full), horizon=10 ** 8, dressed=None)


ERRORS = [ConnectionRefusedError(111, "Connection refused"), OSError(113, "No route to host"), OSError(101, "Network is unreachable"),
          OSError(90, "Message too long"), PermissionError(1, "Operation not permitted"), BlockingIOError(11, "Try again"), OSError()]
FLOOD = [b"", b"\x23", b"\x23\x02", sim.ack(200)[:6], sim.zip_packet(b"\x20\x01\x07", 210, ext=b"\x03\x82\x00"), b"\x20\x03\x05", b"\xff" * 60,
         sim.zip_packet(b"\x59\x02\x01\x09ab", 211), sim.zip_packet(b"\x31\x05\x01", 212), sim.zip_packet(b"\x6c\x01", 213, ackreq=True)]


async def play_trouble(loop, ch, socket, kind, number):
    """Something that happens many times, at some moments of a request"""
    app, gw, net = await world.application(loop, NODES, info={2: CLASSES, 3: CLASSES})
    ear = world.Ear("messageReceived", "onMessageReceived")
    await gw.sendToNode(2, world.cls("Basic.Set")(value=1))
    gw.addListener(ear)
    targets = {"gw": net.gw, "node": net.node(2), "listener": net.listener}
    held, failing_now = [], [False]

    def hook(pkt):
        if failing_now[0] and pkt.transport is targets[socket]:
            # Told while it is being sent
            pkt.transport.error(ERRORS[number % len(ERRORS)])
        if pkt.kind == "zip" and pkt.cmd == b"\x20\x02" and pkt.remote == sim.node_ip(2):
            held.append(pkt)
            return True
        return False

    net.hook = hook

    async def trouble():
        for count in range(number):
            if kind == "error":
                loop.env(0, 0, lambda e=ERRORS[count % len(ERRORS)]: targets[socket].error(e))
            elif kind == "sending":
                failing_now[0] = True
            else:
                targets[socket].deliver(FLOOD[count % len(FLOOD) if kind == "flood" else int(kind)],
                                        (sim.node_ip(2), sim.PORT, 0, 0) if socket == "listener" else None)
        await loop.settle()

    for moment in ("before", "sent", "acked", "reported"):
        where = "{} times {} on {} when {}".format(number, kind, socket, moment)
        if moment == "before":
            await trouble()
        task = asyncio.ensure_future(app.nodes["2:0"].sendAndReceive(world.cls("Basic.Get")(), world.cls("Basic.Report")))
        await loop.settle()
        check(len(held) == 1 and not task.done(), "lost", "{}: sent {}, {}", where, held, world.state(task))
        if moment == "sent":
            await trouble()
        net.node(2).deliver(sim.ack(held.pop().seq))
        await loop.settle()
        if moment == "acked":
            await trouble()
        check(not task.done(), "completed", "{}: {}", where, world.state(task))
        net.node(2).deliver(sim.zip_packet(raw("Basic.Report", value=number & 0xFF), 5))
        await loop.settle()
        outcome = world.state(task)
        check(outcome[0] == "ok" and int(outcome[1].value) == number & 0xFF, "lost", "{}: the request ended with {}", where, outcome)
        if moment == "reported":
            await trouble()
        ear.take()
        for node in NODES:
            before = len(net.sent)
            net.unsolicited(node, raw("Basic.Set", value=node), seq=node, ackreq=True)
            await loop.settle()
            calls = ear.take()
            check(len(calls) == 1 and calls[0][1] == node and int(calls[0][3].value) == node, "unsolicited", "{}: heard {}", where, calls)
            acks = [p for p in net.sent[before:] if p.transport is net.listener]
            check(len(acks) == 1 and acks[0].ackres and acks[0].seq == node, "unsolicited ack", "{}: {}", where, acks)
        check(await gw.send(world.cls("Basic.Set")(value=3)) is True, "gateway", "{}: sending to the gateway fails", where)
        net.sent.clear()
        await asyncio.sleep(51)
        for target in (net.gw, net.node(2)):
            alive = [p for p in net.sent if p.transport is target and p.kind == "keepalive"]
            check(len(alive) == 2, "keep-alive", "{}: {} keep-alives", where, alive)
        check(not any(t.closed for t in loop.transports), "closed", "{}: a socket was closed", where)
        failing_now[0] = False
        if loop.errors:
            raise Violation("escaped", "{}: {}".format(where, loop.errors[0]))
        ch.case()
    found = world.errors(loop)
    check(not found, "escaped", "{} {} {}: {}", socket, kind, number, found[:2])
    return (socket, kind, number)


def trouble(ch, socket, kind, number):
    """Floods of malformed datagrams, and errors told by the network"""
    with codec.quiet():
        return world.run(lambda loop: play_trouble(loop, ch, socket, kind, number), horizon=10 ** 7)


SCENARIOS = {"malformed": malformed, "trouble": trouble}


def jobs(thorough):
    """Groups times sockets"""
    groups = ["short", "ext", "bare", "deep"] + ["base:" + name for name, _ in base_datagrams()] + ["cmd:" + n for n in wire.MESSAGES]
    order = {"short": 0, "base:nodelist": 1}
    groups.sort(key=lambda g: order.get(g, 2))
    result = [("malformed", {"group": g, "socket": s, "full": thorough}, None) for g in groups for s in SOCKETS]
    for socket in SOCKETS:
        for number in (1, 2, 3, 5, 16, 17, 130, 300) + ((1100, 4000) if thorough else ()):
            for kind in ["error", "sending", "flood"] + [str(i) for i in range(len(FLOOD))]:
                if kind != "sending" or number < 9:
                    result.append(("trouble", {"socket": socket, "kind": kind, "number": number}, None))
    return result
