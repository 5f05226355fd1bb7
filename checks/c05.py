"""C05: header extensions never cost the command they come with"""
import itertools

from mc import sim

from . import world
from .world import check, raw

LEVEL = "model_checking"
RULE = ("a case is one packet with a header extension, received on the gateway, node or unsolicited socket: every sequence of up to "
        "three (thorough: four) options of an alphabet of known, unknown, critical, empty and long options, every sequence of up to "
        "three maintenance report entries, every value of every byte of the supported options. The command and the options "
        "that reach the listeners are compared with the ones on the wire")
ASSUMPTIONS = ["of an option that comes twice either value may be reported"]

DELAYS = [0, 5, -1, 255, 256, 0x7FFFFF, -0x800000, -3]
ENTRIES = [
    (0, b"\x01"), (0, b"\x00"), (1, b"\x12\x34"), (1, b"\xff\xfe"), (2, bytes([1, 2, 3, 4, 3])), (2, bytes([232, 0, 0, 0, 1])),
    (4, b"\x01"), (5, b"\x02"), (3, b"\x7f\xe0\x7e\x7d\x7c"), (6, b"\x07"), (7, b"\x09"), (8, b"\x05\x06"), (9, b""), (9, b"\x01\x02"),
    (0x7F, b"\x00" * 9), (0xFF, b"\xff"),
]


def entries(items):
    """Bytes of a maintenance report"""
    return b"".join(bytes([kind, len(data)]) + data for kind, data in items)


def alphabet():
    """(kind, data, critical) of the options"""
    options = [(1, d.to_bytes(3, "big", signed=True), c) for d in DELAYS[:4] for c in (False, True)]
    options += [(3, entries(ENTRIES[:3]), False), (3, entries(ENTRIES[8:13]), False), (3, b"", False), (3, entries([ENTRIES[4]]), True)]
    options += [(4, b"\x80\x01", False), (4, b"\x00\x00", True), (4, b"\x07\xff", False)]
    options += [(2, b"", False), (5, b"\x01\x04", False), (6, b"", False), (0, b"\x01", False), (0x7F, bytes(range(60)), False),
                (9, b"\x81\x02\x03", False)]
    options += [(6, b"", True), (0x7F, b"\x01\x03", True)]
    return options


def supported(kind):
    """Is it an option the program knows"""
    return kind in (1, 3, 4)


def meaning(kind, data):
    """What a supported option says"""
    if kind == 1:
        return int.from_bytes(data, "big", signed=True)
    if kind == 4:
        return (data[0], data[1] & 1)
    found = {}
    while data:
        entry, body, data = data[0], data[2:2 + data[1]], data[2 + data[1]:]
        if entry > 8:
            continue
        found.setdefault(entry, []).append(bytes(body))
    return found


def entry_value(kind, got):
    """Reported maintenance value as bytes"""
    if kind in (0, 4, 5):
        return bytes([int(got)])
    if kind == 1:
        return int(got).to_bytes(2, "big")
    if kind == 2:
        return bytes([int(got.repeater1), int(got.repeater2), int(got.repeater3), int(got.repeater4), int(got.speed)])
    return bytes(got)


def compare(ext, options, where):
    """The extension given to the listeners has the supported options"""
    wanted = {}
    for kind, data, _critical in options:
        if supported(kind):
            wanted.setdefault(kind, []).append(meaning(kind, data))
    have = dict(ext or {})
    check({int(k) for k in have} == set(wanted), "options", "{}: options {} instead of {}", where, have, wanted)
    for kind, got in have.items():
        kind = int(kind)
        if kind == 1:
            check(int(got) in wanted[1], "delay", "{}: {} not {}", where, got, wanted[1])
            check(int(ext.expectedDelay) in wanted[1], "delay", "{}: expectedDelay {} not {}", where, ext.expectedDelay, wanted[1])
        elif kind == 4:
            value = (int(got.security2SecurityClass), int(got.crc16))
            check(value in wanted[4], "format", "{}: {} not {}", where, value, wanted[4])
        else:
            value = {int(k): entry_value(int(k), v) for k, v in got.items()}
            ok = any(set(value) == set(w) and all(value[k] in w[k] for k in w) for w in wanted[3])
            check(ok, "report", "{}: {} not {}", where, value, wanted[3])


COMMANDS = [("Basic.Set", {"value": 0x5A}), ("Supervision.Report", {"moreStatusUpdates": 1, "wakeUpRequest": 0, "sessionID": 33,
                                                                  "status": 0xFF, "duration": 7})]


async def play(loop, ch, socket, sequences):
    """Packets with the option sequences, one after another"""
    gw, net = await world.gateway(loop)
    await gw.sendToNode(2, world.cls("Basic.Get")())
    conn = await gw.connectToNode(2)
    ear, nodeear = world.Ear("messageReceived", "onMessageReceived"), world.Ear("onMessageReceived")
    gw.addListener(ear)
    conn.addListener(nodeear)
    target = {"gw": net.gw, "node": net.node(2), "listener": net.listener}[socket]
    addr = (sim.node_ip(2), sim.PORT, 0, 0) if socket == "listener" else None
    for n, options in enumerate(sequences):
        body = [sim.option(kind, data, critical) for kind, data, critical in options]
        if sum(map(len, body)) > 254:
            continue
        name, values = COMMANDS[n % 2]
        seq, src = n & 0xFF, n % 128
        packet = sim.zip_packet(raw(name, **values), seq, src=src, dst=(n * 7) % 128, ext=sim.header_ext(body))
        target.deliver(packet, addr)
        await loop.settle()
        calls, nodecalls = ear.take(), nodeear.take()
        where = "{} on {}".format(packet.hex(), socket)
        ch.case()
        dropped = any(critical and not supported(kind) for kind, _data, critical in options)
        if dropped:
            check(not calls and not nodecalls, "critical", "{}: processed {}", where, calls)
            continue
        check(len(calls) == 1, "lost", "{}: heard as {}", where, calls)
        if socket == "listener":
            _, node, endpoint, cmd, ext = calls[0]
            check((node, int(endpoint)) == (2, src), "source", "{}: from {}:{}", where, node, endpoint)
        elif socket == "node":
            _, node, endpoint, cmd, _flags = calls[0]
            check((node, int(endpoint)) == (2, src), "source", "{}: from {}:{}", where, node, endpoint)
            check(len(nodecalls) == 1, "lost", "{}: heard as {}", where, nodecalls)
            ext = nodecalls[0][1].headerExtension
            check(world.describe(nodecalls[0][1].command) == (name, values), "command", "{}: {}", where,
                  world.describe(nodecalls[0][1].command))
        else:
            pkt = calls[0][1]
            cmd, ext = pkt.command, pkt.headerExtension
            check((int(pkt.seqNo), int(pkt.sourceEP), int(pkt.destEP)) == (seq, src, (n * 7) % 128), "header", "{}: {}", where,
                  (pkt.seqNo, pkt.sourceEP, pkt.destEP))
        check(world.describe(cmd) == (name, values), "command", "{}: {} instead of {}", where, world.describe(cmd), (name, values))
        compare(ext, options, where)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return (socket, len(sequences))


def combos(first, depth):
    """All sequences starting with the option number first"""
    options = alphabet()
    if first is None:
        return [()]
    result = [(options[first],)]
    for more in range(1, depth):
        result += [(options[first],) + rest for rest in itertools.product(options, repeat=more)]
    return result


def sequences(ch, socket, first, depth):
    """Option sequences"""
    return world.run(lambda loop: play(loop, ch, socket, combos(first, depth)), horizon=10 ** 8)


def maintenance(ch, socket, first, depth):
    """Maintenance report entries"""
    chosen = []
    for more in range(depth):
        for rest in itertools.product(ENTRIES, repeat=more):
            chosen.append(((3, entries((ENTRIES[first],) + rest), False),))
    return world.run(lambda loop: play(loop, ch, socket, chosen), horizon=10 ** 8)


def option_values(ch, socket):
    """Every value of every byte of the supported options"""
    chosen = [((1, d.to_bytes(3, "big", signed=True), False),) for d in DELAYS]
    for i in range(3):
        for value in range(256):
            for fill in (0, 255):
                data = bytearray([fill] * 3)
                data[i] = value
                chosen.append(((1, bytes(data), bool(value & 1)),))
    for value in range(256):
        chosen.append(((4, bytes([value, value ^ 0x55]), False),))
        chosen.append(((4, bytes([value ^ 0x55, value]), True),))
        for kind in (0, 4, 5):
            chosen.append(((3, entries([(kind, bytes([value]))]), False),))
        chosen.append(((3, entries([(1, bytes([value, 255 - value]))]), False),))
        chosen.append(((3, entries([(2, bytes([value, value ^ 1, value ^ 2, value ^ 3, 1 + value % 3]))]), False),))
        # Unknown types of options and entries
        if value > 8:
            chosen.append(((3, entries([(value, b"\x01\x02"), (0, b"\x01")]), False), (1, b"\x00\x00\x07", False)))
        if 5 < value < 128:
            chosen.append(((value, bytes(value % 5), False), (1, b"\x00\x00\x07", False)))
            chosen.append(((1, b"\x00\x00\x07", False), (value, bytes(value % 5), True)))
    for size in range(250):
        chosen.append(((6, bytes(range(size)), False),))
    return world.run(lambda loop: play(loop, ch, socket, chosen), horizon=10 ** 8)


SCENARIOS = {"sequences": sequences, "maintenance": maintenance, "values": option_values}


def jobs(thorough):
    """All sockets"""
    result = []
    for socket in ("gw", "node", "listener"):
        result.append(("values", {"socket": socket}, None))
        for first in [None] + list(range(len(alphabet()))):
            result.append(("sequences", {"socket": socket, "first": first, "depth": 4 if thorough else 3}, None))
        for first in range(len(ENTRIES)):
            result.append(("maintenance", {"socket": socket, "first": first, "depth": 4 if thorough else 3}, None))
    return result
