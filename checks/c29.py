"""C29: inclusion and exclusion progress is reported completely and in kind"""
import asyncio
import itertools

from mc import sim, wire

from . import world
from .codec import quiet
from .world import check, raw

LEVEL = "model_checking"
RULE = ("every status code and node of inclusion and exclusion reports, complete and cut off at every byte, every other known and unknown command, "
        "in all sequences of up to three, on the connection to the gateway and unsolicited, with every combination of accepting, declining, silent, slow "
        "and failing listeners; what every listener is told and what counts as handled is compared")

NAMES = ("addNodeStatus", "removeNodeStatus", "nodeRemoved", "nodesRemoved", "messageReceived", "nodeAdded", "nodesAdded")
DONE, FAILED = 6, 7


class Failure(Exception):
    """Of a listener"""


class Listener:
    """Records what it is told and answers in some way"""

    def __init__(self, kind, speaker):
        mode, _, self.what = kind.partition(" ")
        self.calls = []
        self.speaker = speaker
        self.mode = mode
        for name in NAMES:
            if mode == "partial" and name in ("messageReceived", "addNodeStatus"):
                continue
            setattr(self, name, self.slow(name) if mode == "slow" else self.prompt(name))

    def answer(self):
        """What it says"""
        if self.what == "fail":
            raise Failure()
        if self.what == "timeout":
            raise asyncio.TimeoutError()
        return {"accept": True, "decline": False, "": None}[self.what]

    def tell(self, name, speaker, args):
        """It is told"""
        check(speaker is self.speaker, "speaker", "{} from {}", name, speaker)
        self.calls.append((name,) + args)

    def prompt(self, name):
        """At once"""
        def heard(speaker, *args):
            self.tell(name, speaker, args)
            return self.answer()
        return heard

    def slow(self, name):
        """Some time"""
        async def heard(speaker, *args):
            self.tell(name, speaker, args)
            await asyncio.sleep(3)
            return self.answer()
        return heard

    def take(self):
        """What it was told, messages as the model sees them"""
        calls, self.calls = self.calls, []
        return [(c[0],) + tuple(world.describe(a) if hasattr(a, "compose") else a for a in c[1:]) for c in calls]


def added(status, node=5, classes=b"\x25\x86"):
    """NODE_ADD_STATUS"""
    return bytes([0x34, 0x02, 9, status, 0, node, 7 + len(classes), 0x80, 0, 4, 0x10, 1]) + classes


def removed(status, node=0, seq=9):
    """NODE_REMOVE_STATUS"""
    return bytes([0x34, 0x04, seq, status, node])


def told(data, kind):
    """Model: what a listener is told, and whether it counts as handled by it"""
    described = world.describe(world_decode(data))
    calls = []
    if data[:2] == b"\x34\x02":
        calls = [("addNodeStatus", described)]
    elif data[:2] == b"\x34\x04":
        calls = [("removeNodeStatus", described)]
        if len(data) >= 5 and data[3] == DONE and data[4] == 0:
            calls += [("nodeRemoved", 0), ("nodesRemoved", [0])]
    else:
        calls = [("messageReceived", described)]
    if kind.startswith("partial"):
        calls = [c for c in calls if c[0] not in ("messageReceived", "addNodeStatus")]
    return calls


def world_decode(data):
    """Decode one command. That this is right is another matter"""
    return world.cls("Basic.Get").decode(data)


def fields(data):
    """The status and node must be those on the wire"""
    described = world.describe(world_decode(data))
    if data[:2] in (b"\x34\x02", b"\x34\x04") and len(data) >= 4:
        check(described[1]["status"] == data[3] and described[1]["seqNo"] == data[2], "status", "{} is {}", data.hex(), described)
    if data[:2] == b"\x34\x04" and len(data) >= 5:
        check(described[1]["nodeID"] == data[4], "node", "{} is {}", data.hex(), described)


def handled(data, kinds):
    """Model: does it count as handled"""
    if data[:2] in (b"\x34\x02", b"\x34\x04"):
        return True
    return any(k.endswith(" accept") and not k.startswith("partial") for k in kinds)


def normal(calls):
    """Comparable"""
    return [repr(c) for c in calls]


def apart(calls, together):
    """The commands in their order (any, if they came at the same instant), and what follows from them with how many commands it can follow from"""
    primary = [c for c in calls if "Status'" in c or "messageReceived" in c]
    rest = sorted(c for c in calls if c not in primary)
    early, told_of, causes = False, 0, 0
    for call in calls:
        if call.startswith("('removeNodeStatus'"):
            causes += 1
        elif call.startswith("('nodeRemoved'"):
            told_of += 1
            early = early or told_of > causes
    return sorted(primary) if together else primary, rest, early


async def session(loop, kinds):
    """An application with these listeners and two nodes"""
    app, gw, net = await world.application(loop)
    listeners = [Listener(kind, app) for kind in kinds]
    for listener in listeners:
        app.addListener(listener)
    return app, gw, net, listeners


async def compare(loop, app, net, listeners, kinds, packets, where, together=True):
    """Deliver on the connection to the gateway and compare"""
    before = dict(app.nodes)
    for data in packets:
        net.gw.deliver(sim.zip_packet(data, 77))
        if not together:
            await asyncio.sleep(0.5)
            await loop.settle()
    await loop.settle()
    if any(k.startswith("slow") for k in kinds):
        await asyncio.sleep(3 * 3 + 1)
        await loop.settle()
    for listener, kind in zip(listeners, kinds):
        got = normal(listener.take())
        want = normal([c for data in packets for c in told(data, kind)])
        if any(len(data) < 5 and data[:2] == b"\x34\x04" for data in packets):
            # Whether a report that ends before the node tells of node 0 is left open
            got = [c for c in got if "RemoveStatus" in c]
        if any(k.startswith("slow") for k in kinds):
            # What follows waits for the slow ones
            got, want = sorted(got), sorted(want)
        else:
            # What follows from one command may come before or after the next command
            got, want = apart(got, together), apart(want, together)
        check(got == want, "told", "{} {}: {} and not {}", where, kind, got, want)
    check(dict(app.nodes) == before, "nodes changed", "{}", where)


async def play_codes(loop, ch, kinds):
    """All status codes, nodes and cut off reports"""
    app, _gw, net, listeners = await session(loop, kinds)
    commands = [added(status) for status in range(256)] + [added(status, node) for status in (DONE, FAILED, 9) for node in range(256)]
    commands += [removed(status, node) for status in range(256) for node in (0, 1, 2, 5)]
    commands += [removed(status, node, node) for status in (DONE, FAILED) for node in range(256)]
    for whole in (added(DONE), removed(DONE), removed(FAILED)):
        commands += [whole[:length] for length in range(2, len(whole))]
        commands += [whole + bytes(n) for n in (1, 2, 30)]
    for data in commands:
        fields(data)
        await compare(loop, app, net, listeners, kinds, [data], data.hex())
        ch.case()
    return len(commands)


def codes(ch, kinds):
    """Codes"""
    return world.run(lambda loop: play_codes(loop, ch, kinds), horizon=10 ** 9, dressed="reserved")


def others():
    """Every other command known by the specification, and unknown ones"""
    result = []
    for name in wire.MESSAGES:
        if name in ("Zip.ZipPacket", "NetworkManagementInclusion.NodeAddStatus", "NetworkManagementInclusion.NodeRemoveStatus"):
            continue
        try:
            result.append(wire.encode(name, wire.default_values(name)))
        except (KeyError, TypeError, ValueError):
            continue
    return result + [b"\x34\x77", b"\x34\x03\x01\x00\x01", b"\xee\x01\x02", b"\x34\x01", b"\x20\x7f\x01"]


async def play_others(loop, ch, kinds):
    """Other commands"""
    app, _gw, net, listeners = await session(loop, kinds)
    number = 0
    for data in others():
        if world.cls("Basic.Get").decode(data) is None:
            continue
        await compare(loop, app, net, listeners, kinds, [data], data.hex())
        number += 1
        ch.case()
    return number


def every(ch, kinds):
    """Every other command"""
    with quiet():
        return world.run(lambda loop: play_others(loop, ch, kinds), horizon=10 ** 9, dressed="reserved")


PACKETS = [added(DONE), added(FAILED), added(9), removed(DONE), removed(FAILED), removed(DONE, 5), removed(1), raw("Basic.Set", value=3),
           raw("Basic.Report", value=3), b"\x34\x77\x01", raw("Mailbox.WakeupNotification", queueHandle=4)]


async def play_sequences(loop, ch, kinds, length):
    """Sequences at once"""
    app, _gw, net, listeners = await session(loop, kinds)
    for packets in itertools.product(PACKETS, repeat=length):
        for together in (True, False):
            await compare(loop, app, net, listeners, kinds, packets, [p.hex() for p in packets], together)
            ch.case()
    return kinds, length


def sequences(ch, kinds, length):
    """Sequences"""
    return world.run(lambda loop: play_sequences(loop, ch, kinds, length), horizon=10 ** 9, dressed="reserved")


async def play_answers(loop, ch, kinds):
    """What counts as handled"""
    app, gw, net, listeners = await session(loop, kinds)
    for data in PACKETS:
        packet = world.cls("Basic.Get").decode(sim.zip_packet(data, 5))
        answer = await app.onMessageReceived(gw, packet)
        check(bool(answer) == handled(data, kinds), "handled", "{} {}: {}", kinds, data.hex(), answer)
        await asyncio.sleep(10)
        for listener, kind in zip(listeners, kinds):
            got, want = normal(listener.take()), normal(told(data, kind))
            check(got == want, "told", "{} {}: {} and not {}", data.hex(), kind, got, want)
        ch.case()
    # No command at all
    for packet in (world.cls("Basic.Get").decode(sim.zip_packet(None, 5)), world.cls("Basic.Get").decode(b"\x20\x02"),
                   world.cls("Basic.Get").decode(b"\x34\x04\x09\x06\x00")):
        answer = await app.onMessageReceived(gw, packet)
        check(not answer, "handled", "{}: {}", packet, answer)
        check(not any(listener.take() for listener in listeners), "told", "nothing to tell")
        ch.case()
    # Unsolicited ones of the gateway itself
    await gw.sendToNode(net.controller, world.cls("Basic.Get")())
    for data in PACKETS:
        net.unsolicited(net.controller, data, seq=9)
        await loop.settle()
        await asyncio.sleep(4)
        for listener, kind in zip(listeners, kinds):
            got = normal(listener.take())
            want = [] if kind.startswith("partial") else normal([("messageReceived", world.describe(world_decode(data)))])
            check(got == want, "told", "unsolicited {} {}: {} and not {}", data.hex(), kind, got, want)
        ch.case()
    return kinds


def answers(ch, length):
    """All combinations of listeners"""
    number = 0
    for kinds in itertools.product(KINDS, repeat=length):
        world.run(lambda loop, kinds=kinds: play_answers(loop, ch, kinds))
        number += 1
    return number


KINDS = ["prompt", "prompt accept", "prompt decline", "prompt fail", "slow accept", "slow decline", "slow fail", "slow timeout", "partial"]
SCENARIOS = {"codes": codes, "every": every, "sequences": sequences, "answers": answers}


def jobs(thorough):
    """By listeners"""
    result = [("answers", {"length": length}, None) for length in range(4 if thorough else 3)]
    lists = [["prompt"], ["prompt fail", "prompt"], ["prompt accept", "slow decline"], ["slow fail", "partial", "slow accept"], ["partial", "prompt decline"]]
    for kinds in lists:
        result += [("codes", {"kinds": kinds}, None), ("every", {"kinds": kinds}, None)]
        result += [("sequences", {"kinds": kinds, "length": length}, None) for length in range(1, 5 if thorough else 4)]
    return result
