"""C17: stored settings are signalled once per change, or once after the last lock"""
import asyncio
import contextlib

from mc import wire

from . import world
from .c24 import snapshot
from .world import check

import pyzwave.commandclass  # pylint: disable=unused-import
from pyzwave.message import Message
from pyzwave.node import Node, NodeEndPoint

LEVEL = "model_checking"
RULE = ("every program of taking up to three locks, releasing any of them normally, with an exception of any kind or by cancellation, and "
        "changing a command class (directly or by a report), on one node or on a node and its end point, with listeners that fail or change the node "
        "again while being notified; up to 130 locks at once; and tasks holding locks across interleaved changes. After every step the signals are compared with a "
        "counter of the locks held and a dirty flag. Every sequence of up to three reports and requests of every command class with "
        "settings, without and within a lock: what a storage that reads the settings on every signal has is what they are")

EXITS = {"X": None, "R": RuntimeError, "K": asyncio.CancelledError}
ALL = dict(EXITS, I=KeyboardInterrupt, S=SystemExit, G=GeneratorExit, T=StopIteration, A=StopAsyncIteration, O=OSError, B=BaseException)


class Subject:
    """A node with its locks, and the model of it"""

    def __init__(self, node, listeners):
        self.node = node
        self.ears = []
        for kind in listeners:
            if kind == "ear":
                self.ears.append(world.Ear("nodeUpdated"))
                node.addListener(self.ears[-1])
            elif kind == "failing":
                node.addListener(Failing())
            elif kind == "echo":
                node.addListener(Echo(self))
        self.echoes = "echo" in listeners
        self.echoed = False
        self.stack = contextlib.ExitStack()
        self.locks = [None, None, None]
        self.held = 0
        self.dirty = False
        self.value = 0

    def expect(self, signals, where):
        """Exactly these signals since the last time"""
        if signals and self.echoes and not self.echoed:
            self.echoed = True
            signals += 1
        for ear in self.ears:
            got = len(ear.take())
            check(got == signals, "signals", "{}: {} signals instead of {}", where, got, signals)

    def change(self):
        """A change in the model: signals expected"""
        if self.held:
            self.dirty = True
            return 0
        return 1


class Failing:
    """Fails"""

    def nodeUpdated(self, _node):
        """Signalled"""
        raise RuntimeError("storage failed")


class Echo:
    """Changes the node once more, the first time"""

    def __init__(self, subject):
        self.subject = subject
        self.done = False

    def nodeUpdated(self, node):
        """Signalled"""
        if not self.done:
            self.done = True
            node.supported[0x20].speak("commandClassUpdated")


async def step(subject, op, where):
    """One operation"""
    kind, index = op[0], int(op[1:] or 0)
    if kind == "E":
        lock = subject.node.storageLock()
        lock.__enter__()
        subject.locks[index] = lock
        subject.held += 1
        subject.expect(0, where)
    elif kind in ALL:
        lock, subject.locks[index] = subject.locks[index], None
        error = ALL[kind]() if ALL[kind] else None
        swallowed = False
        try:
            swallowed = lock.__exit__(type(error) if error else None, error, None)
        except BaseException as raised:  # pylint: disable=broad-except
            check(raised is error, "exception replaced", "{}: {!r}", where, raised)
        check(not swallowed or not error, "exception lost", where)
        subject.held -= 1
        signals = 0
        if not subject.held and subject.dirty:
            subject.dirty, signals = False, 1
        subject.expect(signals, where)
    elif kind == "C":
        subject.node.supported[0x20].speak("commandClassUpdated")
        subject.expect(subject.change(), where)
    elif kind == "M":
        subject.value += 1
        report = world.cls("Configuration.Report")(parameterNumber=1, size=1, value=subject.value % 250)
        await subject.node.handleMessage(report, None)
        subject.expect(subject.change(), where)
    elif kind == "N":
        # Nothing changes
        await subject.node.handleMessage(world.cls("Basic.Set")(value=1), None)
        lock = subject.node.storageLock()
        subject.expect(0, where)
        del lock


def enabled(locks, subjects, rich):
    """What can be done: locks is what is held, by subject"""
    for sub in range(subjects):
        for index in range(3 if subjects == 1 else 2):
            if (sub, index) in locks:
                for kind in ALL if rich == "all" else EXITS if rich else "XR":
                    yield (sub, kind + str(index))
            elif not index or (sub, index - 1) in locks or rich:
                yield (sub, "E" + str(index))
        for op in "CMN" if rich else "CM":
            yield (sub, op)


def programs(prefix, depth, subjects, rich):
    """All the programs of this length starting with prefix"""
    locks = set()
    for sub, op in prefix:
        if op[0] == "E":
            locks.add((sub, op[1]))
        elif op[0] in ALL:
            locks.discard((sub, op[1]))
    if len(prefix) == depth:
        yield prefix
        return
    for op in enabled({(s, int(i)) for s, i in locks}, subjects, rich):
        yield from programs(prefix + [op], depth, subjects, rich)


def nodes(subjects):
    """Fresh nodes"""
    node = Node(5, None, [0x20, 0x70])
    return [node, NodeEndPoint(node, 1, None, [0x20, 0x70])][:subjects]


async def play(ch, prefix, depth, subjects, rich, listeners):
    """All of them"""
    states = set()
    for program in programs(prefix, depth, subjects, rich):
        these = [Subject(node, listeners) for node in nodes(subjects)]
        for number, (sub, op) in enumerate(program):
            where = "step {} of {}".format(number, program)
            await step(these[sub], op, where)
            for other in these:
                if other is not these[sub]:
                    other.expect(0, where)
            states.add(tuple((s.held, s.dirty, s.echoed) for s in these))
        for subject in these:
            for index, lock in enumerate(subject.locks):
                if lock:
                    await step(subject, "X{}".format(index), "end of {}".format(program))
        ch.case()
        ch.step(len(program))
    return sorted(states)


def locks(ch, prefix, depth, subjects=1, rich=False, listeners=("ear",)):
    """All programs"""

    async def main(_loop):
        return await play(ch, [tuple(p) for p in prefix], depth, subjects, rich, listeners)

    return world.run(main, horizon=10 ** 9)


async def task_main(loop, ch, count):
    """Tasks holding locks"""
    node = nodes(1)[0]
    ear = world.Ear("nodeUpdated")
    node.addListener(ear)
    held, log = [], []
    plans = []

    async def holder(number, start, duration, changes):
        await asyncio.sleep(start)
        with node.storageLock():
            held.append(number)
            try:
                for _ in range(changes):
                    node.supported[0x20].speak("commandClassUpdated")
                await asyncio.sleep(duration)
            finally:
                held.remove(number)

    for number in range(count):
        plans.append((ch.choose(3, "start", free=True), 2 * ch.choose(2, "duration", free=True) + 1.5, ch.choose(2, "changes", free=True),
                      ch.choose(2, "cancelled", free=True)))
    tasks = [asyncio.ensure_future(holder(n, p[0], p[1], p[2])) for n, p in enumerate(plans)]
    for number, plan in enumerate(plans):
        if plan[3]:
            loop.call_later(plan[0] + 0.7, tasks[number].cancel)
    for _ in range(60):
        before = len(ear.calls)
        await asyncio.sleep(0.1)
        await loop.settle()
        if held:
            check(len(ear.calls) == before, "signalled while locked", "{} {}", plans, loop.time())
        log.append(bool(held))
    # Groups of overlapping locks: [start, end, changes]
    spans = sorted([p[0], p[0] + (0.7 if p[3] else p[1]), p[2]] for p in plans)
    merged = []
    for span in spans:
        if merged and span[0] <= merged[-1][1]:
            merged[-1] = [merged[-1][0], max(merged[-1][1], span[1]), merged[-1][2] + span[2]]
        else:
            merged.append(span)
    want = sum(1 for span in merged if span[2])
    check(len(ear.calls) == want, "signals of tasks", "{}: {} signals instead of {}", plans, len(ear.calls), want)
    return tuple(plans)


def tasks(ch, count):
    """Tasks holding locks"""
    return world.run(lambda loop: task_main(loop, ch, count))


async def play_deep(ch, count):
    """Many locks at once, of which any is left last"""
    node = nodes(1)[0]
    ear = world.Ear("nodeUpdated")
    node.addListener(ear)
    change = lambda: node.supported[0x20].speak("commandClassUpdated")  # pylint: disable=unnecessary-lambda-assignment
    for last in sorted({0, count // 3, count // 2, count - 1}):
        for moment in range(2 * count - 1):
            # The change comes in after so many steps
            taken = [node.storageLock() for _ in range(count)]
            steps = [lock.__enter__ for lock in taken]
            left = [lock for number, lock in enumerate(taken) if number != last] + [taken[last]]
            steps += [lambda lock=lock: lock.__exit__(None, None, None) for lock in left]
            for number, run in enumerate(steps):
                check(not ear.take(), "signals", "{} locks, {} last: signalled at step {}", count, last, number)
                run()
                if number == moment:
                    change()
            check(len(ear.take()) == 1, "signals", "{} locks, {} last, changed at step {}", count, last, moment)
            change()
            check(len(ear.take()) == 1, "signals", "{} locks, {} last: still locked", count, last)
            ch.case()
    return count


def deep(ch, count):
    """Many locks"""
    return world.run(lambda loop: play_deep(ch, count))


CLASSES = [0x5E, 0x72, 0x86, 0x85, 0x8E, 0x59, 0x70, 0x31, 0x20]


def reports():
    """What a node may report: {name: bytes}"""
    found = {}

    def add(label, message, **values):
        found[label] = wire.encode(message, values)

    for number, size, value in ((1, 1, 0), (1, 2, 0), (1, 1, 7), (1, 4, 7), (2, 2, 7), (255, 4, 0xFFFFFFFF)):
        add("config {} {} {}".format(number, size, value), "Configuration.Report", parameterNumber=number, size=size, value=value)
    for groups in ([(1, 0, 1, 0, 0)], [(1, 0, 0, 0, 0)], [(2, 0, 5, 0, 0), (1, 0, 1, 0, 0)]):
        add("groups {}".format(groups), "AssociationGrpInfo.GroupInfoReport", listMode=1, dynamicInfo=0, groupCount=len(groups),
            groups=groups)
    for group, text in ((1, "a"), (1, ""), (2, "a"), (9, "b")):
        add("name {} {}".format(group, text), "AssociationGrpInfo.GroupNameReport", groupingIdentifier=group, name=text)
    for group, commands in ((1, [[0x20, 1]]), (1, []), (2, [[0x20, 1], [0x25, 3]]), (9, [])):
        add("commands {} {}".format(group, commands), "AssociationGrpInfo.GroupCommandListReport", groupingIdentifier=group,
            commandClass=commands)
    found["unrelated"] = wire.encode("Basic.Set", {"value": 1})
    return found


ANSWERS = {0x5E: [(b"\x5e\x01", b"\x5e\x02\x01\x02\x03\x00\x04\x00\x05"), (b"\x5e\x01", b"\x5e\x02" + bytes(7))],
           0x72: [(b"\x72\x04", b"\x72\x05\x00\x01\x00\x02\x00\x03"), (b"\x72\x04", b"\x72\x05" + bytes(6))],
           0x86: [(b"\x86\x11", b"\x86\x12\x01\x02\x03\x04\x05"), (b"\x86\x11", b"\x86\x12" + bytes(5))],
           0x31: [(b"\x31\x01", b"\x31\x02\x03"), (b"\x31\x03\x01", b"\x31\x06\x01\x03"), (b"\x31\x03\x02", b"\x31\x06\x02\x01")],
           0x85: [(b"\x85\x05", b"\x85\x06\x02"), (b"\x85\x02\x01", b"\x85\x03\x01\x05\x00\x01"),
                  (b"\x85\x02\x02", b"\x85\x03\x02\x01\x00\x07"), (b"\x8e\x02\x01", b"\x8e\x03\x01\x05\x00\x01\x00\x02\x03"),
                  (b"\x8e\x02\x02", b"\x8e\x03\x02\x00\x00")]}


class Radio:
    """Reaches the node directly"""

    nodeId = 1

    def __init__(self):
        self.node, self.answers, self.version = None, [], 0

    def addListener(self, _listener):
        """Says nothing"""

    async def sendToNode(self, _nodeId, cmd, **_kwargs):
        """Hand it over, and the reports back"""
        data = bytes(cmd.compose())
        answers = [reply for request, reply in self.answers if data[:len(request)] == request]
        if data[:2] == b"\x86\x13" and self.version:
            answers = [bytes([0x86, 0x14, data[2], self.version])]
        for reply in answers:
            await self.node.handleMessage(Message.decode(reply), None)
        return True


class Mirror:
    """A storage: has what the settings were at the last signal"""

    def __init__(self, node):
        self.content, self.signals = snapshot(node), 0

    def nodeUpdated(self, node):
        """Signalled"""
        self.content, self.signals = snapshot(node), self.signals + 1


def events():
    """What may happen: {name: (kind, parameter)}"""
    found = {name: ("report", data) for name, data in reports().items()}
    for cmdClass, answers in ANSWERS.items():
        for version in (0, 1, 5):
            found["version {} of {:#x}".format(version, cmdClass)] = ("version", (cmdClass, version))
        found["interview {:#x}".format(cmdClass)] = ("interview", (cmdClass, answers))
        for lost in range(len(answers)):
            # Some answer is lost, or is not the one but the other
            found["interview {:#x} without {}".format(cmdClass, lost)] = (
                "interview", (cmdClass, answers[:lost] + answers[lost + 1:]))
            found["interview {:#x} cancelled at {}".format(cmdClass, lost)] = ("cancel", (cmdClass, answers[:lost] + answers[lost + 1:]))
            for size in range(2, len(answers[lost][1])):
                cut = (answers[lost][0], answers[lost][1][:size])
                found["interview {:#x} {} cut to {}".format(cmdClass, lost, size)] = (
                    "interview", (cmdClass, answers[:lost] + [cut] + answers[lost + 1:]))
        found["interview {:#x} in vain".format(cmdClass)] = ("interview", (cmdClass, []))
    return found


async def happen(loop, radio, node, what):
    """One event"""
    kind, value = what
    if kind == "report":
        await node.handleMessage(Message.decode(value), None)
    elif kind == "version":
        radio.version = value[1]
        await node.supported[value[0]].requestVersion()
    else:
        radio.version, radio.answers = 5, value[1]
        task = asyncio.ensure_future(node.supported[value[0]].interview())
        if kind == "cancel":
            # Before the answer that does not come is given up
            await loop.settle()
            task.cancel()
        # An interview may fail when its answers are incomplete
        await asyncio.wait([task])
        check(task.done() and (task.cancelled() or task.exception() or True), "harness")


async def mirror(loop, ch, first, depth, locked):
    """All sequences"""
    known = events()
    names = list(known)

    def sequences():
        yield [first]
        if depth > 1:
            for second in names:
                yield [first, second]
        if depth > 2 and known[first][0] == "report":
            for second in names:
                for third in names:
                    if known[second][0] == known[third][0] == "report":
                        yield [first, second, third]

    for sequence in sequences():
        radio = Radio()
        node = radio.node = Node(5, radio, CLASSES)
        for obj in node.supported.values():
            obj.__setstate__({"version": 1})
        storage = Mirror(node)
        node.addListener(storage)
        before = snapshot(node)
        with node.storageLock() if locked else contextlib.nullcontext():
            for number, name in enumerate(sequence):
                await happen(loop, radio, node, known[name])
                await loop.settle()
                where = "event {} of {}".format(number, sequence)
                if locked:
                    check(not storage.signals, "signalled while locked", "{}: {} signals", where, storage.signals)
                else:
                    check(storage.content == snapshot(node), "not stored", "{}: stored {} instead of {}", where, storage.content,
                          snapshot(node))
        if locked:
            changed = snapshot(node) != before
            check(storage.signals <= 1 and storage.signals >= changed, "signals", "{}: {} signals after the lock", sequence,
                  storage.signals)
            check(storage.content == snapshot(node), "not stored", "{} locked: stored {} instead of {}", sequence, storage.content,
                  snapshot(node))
        ch.case()
        ch.step(len(sequence))
    return first


def stored(ch, first, depth, locked):
    """A storage has what the settings are"""
    return world.run(lambda loop: mirror(loop, ch, first, depth, locked), horizon=10 ** 9)


SCENARIOS = {"deep": deep, "locks": locks, "tasks": tasks, "stored": stored}


def jobs(thorough):
    """By first operations"""
    result = []

    def add(depth, subjects, rich, listeners, head):
        for prefix in programs([], head, subjects, rich):
            result.append(("locks", {"prefix": prefix, "depth": depth, "subjects": subjects, "rich": rich, "listeners": listeners}, None))

    more = 1 if thorough else 0
    add(8 + more, 1, False, ["ear"], 3)
    add(6 + more, 1, True, ["ear", "ear"], 2)
    add(5 + more, 1, "all", ["ear"], 2)
    add(6 + more, 2, False, ["ear"], 2)
    for listeners in (["failing", "ear"], ["ear", "failing"], ["echo", "ear"], ["ear", "echo"]):
        add(6 + more, 1, False, listeners, 2)
    for first in events():
        for locked in (False, True):
            result.append(("stored", {"first": first, "depth": 3 if thorough else 2, "locked": locked}, None))
    result.append(("tasks", {"count": 2}, None))
    result += [("deep", {"count": count}, None) for count in (1, 4, 5, 10, 33, 130)]
    if thorough:
        result.append(("tasks", {"count": 3}, None, 4))
    return result
