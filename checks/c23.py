"""C23: association group information is collected from reports in any order"""
import asyncio
import itertools

from mc import sim, wire

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("every history of group info, name and command list reports (some cut short) about known and unknown groups; every schedule of a node answering the "
        "requests late, out of order or not at all while info reports overlap; every group number, boundary profiles, names and command "
        "lists. Groups, requests and the change signals are compared with a model after every report")
AGI = 0x59
NAME, LIST = "AssociationGrpInfo.GroupNameReport", "AssociationGrpInfo.GroupCommandListReport"


def info(*groups):
    """Info report of (group, profile)s"""
    return wire.encode("AssociationGrpInfo.GroupInfoReport", {
        "listMode": 1, "dynamicInfo": 0, "groupCount": len(groups), "groups": [(g, 0, p, 0, 0) for g, p in groups]})


def name(group, text):
    """Name report"""
    return wire.encode(NAME, {"groupingIdentifier": group, "name": text})


def commands(group, pairs):
    """Command list report"""
    return wire.encode(LIST, {"groupingIdentifier": group, "commandClass": [list(p) for p in pairs]})


class Bench:
    """The application, the node and what the command class said"""

    def __init__(self, loop, ch):
        self.loop, self.ch = loop, ch
        self.net = sim.Net(loop, nodes={2, 3})
        self.signals = []
        self.model = {}  # group -> [profile, {possible names}, [possible lists]]

    async def start(self, endpoint=0):
        """Load the node"""
        self.app, gw, _net = await world.application(self.loop, net=self.net, info={2: [0x60, AGI], 3: [AGI]}, endpoints={2: 2},
                                                     capabilities={(2, 1): [AGI], (2, 2): [AGI]})
        self.endpoint = endpoint
        await gw.connectToNode(2)
        self.obj = self.app.nodes["2:{}".format(endpoint)].supported[AGI]
        self.obj.addListener(self)
        self.net.sent.clear()

    def commandClassUpdated(self, _speaker):
        """A change is signalled"""
        self.signals.append(self.state())

    def state(self):
        """What is stored"""
        return {int(i): (int(g.profile), str(g.name or ""), [list(map(int, c)) for c in g.commands or []]) for i, g in self.obj.groupings.items()}

    def send(self, cmd, delay=0):
        """From the node"""
        if len(self.signals) % 2:
            self.net.deliver(self.net.node(2), sim.zip_packet(cmd, 9, src=self.endpoint), delay)
        else:
            self.net.unsolicited(2, cmd, src=self.endpoint, delay=delay)

    def requests(self):
        """What was sent to the node"""
        found = []
        for pkt in self.net.zips():
            check((pkt.remote, pkt.dst) == (sim.node_ip(2), self.endpoint), "wrong destination", "{}", pkt)
            found.append(bytes(pkt.cmd))
        self.net.sent.clear()
        return found

    def compare(self, before, where):
        """The stored groups are those of the model, and changes were signalled"""
        got = self.state()
        check(set(got) == set(self.model), "groups", "{}: groups {} instead of {}", where, got, self.model)
        for group, (profile, text, pairs) in got.items():
            want = self.model[group]
            check(profile == want[0], "profile", "{}: profile of {} is {} instead of {}", where, group, profile, want)
            check(text in want[1], "name", "{}: name of {} is {!r} instead of {}", where, group, text, want)
            check(pairs in want[2], "commands", "{}: commands of {} are {} instead of {}", where, group, pairs, want)
        if got != before:
            check(self.signals and self.signals[-1] == got, "not signalled", "{}: changed to {}, signalled {}", where, got, self.signals[-1:])
        return got


GETS = {NAME: lambda g: bytes([AGI, 0x01, g]), LIST: lambda g: bytes([AGI, 0x05, 0x80, g])}


async def apply(bench, event, where, before):
    """One report"""
    kind, *args = event
    if kind == "info":
        bench.send(info(*args))
        wanted = []
        for group, profile in args:
            old = bench.model.get(group, [0, set(), []])
            # What was known about it may be kept until it is reported again
            bench.model[group] = [profile, {""} | old[1], [[]] + old[2]]
            wanted += [GETS[NAME](group), GETS[LIST](group)]
    elif kind == "name":
        bench.send(name(*args))
        if args[0] in bench.model:
            bench.model[args[0]][1] = {args[1]}
        wanted = []
    elif kind == "list":
        bench.send(commands(*args))
        if args[0] in bench.model:
            bench.model[args[0]][2] = [[list(p) for p in args[1]]]
        wanted = []
    elif kind == "short":
        # Reports that end early
        for whole in (info((args[0], 77), (args[0] + 1, 78)), name(args[0], "short"), commands(args[0], ((1, 2), (3, 4)))):
            for cut in range(2, len(whole)):
                bench.send(whole[:cut])
        wanted = []
    else:
        # Another node or end point
        bench.net.unsolicited(args[0], info((1, 7), (3, 9)), src=args[1])
        await bench.loop.settle()
        bench.net.sent.clear()
        wanted = []
    await bench.loop.settle()
    requests = bench.requests()
    check(sorted(requests) == sorted(wanted), "requests", "{}: {} instead of {}", where, [r.hex() for r in requests], [r.hex() for r in wanted])
    bench.ch.case()
    return bench.compare(before, where)


EVENTS = ([("info", (1, 0x0001)), ("info", (2, 0x2001)), ("info", (1, 0x0102), (2, 0x0201)), ("info",), ("info", (3, 5), (1, 0))]
          + [("name", g, t) for g, t in ((1, "Lifeline"), (1, ""), (2, "Dörr"), (3, "x"))]
          + [("list", g, c) for g, c in ((1, ((0x20, 1), (0x31, 5))), (1, ()), (2, ((0x5A, 1),)), (3, ((0x80, 3),)))]
          + [("other", 3, 0), ("other", 2, 2)] + [("short", 1)])


async def history(loop, ch, events, endpoint):
    """One history"""
    bench = Bench(loop, ch)
    await bench.start(endpoint)
    before = {}
    for event in events:
        before = await apply(bench, event, str(events), before)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])


def histories(ch, first, depth):
    """All histories"""
    for rest in itertools.product(EVENTS, repeat=depth - 1):
        world.run(lambda loop, events=(EVENTS[first],) + rest: history(loop, ch, events, first % 2), horizon=10 ** 6)
    return first


async def play_inputs(loop, ch, start):
    """All groups and awkward contents"""
    bench = Bench(loop, ch)
    await bench.start()
    before = {}
    profiles = [0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x0102]
    names = ["", "a", "Lifeline", "å" * 20, "x" * 42, "y" * 255, "\u20ac uro", "a b:c", "0", "null", " x ", "\tx\r\n",
             "a\x00\x00", "\x00", "\u00a0n\u2028", "Straße", "e\u0301"]
    lists = [[], [[0x20, 1]], [[0, 0]], [[255, 255], [0xF0, 1]], [[c, c ^ 255] for c in range(127)]]
    for group in range(start, start + 16):
        for number in range(len(names)):
            profile, text, pairs = profiles[(number + group) % 8], names[number], lists[number % 5]
            where = "group {} {} {!r} {}".format(group, profile, text, pairs)
            before = await apply(bench, ("info", (group, profile)), where, before)
            before = await apply(bench, ("name", group, text), where, before)
            before = await apply(bench, ("list", group, pairs), where, before)
    if not start:
        many = [(g, 0x0100 + g) for g in range(1, 64)]
        before = await apply(bench, ("info", *many), "63 groups", before)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return start


def inputs(ch, start):
    """All groups"""
    return world.run(lambda loop: play_inputs(loop, ch, start), horizon=10 ** 8)


FAULTS = ("none", 0.6, 2, 7, "lost", "ack lost")
TEXTS = {1: "one", 2: "two", 3: "three"}
LISTS = {1: [[1, 1]], 2: [[2, 2], [3, 3]], 3: []}


async def schedule(loop, ch, reports):
    """Info reports, and a node that answers as it likes"""
    bench = Bench(loop, ch)
    await bench.start()
    asked, lost = {}, set()

    def hook(pkt):
        if pkt.kind != "zip" or pkt.cmd is None:
            return False
        cmd = bytes(pkt.cmd)
        asked[cmd] = asked.get(cmd, 0) + 1
        fault = ch.pick(FAULTS, "fault")
        if fault != "ack lost":
            bench.net.deliver(pkt.transport, sim.ack(pkt.seq, pkt.dst))
        answer = name(cmd[2], TEXTS[cmd[2]]) if cmd[1] == 1 else commands(cmd[3], LISTS[cmd[3]])
        if fault == "lost":
            lost.add(cmd)
        else:
            bench.send(answer, fault if isinstance(fault, (int, float)) else 0)
        return True

    bench.net.hook = hook
    count = {}
    for number, groups in enumerate(reports):
        bench.send(info(*[(g, 0x100 + g) for g in groups]), number * ch.pick((0, 0.3, 4), "gap"))
        for group in groups:
            count[group] = count.get(group, 0) + 1
    await bench.loop.settle()
    for _ in range(60):
        await bench.loop.settle()
        state = bench.state()
        if state:
            check(bench.signals and bench.signals[-1] == state, "not signalled", "{}: {} signalled {}", reports, state, bench.signals[-1:])
        await asyncio.sleep(1)
    where = "{} lost {}".format(reports, [r.hex() for r in lost])
    for group, times in count.items():
        for get in GETS.values():
            check(asked.pop(get(group), 0) == times, "requests", "{}: {} not asked {} times", where, get(group).hex(), times)
        # With several reports one of the requests may be lost, and what was known may be kept
        maybe_name, maybe_list = GETS[NAME](group) in lost, GETS[LIST](group) in lost
        bench.model[group] = [0x100 + group, {TEXTS[group]} | ({""} if maybe_name else set()),
                              [LISTS[group]] + ([[]] if maybe_list else [])]
    check(not asked, "requests", "{}: also {}", where, asked)
    bench.compare(None, where)
    check(not world.errors(loop), "escaped", "{}", loop.errors[:1])
    return where


def schedules(ch, reports):
    """Info reports, and a node that answers as it likes"""
    return world.run(lambda loop: schedule(loop, ch, reports))


SCENARIOS = {"histories": histories, "inputs": inputs, "schedules": schedules}


def jobs(thorough):
    """By first report"""
    result = [("inputs", {"start": s}, None) for s in range(0, 256, 16)]
    result += [("histories", {"first": i, "depth": 4 if thorough else 3}, None) for i in range(len(EVENTS))]
    for reports in ([[1]], [[1, 2]], [[1], [2]], [[1, 2, 3]], [[3], [2], [1]], [[2, 1], [3]], [[1], [1]], [[1, 2], [2]]):
        result.append(("schedules", {"reports": reports}, 4 if thorough else 2) + ((2,) if thorough else ()))
    return result
