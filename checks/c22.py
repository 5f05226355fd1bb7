"""C22: associations are read completely and the lifeline is set up exactly when needed"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("repeated interviews of nodes and end points with every combination of the features that matter, zero to three groups (and 255), "
        "other numbers of groups at every interview, "
        "member lists with and without end points and controller, in one report or split into up to thirty, with acknowledgements and "
        "reports lost, late or mixed with reports of other groups at every position. "
        "Requests, the lifeline command and the stored groups are compared with a model of the node")
PLUS, MULTI, ASSOCIATION, MCA = 0x5E, 0x60, 0x85, 0x8E
FAULTS = ("none", "report lost", "noise", "late", "ack lost", "both lost")
SPLITFAULTS = ("none", "last lost", "noise", "report lost", "ack lost", "both lost")
PLAIN = [[], [(1, None)], [(2, None), (3, None)], [(2, None), (1, None), (232, None)]]
RICH = PLAIN + [[(1, 0)], [(1, 1)], [(2, 1), (1, 0)], [(1, 2), (2, 0)], [(7, None), (3, 1), (3, 2)], [(2, None), (1, None), (9, 127)]]


class Device:
    """The node behind the radio"""

    def __init__(self, groups, split=0):
        self.split = split  # members in one report, or 0 if there is only one
        self.groups = {i + 1: (maximum, list(members)) for i, (maximum, members) in enumerate(groups)}

    def report(self, group, rich):
        """Reports of a group"""
        maximum, members = self.groups.get(group, (0, []))
        members = sorted(members, key=lambda member: member[1] is not None)
        size = self.split or len(members) or 1
        parts = [members[i:i + size] for i in range(0, len(members), size)] or [[]]
        result = []
        for number, part in enumerate(parts):
            data = bytes(n for n, e in part if e is None)
            pairs = b"".join(bytes(m) for m in part if m[1] is not None)
            head = bytes([MCA if rich else ASSOCIATION, 3, group, maximum, len(parts) - number - 1])
            result.append(head + data + (b"\x00" + pairs if pairs else b""))
        return result

    def answer(self, cmd):
        """Its reports, if any"""
        if cmd[:2] == b"\x86\x13":
            return [bytes([0x86, 0x14, cmd[2], 3])]
        if cmd == b"\x85\x05":
            return [bytes([0x85, 0x06, len(self.groups)])]
        if cmd[:2] in (b"\x85\x02", b"\x8e\x02"):
            return self.report(cmd[2], cmd[0] == MCA)
        if cmd[:2] == b"\x85\x01":
            self.add(cmd[2], [(n, None) for n in cmd[3:]])
        if cmd[:2] == b"\x8e\x01":
            rest = cmd[3:]
            mark = rest.index(0) if 0 in rest else len(rest)
            self.add(cmd[2], [(n, None) for n in rest[:mark]] + [tuple(rest[i:i + 2]) for i in range(mark + 1, len(rest), 2)])
        return []

    def add(self, group, members):
        """Associated"""
        self.groups[group][1].extend(m for m in members if m not in self.groups[group][1])


class Bench:
    """The application, the node and what was asked"""

    def __init__(self, ch, net, device, endpoint):
        self.ch, self.net, self.device, self.endpoint = ch, net, device, endpoint
        self.log = []  # (request, fault, time)
        self.reports = []  # (time of arrival, group, (maximum, members), number of the request)
        self.text = []
        self.gap = 0  # seconds between the parts of a long report
        self.faults = SPLITFAULTS if device.split else FAULTS
        net.hook = self.hook

    def send(self, transport, cmd, delay=0):
        """To the application"""
        self.net.extseq = (self.net.extseq + 1) & 0xFF
        self.net.deliver(transport, sim.zip_packet(cmd, self.net.extseq, src=self.endpoint), delay)

    def hook(self, pkt):
        """A request"""
        if pkt.kind != "zip" or pkt.cmd is None or pkt.remote == sim.GW:
            return False
        cmd = bytes(pkt.cmd)
        check(pkt.dst == self.endpoint, "wrong end point", "{}", pkt)
        fault = self.ch.pick(self.faults, "fault")
        self.text.append((cmd.hex(), fault))
        if fault not in ("ack lost", "both lost"):
            self.net.deliver(pkt.transport, sim.ack(pkt.seq, pkt.dst, 0))
        if fault == "noise" and cmd[1] != 1:
            for group in (1, 2, 3, 200):
                if cmd[2:3] != bytes([group]):
                    self.send(pkt.transport, bytes([cmd[0], 3, group, 77, int(bool(self.device.split)), 88]))
                self.send(pkt.transport, bytes([ASSOCIATION ^ MCA ^ cmd[0], 3, group, 78, 0, 89]))
        if not (fault == "both lost" and cmd[1] == 1):
            replies = self.device.answer(cmd)
            if fault == "last lost" and replies:
                replies.pop()
            if cmd[1] == 2:
                maximum, members = self.device.groups.get(cmd[2], (0, []))
                content = (maximum, [m for m in members if m[1] is None] + [m for m in members if m[1] is not None])
                if fault in ("none", "late", "noise"):
                    self.reports.append((pkt.time + (3.5 if fault == "late" else 0), cmd[2], content, len(self.log)))
            if fault in ("none", "ack lost", "late", "noise", "last lost"):
                for number, reply in enumerate(replies):
                    self.send(pkt.transport, reply, 3.5 if fault == "late" else self.gap * number)
        self.log.append((cmd, fault, pkt.time))
        return True


async def play(loop, ch, features, groups, interviews, endpoint, controller, split=0, gap=0, counts=()):
    """Some interviews"""
    # The member lists are written for controller 1: exchange the ids
    node = 1 if controller == 2 else 2
    groups = [(m, [({controller: 1, 1: controller}.get(n, n), e) for n, e in members]) for m, members in groups]
    plus, multi, mca = features
    classes = [ASSOCIATION] + [c for c, on in ((PLUS, plus), (MULTI, multi), (MCA, mca)) if on]
    app, gw, net = await world.application(
        loop, (node,), info={node: [MULTI] if endpoint else classes}, endpoints={node: 1 if endpoint else 0},
        capabilities={(node, 1): classes}, controller=controller)
    obj = app.nodes["{}:{}".format(node, endpoint)].supported[ASSOCIATION]
    await gw.connectToNode(node)
    bench = Bench(ch, net, Device(groups, split), endpoint)
    bench.gap = gap
    get = b"\x8e\x02" if mca else b"\x85\x02"
    lifeline = bytes([MCA, 1, 1, 0, controller, 0]) if mca and multi else bytes([ASSOCIATION, 1, 1, controller])
    known = {}   # group -> (maximum, members) as reported
    version = False
    every = dict(bench.device.groups)
    for number in range(interviews):
        count = counts[number] if counts else len(groups)
        if counts:
            # It has another number of groups now
            bench.device.groups = {group: every[group] for group in range(1, count + 1)}
        bench.log.clear()
        bench.reports.clear()
        bench.text.clear()
        await asyncio.wait_for(obj.interview(), 36000)
        await asyncio.sleep(10)
        ch.step(len(bench.log))
        where = "features {} groups {} interview {}: {}".format(features, groups, number, bench.text)
        left = list(bench.log)

        def expect(request):
            """The next request: (what happened to it, when)"""
            check(left and left[0][0] == request, "request", "{}: {} instead of {}", where, left and left[0][0].hex(), request.hex())
            return left.pop(0)[1:]

        def read(group):
            number = len(bench.log) - len(left)
            fault, when = expect(get + bytes([group]))
            # An earlier report may be late enough to be taken for the answer
            found = [r for r in bench.reports if r[1] == group and (when < r[0] or r[3] == number) and r[0] < when + 3]
            found.sort(key=lambda report: report[0])
            if not found or fault in ("ack lost", "both lost"):
                return False
            known[group] = found[0][2]
            return True

        good = ("none", "noise")
        version = version or expect(b"\x86\x13\x85")[0] in good
        if version and expect(b"\x85\x05")[0] in good:
            for group in range(1, count + 1):
                known.setdefault(group, (0, []))
            for group in [group for group in known if group > count]:
                del known[group]
            # Whether it lists the controller may be unknown: it may then be left for the next interview
            certain = [read(group) for group in range(1, count + 1)][:1] == [True]
            listed = any(m in ((controller, None), (controller, 0)) for m in known.get(1, (0, []))[1])
            if plus and count and not listed and (certain or left):
                expect(lifeline)
                read(1)
        check(not left, "more requests", "{}: {}", where, left)
        got = {int(i): (int(g.maxNodes), [(int(n), e if e is None else int(e)) for n, e in g.nodes]) for i, g in obj.groupings.items()}
        check(got == known, "groups", "{}: stores {} instead of {}", where, got, known)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return tuple(bench.text)


def interviews(ch, features, groups, times=2, endpoint=0, controller=1, **split):
    """Interviews"""
    groups = [(m, [tuple(x) for x in members]) for m, members in groups]
    return world.run(lambda loop: play(loop, ch, features, groups, times, endpoint, controller, **split), horizon=10 ** 7)


SCENARIOS = {"interviews": interviews}


def jobs(thorough):
    """By features and groups"""
    result = []
    for features in itertools.product((False, True), repeat=3):
        lists = RICH if features[2] else PLAIN

        def add(groups, bound, times, endpoint=0, features=features, controller=1, **split):
            result.append(("interviews", {"features": list(features), "groups": groups, "times": times, "endpoint": endpoint,
                                          "controller": controller, **split}, bound))

        deep = features[0]
        add([], 2, 2)
        for number, members in enumerate(lists):
            for endpoint in (0, 1):
                add([(5, members)], 3 if thorough else 2 if deep and not endpoint else 1, 2, endpoint)
            for controller in (2, 3, 7, 128, 232):
                add([(5, members)], 2 if thorough else 0, 2, number & 1, controller=controller)
            for other in lists if thorough else [lists[(number + 3) % len(lists)]]:
                add([(number, members), (255, other)], 2 if thorough else 1, 2)
            add([(1, members), (2, lists[number - 1]), (232, lists[number - 2])], 2 if thorough else 1, 3 if thorough else 2)
        # Lists in several reports, the controller in any of them or in none
        for size, split, gap in ((2, 1, 0), (3, 2, 0.2), (5, 2, 0), (6, 1, 0.1), (60, 2, 0.05), (200, 50, 0.3)):
            for place in sorted({None, 0, size // 2, size - 1}, key=str):
                members = [(n + 2, None) for n in range(size)]
                if place is not None:
                    members[place] = (1, 0) if features[2] and place else (1, None)
                if features[2] and size < 60:
                    members[1:1] = [(n + 3, n) for n in range(size // 2)]
                bound = (1 if size < 6 else 0) + (1 if thorough else 0)
                add([(255, members), (size, members[::-1])], bound, 2, size & 1, split=split, gap=gap)
        # The number of groups changes
        for counts in itertools.product((0, 1, 2, 3, 5), repeat=3):
            if counts[0] and counts[1] != counts[0]:
                add([(9 - n, lists[(n + sum(counts)) % len(lists)]) for n in range(5)], 1 if thorough else 0, 3, counts=list(counts))
        # Groups that say they can not hold what they do
        for members in lists:
            for maximum in (0, 1):
                add([(maximum, members)], 0, 2)
        # As many members as a report can hold, with the controller at any place or not at all
        for count in (32, 33, 64, 130, 231):
            for place in (None, 0, count - 1):
                members = [(n + 2, None) for n in range(count)]
                if place is not None:
                    members[place] = (1, None)
                add([(255, members), (255, members[::-1])], 0, 2)
                if features[2] and count < 120:
                    add([(255, [(n, e % 128) for e, (n, _) in enumerate(members)]), (255, members[:9] + [(7, 3)] * count)], 0, 2)
        add([(i & 255, [(i % 232 + 1, None)]) for i in range(255)], 0, 1)
    return result
