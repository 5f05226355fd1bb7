"""C20: sensor reports are passed on exactly when the node supports them"""
import itertools

from mc import sim, wire

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("nodes interviewed on the wire with every sensor type and every scale mask, all pairs of masks of two types, tables of many types, all "
        "versions; then reports of their own, the neighbouring and other types in every scale, all precisions, sizes and all or boundary "
        "values, histories of interviews with changed tables, and reports in the midst of interviews. "
        "Listeners must hear exactly the supported reports with the value on the wire")
SENSOR = 0x31


def encode(report):
    """Bytes of a report (type, raw, precision, scale, size)"""
    return wire.encode("SensorMultilevel.Report", {"sensorType": report[0], "sensorValue": report[1:]})


class Bench:
    """An application whose nodes are multilevel sensors with a table each"""

    def __init__(self, loop, ch, tables, version):
        self.loop, self.ch = loop, ch
        self.tables = dict(tables)  # node -> {type: mask}
        self.version = version
        self.net = sim.Net(loop, nodes=set(tables))
        self.app, self.ears = None, {}
        self.busy = []  # reports sent in the midst of an interview
        self.sent = 0

    async def start(self, endpoint=False):
        """Load the nodes and listen to them"""
        info = {n: [0x60] if endpoint else [SENSOR] for n in self.tables}
        self.app, _gw, _net = await world.application(
            self.loop, net=self.net, info=info, endpoints={n: 1 for n in self.tables} if endpoint else {},
            capabilities={(n, 1): [SENSOR] for n in self.tables} if endpoint else {})
        self.endpoint = int(endpoint)
        for node in self.tables:
            self.net.script[node] = lambda cmd, _pkt, node=node: self.answer(node, cmd)
            self.ears[node] = world.Ear("onReport")
            self.sensor(node).addListener(self.ears[node])

    def sensor(self, node):
        """Its command class"""
        return self.app.nodes["{}:{}".format(node, self.endpoint)].supported[SENSOR]

    async def interview(self, node):
        """Ask what it supports"""
        await self.app.nodes["{}:{}".format(node, self.endpoint)].interview()
        if self.version >= 5:
            want = dict(self.tables[node])
            got = {int(t): int(m) for t, m in self.sensor(node).supportedTypes.items()}
            check(got == want, "types", "types of {} are {} instead of {}", node, got, want)
        check(self.sensor(node).interviewed == bool(self.version), "interviewed", "version {} {}", self.version, self.sensor(node).interviewed)

    def answer(self, node, cmd):
        """The sensor"""
        if self.busy and cmd[0] == SENSOR:
            self.sent += 1
            for report in self.busy:
                self.net.unsolicited(node, encode(report), src=self.endpoint)
        if cmd[:2] == b"\x86\x13":
            return [bytes([0x86, 0x14, cmd[2], self.version])]
        if cmd == b"\x31\x01":
            return [wire.encode("SensorMultilevel.SupportedSensorReport", {"bitMask": sorted(self.tables[node])})]
        if cmd[:2] == b"\x31\x03":
            return [bytes([0x31, 0x06, cmd[2], self.tables[node].get(cmd[2], 0)])]
        return []

    async def interview_busy(self, node, reports):
        """Asked again what it supports, which is the same as before, while it reports"""
        self.busy, self.sent = reports, 0
        await self.interview(node)
        self.busy = []
        await self.report(node, reports * self.sent, arrived=True)

    async def report(self, node, reports, interviewed=True, arrived=False):
        """Reports (type, raw, precision, scale, size)"""
        for report in reports if not arrived else ():
            self.net.unsolicited(node, encode(report), src=self.endpoint)
        await self.loop.settle()
        known = interviewed and self.version >= 5
        want = []
        for sensor, raw, precision, scale, size in reports:
            if not known or self.tables[node].get(sensor, 0) >> scale & 1:
                want.append((sensor, (float("%.12g" % (raw / 10 ** precision)), scale)))
        calls = self.ears[node].take()
        got = [(int(msg.sensorType), (float("%.12g" % float(msg.sensorValue)), int(msg.sensorValue.scale))) for _n, msg, _f in calls]
        where = "version {} table {}".format(self.version, self.tables[node])
        check([g[0] for g in got] == [w[0] for w in want], "filter", "{}: heard types {} instead of {} out of {}", where, got, want, reports)
        check(got == want, "value", "{}: heard {} instead of {}", where, got, want)
        for other, ear in self.ears.items():
            check(not ear.take(), "other node", "{} heard a report of {}", other, node)
        self.ch.case(len(reports))


NODES = range(2, 232)


async def tables_main(loop, ch, tables, probes, version, endpoint=False):
    """Every table on a node of its own"""
    while tables:
        batch, tables = tables[:len(NODES)], tables[len(NODES):]
        bench = Bench(loop, ch, dict(zip(NODES, batch)), version)
        await bench.start(endpoint)
        for node, table in bench.tables.items():
            if version:
                await bench.interview(node)
            await bench.report(node, [(t, 0x0123 + t, 1, s, 2) for t in probes(table) for s in range(4)], bool(version))
        check(not loop.errors, "escaped", "{}", loop.errors[:1])
        loop.errors.clear()


def near(table):
    """Types to try"""
    types = set()
    for sensor in table:
        types |= {sensor, (sensor - 1) & 255, (sensor + 1) & 255, sensor ^ 0x80, sensor ^ 8, sensor ^ 1}
    return sorted(types | {0, 1, 255})


def single(ch, start, version=5):
    """Every type with every mask"""
    tables = [{t: m} for t in range(max(1, start), start + 16) for m in range(16)]
    for part in (tables[:128], tables[128:]):
        world.run(lambda loop, part=part: tables_main(loop, ch, part, near, version, start % 32 == 16), horizon=10 ** 8)
    return start


def several(ch, mask, version=5):
    """Two types with every pair of masks, and many types"""
    tables = [{1: mask, other: m} for m in range(16) for other in (2, 8, 9, 0x41, 255)]
    tables += [{t: (t * 7 + mask) & 15 for t in range(1, top)} for top in (9, 18, 65)]
    world.run(lambda loop: tables_main(loop, ch, tables, near if mask else lambda _t: range(256), version), horizon=10 ** 8)
    return mask


def versions(ch, version):
    """All versions"""
    tables = [{}, {1: 1}, {1: 2, 0x40: 9}, {5: 15}]
    world.run(lambda loop: tables_main(loop, ch, tables, lambda _t: (0, 1, 2, 5, 0x40, 255), version), horizon=10 ** 8)
    return version


def raws(size):
    """Values of this size: all of one byte, boundary ones of more"""
    if size == 1:
        return range(-128, 128)
    bits = size * 8
    found = {0, 1, -1, (1 << bits - 1) - 1, -(1 << bits - 1), 1 - (1 << bits - 1)}
    for bit in range(bits - 1):
        found |= {1 << bit, -(1 << bit), (1 << bit) - 1, -(1 << bit) - 1}
    found |= {sum(b << 8 * i for i, b in enumerate(bs)) - (1 << bits - 1) for bs in itertools.product((0, 1, 0x7F, 0x80, 0xFF), repeat=size)
              if size == 2 or len(set(bs)) < 4}
    return sorted(found)


def values(ch, precision, version):
    """All values"""

    async def main(loop):
        bench = Bench(loop, ch, {2: {1: 15, 0x40: 5}}, version)
        await bench.start()
        await bench.interview(2)
        for size, scale, sensor in itertools.product((1, 2, 4), range(4), (1, 0x40, 3)):
            await bench.report(2, [(sensor, raw, precision, scale, size) for raw in raws(size)])

    world.run(main, horizon=10 ** 8)
    return precision


EVENTS = ("interview 0", "interview 1", "interview 2", "interview 3", "again", "reports", "other")
TABLES = ({1: 1, 5: 2}, {1: 3}, {}, {5: 2, 0x40: 8, 9: 1})


def histories(ch, depth, version):
    """Interviews with changed tables and reports"""

    async def main(loop):
        bench = Bench(loop, ch, {2: TABLES[0], 3: TABLES[3]}, version)
        await bench.start()
        known = {2: False, 3: False}
        everything = [(t, 77, 1, s, 1) for t in (1, 5, 9, 0x40, 2) for s in range(4)]
        for _ in range(depth):
            event = ch.pick(EVENTS, "event", free=True)
            if event.startswith("interview"):
                bench.tables[2] = TABLES[int(event[-1])]
                await bench.interview(2)
                known[2] = True
            elif event == "again" and known[2]:
                await bench.interview_busy(2, everything)
            elif event == "other":
                await bench.interview(3)
                known[3] = True
            for node in (2, 3):
                await bench.report(node, everything, known[node])
        check(not loop.errors, "escaped", "{}", loop.errors[:1])

    world.run(main, horizon=10 ** 8)
    return depth


SCENARIOS = {"single": single, "several": several, "versions": versions, "values": values, "histories": histories}


def jobs(thorough):
    """By type, mask, version and precision"""
    result = [("single", {"start": s, "version": v}, None) for s in range(0, 256, 16) for v in ((5, 11) if thorough else (5,))]
    result += [("several", {"mask": m, "version": v}, None) for m in range(16) for v in ((5, 11, 255) if thorough else (7,))]
    result += [("versions", {"version": v}, None) for v in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 127, 128, 255)]
    result += [("values", {"precision": p, "version": v}, None) for p in range(8) for v in (4, 5)]
    result += [("histories", {"depth": 5 if thorough else 3, "version": v}, None, 2 if thorough else 1) for v in (3, 5, 11)]
    return result
