"""C21: configuration values read and written are those of the node"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("every parameter number with boundary values in every size reported, read and written; every history of reports, cached and forced "
        "reads, writes, reports cut short and traffic of other nodes over three parameters; every schedule of two concurrent reads with late, lost and early "
        "reports and acknowledgements. Results, requests and stored parameters are compared with a model of the node")
CONFIG = 0x70


def encoded(number, size, value):
    """Report bytes"""
    return bytes([0x70, 0x06, number, size]) + value.to_bytes(size, "big")


class Bench:
    """An application and a node with parameters"""

    def __init__(self, loop, ch):
        self.loop, self.ch = loop, ch
        self.net = sim.Net(loop, nodes={2, 3})
        self.truth = {}     # what the node holds
        self.reported = {}  # what it last reported
        self.obj = None

    async def start(self, endpoint=0):
        """Load the node"""
        app, gw, _net = await world.application(self.loop, net=self.net, info={2: [0x60, CONFIG], 3: [CONFIG]}, endpoints={2: 2},
                                                capabilities={(2, 1): [CONFIG], (2, 2): [CONFIG]})
        for node in (2, 3):
            await gw.connectToNode(node)
        self.endpoint = endpoint
        self.obj = app.nodes["2:{}".format(endpoint)].supported[CONFIG]
        self.app = app
        self.net.script[2] = self.answer
        self.net.sent.clear()

    def answer(self, cmd, pkt):
        """The node"""
        check(pkt.dst == self.endpoint, "wrong end point", "{}", pkt)
        if cmd[:2] == b"\x70\x05" and len(cmd) == 3:
            size, value = self.truth.get(cmd[2], (1, cmd[2] ^ 0x55))
            self.reported[cmd[2]] = (size, value)
            return [encoded(cmd[2], size, value)]
        return []

    def report(self, number, size, value, path=0):
        """An unsolicited report"""
        self.truth[number] = self.reported[number] = (size, value)
        if path:
            self.net.deliver(self.net.node(2), sim.zip_packet(encoded(number, size, value), 3, src=self.endpoint))
        else:
            self.net.unsolicited(2, encoded(number, size, value), src=self.endpoint)

    def requests(self):
        """What was sent to nodes"""
        found = [(p.remote, p.dst, bytes(p.cmd)) for p in self.net.zips()]
        self.net.sent.clear()
        return found

    def sent(self, *cmds):
        """Exactly these commands were sent to the node"""
        got, want = self.requests(), [(sim.node_ip(2), self.endpoint, bytes(c)) for c in cmds]
        check(got == want, "requests", "sent {} instead of {}", got, want)

    def stored(self, where):
        """The stored parameters are those last reported"""
        got = {int(n): (int(p.size), int(p.value)) for n, p in self.obj.parameters.items()}
        check(got == self.reported, "stored", "{}: stores {} instead of {}", where, got, self.reported)
        self.ch.case()


def boundary(size):
    """Values of this size"""
    if size == 1:
        return list(range(256))
    found = set()
    for fill in (0, (1 << 8 * size) - 1):
        for byte, value in itertools.product(range(size), (0, 1, 2, 0x7F, 0x80, 0xAA, 0xFE, 0xFF)):
            found.add(fill & ~(0xFF << 8 * byte) | value << 8 * byte)
    return sorted(found)


async def play_values(loop, ch, start, endpoint):
    """All numbers and values"""
    bench = Bench(loop, ch)
    await bench.start(endpoint)
    sizes = [(s, v) for s in (1, 2, 4) for v in boundary(s)]
    numbers = range(start, start + 8)
    for position, number in enumerate(numbers):
        for size, value in sizes if position in (0, 7) else sizes[position::16]:
            bench.report(number, size, value, path=value & 1)
            await loop.settle()
            bench.stored("report")
            check(await bench.obj.get(number) == value, "cached read", "{} {}", number, value)
            bench.sent()
            new = (value + 1) & ((1 << 8 * size) - 1)
            bench.truth[number] = (size, new)
            check(await bench.obj.get(number, cached=False) == new, "forced read", "{} {}", number, new)
            bench.sent(bytes([0x70, 0x05, number]))
            bench.stored("forced read")
            check(await bench.obj.set(number, size, value) is True, "write", "{} {}", number, value)
            bench.sent(bytes([0x70, 0x04, number, size]) + value.to_bytes(size, "big"))
            bench.stored("write")
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return start


def values(ch, start, endpoint):
    """All numbers and values"""
    return world.run(lambda loop: play_values(loop, ch, start, endpoint), horizon=10 ** 8)


async def play_all(loop, ch, order, endpoint):
    """All parameters of one node"""
    bench = Bench(loop, ch)
    await bench.start(endpoint)
    numbers = list(range(256))
    numbers = numbers[::-1] if order == "down" else numbers[1::2] + numbers[::2] if order == "odd first" else numbers
    for turn in range(2):
        for number in numbers:
            size = (1, 2, 4)[(number + turn) % 3]
            value = (number * 0x01020307 + turn) % (1 << 8 * size)
            if (number + turn) % 2:
                bench.report(number, size, value, path=number & 1)
                await loop.settle()
            else:
                bench.truth[number] = (size, value)
                check(await bench.obj.get(number, cached=False) == value, "forced read", "{} {}", number, value)
                bench.sent(bytes([0x70, 0x05, number]))
            bench.stored("parameter {}".format(number))
        for number in reversed(numbers):
            check(await bench.obj.get(number) == bench.reported[number][1], "cached read", "{} {}", number, bench.reported[number])
            bench.sent()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return order


def every(ch, order, endpoint):
    """All parameters of one node"""
    return world.run(lambda loop: play_all(loop, ch, order, endpoint), horizon=10 ** 8)


OPS = [(op, n) for op in ("report", "get", "force", "set", "answer") for n in (1, 2, 255)] + [("other end point", 1), ("other node", 2), ("lost", 1), ("short", 1), ("short answer", 1)]


async def history(loop, ch, ops, endpoint):
    """One history"""
    bench = Bench(loop, ch)
    await bench.start(endpoint)
    where = str(ops)
    for number, (op, param) in enumerate(ops):
        size = (1, 2, 4)[(number + param) % 3]
        value = (number * 37 + param) * 0x010101 % (1 << 8 * size)
        if op == "report":
            bench.report(param, size, value)
            await loop.settle()
            bench.sent()
        elif op in ("get", "force"):
            known = bench.reported.get(param)
            got = await bench.obj.get(param, cached=op == "get") if op == "force" or number % 2 else await bench.obj.get(param)
            if op == "get" and known:
                check(got == known[1], "cached read", "{}: {} instead of {}", where, got, known)
                bench.sent()
            else:
                check(got == bench.reported[param][1], "read", "{}: {} instead of {}", where, got, bench.reported[param])
                bench.sent(bytes([0x70, 0x05, param]))
        elif op == "set":
            check(await bench.obj.set(param, size, value) is True, "write", where)
            bench.truth[param] = (size, value)
            bench.sent(bytes([0x70, 0x04, param, size]) + value.to_bytes(size, "big"))
        elif op == "answer":
            # Changed by hand, not reported
            bench.truth[param] = (size, value)
        elif op == "lost":
            bench.net.hook = lambda pkt: pkt.kind == "zip"
            task = asyncio.ensure_future(bench.obj.get(param, cached=False))
            await asyncio.sleep(7)
            check(world.state(task) == world.TIMEOUT, "lost", "{}: {}", where, world.state(task))
            bench.net.hook = None
            bench.sent(bytes([0x70, 0x05, param]))
        elif op == "short":
            # Reports that end early
            for cut in range(2, 4 + size):
                bench.net.unsolicited(2, encoded(param, size, value)[:cut], src=endpoint)
                bench.net.deliver(bench.net.node(2), sim.zip_packet(encoded(param + 1, size, value)[:cut], 3, src=endpoint))
            await loop.settle()
        elif op == "short answer":
            for cut in range(2, 4 + size):
                bench.net.script[2] = lambda cmd, pkt, n=cut: [encoded(cmd[2], size, value)[:n]] if cmd[1] == 5 else []
                task = asyncio.ensure_future(bench.obj.get(param, cached=False))
                await asyncio.sleep(7)
                check(world.state(task) in (world.TIMEOUT, ("ok", None)), "incomplete", "{}: {}", where, world.state(task))
                bench.sent(bytes([0x70, 0x05, param]))
                check(bench.obj.parameters.get(param) is None or param in bench.reported, "incomplete", "{}: {}", where, bench.obj.parameters)
            bench.net.script[2] = bench.answer
        elif op == "other node":
            bench.net.unsolicited(3, encoded(param, size, value), src=0)
            await loop.settle()
        else:
            bench.net.unsolicited(2, encoded(param, size, value), src=2)
            await loop.settle()
        bench.stored(where)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])


def histories(ch, first, depth):
    """All histories"""
    for rest in itertools.product(OPS, repeat=depth - 1):
        world.run(lambda loop, ops=(OPS[first],) + rest: history(loop, ch, ops, first % 2), horizon=10 ** 6)
    return first


ACKS = (0.05, 0.8, None)
REPLIES = (0.3, 1.4, 3.4, None)


async def schedule(loop, ch, first):
    """Two concurrent reads"""
    bench = Bench(loop, ch)
    await bench.start()
    known = ch.flag("known", free=True)
    arrivals = []  # (time, number, value)
    start = None
    bench.net.script.pop(2)

    def arrive(delay, number, value, transport):
        when = loop.time() - start + delay
        arrivals.append((when, number, value))
        bench.net.deliver(transport, sim.zip_packet(encoded(number, 1, value), value), delay)

    if known:
        for number in (1, 2):
            bench.net.unsolicited(2, encoded(number, 1, 100 + number))
        await loop.settle()
    start = loop.time()
    second = ch.pick([None, (1, False), (2, False), (1, True), (2, True)], "second", free=True)
    gets = [g for g in (first, second) if g]
    plans = {}
    extra = ch.pick([None, (0.65, 1), (0.65, 2), (1.75, 1), (1.75, 2)], "extra", free=True)
    values_ = iter(range(1, 99))
    order = []

    def hook(pkt):
        if pkt.kind != "zip" or pkt.cmd is None:
            return False
        check(pkt.cmd[:2] == b"\x70\x05" and len(pkt.cmd) == 3, "requests", "{}", pkt)
        acked, reply = ch.pick(ACKS, "ack", free=True), ch.pick(REPLIES, "reply", free=True)
        order.append((pkt.cmd[2], loop.time() - start, acked))
        if acked:
            bench.net.deliver(pkt.transport, sim.ack(pkt.seq), acked)
        if reply:
            arrive(reply, pkt.cmd[2], next(values_), pkt.transport)
        return True

    bench.net.hook = hook
    tasks = []
    for index, (number, cached) in enumerate(gets):
        plans[index] = loop.time() - start
        tasks.append(asyncio.ensure_future(bench.obj.get(number, cached=cached)))
        await asyncio.sleep(0.1)
    if extra:
        arrive(extra[0], extra[1], 90, bench.net.node(2))
    await asyncio.sleep(12)
    unused = list(order)
    where = "known {} reads {} extra {} requests {} arrivals {}".format(known, gets, extra, order, sorted(arrivals))
    for index, (number, cached) in enumerate(gets):
        began = plans[index]
        if cached and known:
            check(world.state(tasks[index]) == ("ok", 100 + number), "cached read", "{}: {}", where, world.state(tasks[index]))
            continue
        mine = [r for r in unused if r[0] == number]
        check(mine, "not asked", where)
        unused.remove(mine[0])
        acked = mine[0][2]
        after = sorted(a for a in arrivals if a[1] == number and a[0] > began)
        in_time = acked and after and after[0][0] < began + acked + 3
        want = ("ok", after[0][2]) if in_time else world.TIMEOUT
        check(world.state(tasks[index]) == want, "read", "{}: read {} gave {} instead of {}", where, index, world.state(tasks[index]), want)
    check(not unused, "asked too much", where)
    bench.reported = {number: (1, value) for number, value in ((1, 101), (2, 102))} if known else {}
    bench.reported.update({number: (1, value) for _w, number, value in sorted(arrivals)})
    bench.stored(where)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return where


def schedules(ch, first):
    """Two concurrent reads"""
    return world.run(lambda loop: schedule(loop, ch, first))


SCENARIOS = {"every": every, "values": values, "histories": histories, "schedules": schedules}


def jobs(thorough):
    """By number, first operation"""
    result = [("values", {"start": s, "endpoint": (s >> 3) % 3}, None) for s in range(0, 256, 8)]
    result += [("histories", {"first": i, "depth": 4 if thorough else 3}, None) for i in range(len(OPS))]
    result += [("every", {"order": order, "endpoint": e}, None) for e, order in enumerate(("up", "down", "odd first"))]
    result += [("schedules", {"first": f}, None, 3) for f in ((1, False), (1, True))]
    return result
