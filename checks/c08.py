"""C08: sending succeeds exactly when that very message was acknowledged in time"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("every sequence of up to three (thorough: four) responses - ack, nack, waiting with no, zero, positive, negative and long delay "
        "- to the own, another or an earlier message, each at the same instant, 1.1 s later, just before or just after the current "
        "deadline, against two or three overlapping sends with timeouts of 1, 3 and 10 s; the same number acknowledged on another "
        "connection; all 256 sequence numbers; waiting responses with delays of up to 97 days and up to 300 of them; "
        "responses some loop iterations apart; "
        "acknowledgements and other responses with every combination of the flags and fields that do not matter. "
        "Result and time of every send are compared with a reference automaton")
ASSUMPTIONS = ["a plain nack is not an acknowledgement: the send fails at its deadline"]

FEW = ["ack0", "ack1", "old", "wait0", "wait0:-1", "wait1:7"]
RESPONSES = ["ack0", "ack1", "old", "unknown", "nack0", "wait0", "wait0:0", "wait0:5", "wait0:-1", "wait0:1800", "wait1:7", "oldwait"]
DELAYS = [0, 1.1, "before", "after"]


def simulate(sends, steps):
    """Reference: sends [(start, timeout)], steps [(response, delay)] -> ([(time, response)], [(end, result)])"""
    deadlines = [start + timeout for start, timeout in sends]
    ends = [None] * len(sends)
    now, events = sends[-1][0], []

    def expire(until):
        for i, end in enumerate(ends):
            if end is None and deadlines[i] <= until:
                ends[i] = (deadlines[i], False)

    for response, delay in steps:
        expire(now)
        pending = [i for i, e in enumerate(ends) if e is None]
        if delay in ("before", "after"):
            if not pending:
                return None
            at = deadlines[pending[0]] + (0.1 if delay == "after" else -0.1)
            if at < now:
                return None
            now = at
        else:
            now += delay
        expire(now)
        events.append((now, response))
        if response[:4] in ("ack0", "ack1", "ack2") or response[:5] in ("wait0", "wait1", "wait2"):
            which = int(response[3] if response.startswith("ack") else response[4])
            if which < len(sends) and ends[which] is None:
                if response.startswith("ack"):
                    ends[which] = (now, True)
                else:
                    value = int(response.partition(":")[2] or 0)
                    deadlines[which] = now + (120 if value < 0 else value) + 60
    expire(float("inf"))
    return events, ends


async def case(loop, net, conn, address, sends, steps, other=None):
    """One case on a living connection"""
    plan = simulate(sends, steps)
    if plan is None:
        return False
    events, ends = plan
    base = loop.time()
    seqs, tasks = [], []
    sent = len(net.sent)

    def begin(number, timeout):
        tasks.append(world.timed(loop, conn.send(world.cls("Basic.Set")(value=number), timeout=timeout)))

    def respond(response):
        transport = net.transports_to(other if other else address)[0]
        for number, pkt in enumerate(p for p in net.sent[sent:] if p.kind == "zip"):
            if len(seqs) <= number:
                seqs.append(pkt.seq)
        if response.startswith("ack"):
            which = int(response[3])
            if which < len(seqs):
                transport.deliver(sim.ack(seqs[which]))
        elif response.startswith("wait"):
            which, delay = int(response[4]), response.partition(":")[2]
            if which < len(seqs):
                transport.deliver(sim.waiting(seqs[which], int(delay) if delay else None))
        elif response == "nack0":
            transport.deliver(sim.zip_packet(None, seqs[0], nackres=True))
        elif response == "old":
            transport.deliver(sim.ack((seqs[0] - 1) & 0xFF))
        elif response == "oldwait":
            transport.deliver(sim.waiting((seqs[0] - 1) & 0xFF, 600))
        else:
            transport.deliver(sim.ack((seqs[0] + 100) & 0xFF))

    for number, (start, timeout) in enumerate(sends):
        loop.env_at(base + start, 0, lambda n=number, t=timeout: begin(n, t))
    for when, response in events:
        loop.env_at(base + when, 2, lambda r=response: respond(r))
    if other:
        ends = [(start + timeout, False) for start, timeout in sends]
    last = max([e[0] for e in ends] + [when for when, _ in events])
    await asyncio.sleep(last + 0.05)
    await loop.settle()
    where = "sends {} responses {}".format(sends, events)
    for number, (task, end) in enumerate(zip(tasks, ends)):
        check(task.done(), "never ends", "{}: send {} not done, expected {}", where, number, end)
        state = world.state(task)
        check(state == ("ok", end[1]), "wrong result", "{}: send {} was {} instead of {}", where, number, state, end)
        check(abs(task.ended - base - end[0]) < 0.01, "wrong time", "{}: send {} ended at {} instead of {}", where, number,
              task.ended - base, end)
    return True


PROFILES = [
    [(0, 3)], [(0, 1)], [(0, 10)], [(0, 3), (0, 3)], [(0, 3), (0.5, 3)], [(0, 10), (0.5, 1)],
]


async def play(loop, ch, target, sends, first, depth, few):
    """All continuations of a first response on one connection"""
    if target == "conn":
        conn, net = await world.connection(loop)
        address = sim.GW
    else:
        gw, net = await world.gateway(loop)
        await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
        await gw.sendToNode(3, world.cls("Basic.Set")(value=0))
        conn = await gw.connectToNode(2)
        address = sim.node_ip(2)
    net.hook = lambda pkt: pkt.kind == "zip"
    done = 0
    alphabet = list(itertools.product(FEW if few else RESPONSES if len(sends) > 1 else [r for r in RESPONSES if "1:" not in r and r != "ack1"], DELAYS))
    if len(sends) > 2:
        alphabet = list(itertools.product(["ack0", "ack1", "ack2", "wait0:5", "wait1", "wait2:-1"], DELAYS))
    for length in range(depth):
        for rest in itertools.product(alphabet, repeat=length):
            steps = ((alphabet[first],) + rest) if first is not None else ()
            if await case(loop, net, conn, address, sends, steps):
                done += 1
                ch.case()
                del net.sent[:], loop.sent_log[:]
    if first is not None and target == "node":
        # The responses come on the connection to another node
        for rest in itertools.product(alphabet, repeat=1):
            if await case(loop, net, conn, address, sends, (alphabet[first],) + rest, other=sim.node_ip(3)):
                done += 1
                ch.case()
        for rest in itertools.product(alphabet, repeat=1):
            if await case(loop, net, conn, address, sends, (alphabet[first],) + rest, other=sim.GW):
                done += 1
                ch.case()
    check(not world.errors(loop), "escaped", "errors in the event loop")
    return (target, len(sends), first, done)


def responses(ch, target, sends, first, depth, few=False):
    """Sequences of responses"""
    return world.run(lambda loop: play(loop, ch, target, [tuple(s) for s in sends], first, depth, few), horizon=10 ** 9)


async def all_numbers(loop, ch, kind):
    """Every sequence number, each acked or left alone while the others of the window are acked"""
    conn, net = await world.connection(loop)
    net.hook = lambda pkt: pkt.kind == "zip"
    seen = []
    for number in range(520):
        task = world.timed(loop, conn.send(world.cls("Basic.Set")(value=number & 0xFF)))
        await loop.settle()
        pkt = [p for p in net.sent if p.kind == "zip"][-1]
        seen.append(pkt.seq)
        check(not task.done(), "early", "{} done before its ack", pkt)
        start = loop.time()
        if kind == "others":
            # Every other number is acknowledged, then the own one
            for seq in range(256):
                if seq != pkt.seq:
                    net.gw.deliver(sim.ack(seq))
            await loop.settle()
            check(not task.done(), "wrong ack", "{} completed by the ack of another message", pkt)
        if kind == "waiting":
            net.gw.deliver(sim.waiting(pkt.seq, number))
            await asyncio.sleep(number + 59.5)
            check(not task.done(), "early", "{} done before its deadline", pkt)
            start = loop.time()
        net.gw.deliver(sim.ack(pkt.seq))
        await loop.settle()
        check(world.state(task) == ("ok", True) and task.ended == start, "not acked", "{}: {}", pkt, task)
        ch.case()
    check(len(set(seen)) > 128, "numbers", "only {} different numbers used", len(set(seen)))
    return kind


def numbers(ch, kind):
    """All sequence numbers"""
    return world.run(lambda loop: all_numbers(loop, ch, kind), horizon=10 ** 9)


LONG = [0, 1, 59, 60, 127, 128, 255, 256, 3600, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 86400, 0x7FFFF, 0x80000, 0x400000, 0x7FFFFE, 0x7FFFFF,
        -1, -2, -128, -256, -0x8000, -0x10000, -0x7FFFFF, -0x800000]


async def play_patience(loop, ch, target, final):
    """Every length of waiting, and waiting again and again"""
    if target == "conn":
        conn, net = await world.connection(loop)
    else:
        gw, net = await world.gateway(loop)
        await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
        conn = await gw.connectToNode(2)
    net.hook = lambda pkt: pkt.kind == "zip"
    histories = [[(delay, "late")] for delay in LONG]
    histories += [[(delay, "late"), (other, "early")] for delay in LONG for other in LONG]
    histories += [[(5, when)] * 20 + [(delay, "late")] for delay in (0, 7, -1, 0x7FFFFF) for when in ("early", "late")]
    histories += [[(delay, "late") for delay in LONG] * 2, [(10, "late")] * 300]
    for history in histories:
        task = world.timed(loop, conn.send(world.cls("Basic.Set")(value=1), timeout=3))
        await loop.settle()
        pkt = [p for p in net.sent if p.kind == "zip"][-1]
        where = "{} told to wait {}".format(target, history[:3])
        until = loop.time() + 3
        for delay, when in history:
            # Just before the time is up, or long before that
            await (loop.suspend(until - loop.time() - 0.1) if when == "late" else asyncio.sleep(0.25))
            check(not task.done(), "wrong time", "{}: gave up at {} instead of {}", where, task.ended, until)
            pkt.transport.deliver(sim.waiting(pkt.seq, delay))
            until = loop.time() + (120 if delay < 0 else delay) + 60
            await loop.settle()
        check(not task.done(), "wrong result", "{}: {}", where, world.state(task))
        await loop.suspend(until - loop.time() - 0.1)
        check(not task.done(), "wrong time", "{}: gave up at {} instead of {}", where, task.ended, until)
        if final:
            pkt.transport.deliver(sim.ack(pkt.seq))
            await loop.settle()
        else:
            await asyncio.sleep(0.2)
        check(world.state(task) == ("ok", final), "wrong result", "{}: {}", where, world.state(task))
        check(final or abs(task.ended - until) < 0.01, "wrong time", "{}: ended at {} instead of {}", where, task.ended, until)
        del net.sent[:], loop.sent_log[:]
        ch.case()
    check(not world.errors(loop), "escaped", "errors in the event loop")
    return target, final


def patience(ch, target, final):
    """Every length of waiting"""
    return world.run(lambda loop: play_patience(loop, ch, target, final), horizon=10 ** 12)


EXTS = [None, [], [(1, b"\x00\x00\x05")], [(2, b"\x00\x01\x00")], [(0x83, b"")], [(5, b"\x01"), (1, b"\xff\xff\xff")], [(0x7F, bytes(200))]]
POINTS = [(0, 0), (0, 1), (1, 0), (127, 0), (0, 127), (5, 64)]


async def play_forms(loop, ch, target, kind):
    """Everything an acknowledgement (or another response) can look like besides what makes it one"""
    if target == "conn":
        conn, net = await world.connection(loop)
    else:
        gw, net = await world.gateway(loop)
        await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
        conn = await gw.connectToNode(2)
    net.hook = lambda pkt: pkt.kind == "zip"
    flags = {"ack": {"ackres": True}, "waiting": {"nackres": True, "waiting": True}, "nack": {"nackres": True}}[kind]
    for ext, (src, dst), more, secure, reserved, cmd in itertools.product(
            EXTS, POINTS, (False, True), (False, True), (0, 1, 0x3F), (None, b"\x25\x03\xff", b"\x99\x01")):
        where = "{}: {} with ext={} end points {}>{} more={} secure={} reserved={:x} command={}".format(
            target, kind, ext, src, dst, more, secure, reserved, cmd)
        task = world.timed(loop, conn.send(world.cls("Basic.Set")(value=1), timeout=3, sourceEP=dst, destEP=src))
        await loop.settle()
        pkt = [p for p in net.sent if p.kind == "zip"][-1]
        await asyncio.sleep(1)
        packet = sim.zip_packet(cmd, pkt.seq, src=src, dst=dst, more=more, secure=secure, reserved=reserved,
                                ext=None if ext is None else sim.header_ext([sim.option(*o) for o in ext]), **flags)
        pkt.transport.deliver(packet)
        await loop.settle()
        if kind == "ack":
            check(world.state(task) == ("ok", True), "wrong result", "{}: {}", where, world.state(task))
        elif kind == "nack":
            check(not task.done(), "wrong result", "{}: {} before its time", where, world.state(task))
            await asyncio.sleep(2.1)
            check(world.state(task) == ("ok", False), "wrong result", "{}: {}", where, world.state(task))
        else:
            # The delay, if it is told, is in the first kind of option
            delays = [int.from_bytes(data, "big", signed=True) for number, data in ext or () if number == 1]
            until = loop.time() + ((120 if delays[0] < 0 else delays[0]) if delays else 0) + 60
            await loop.suspend(until - loop.time() - 0.1)
            check(not task.done(), "wrong time", "{}: gave up at {} instead of {}", where, task.ended, until)
            await asyncio.sleep(0.2)
            check(world.state(task) == ("ok", False), "wrong result", "{}: {}", where, world.state(task))
        del net.sent[:], loop.sent_log[:]
        ch.case()
    check(not world.errors(loop), "escaped", "errors in the event loop")
    return target, kind


def forms(ch, target, kind):
    """All forms of one response"""
    return world.run(lambda loop: play_forms(loop, ch, target, kind), horizon=10 ** 9, dressed=None)


async def play_close(loop, ch, target, lags):
    """The acknowledgement comes right after other responses, or almost"""
    if target == "conn":
        conn, net = await world.connection(loop)
    else:
        gw, net = await world.gateway(loop)
        await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
        conn = await gw.connectToNode(2)
    net.hook = lambda pkt: pkt.kind == "zip"
    kinds = {"wait 7": lambda seq: sim.waiting(seq, 7), "wait -": lambda seq: sim.waiting(seq, -1), "wait": lambda seq: sim.waiting(seq, None),
             "nack": lambda seq: sim.zip_packet(None, seq, nackres=True), "old": lambda seq: sim.ack((seq - 1) & 0xFF)}
    for count in (1, 2):
        for before in itertools.product(kinds, repeat=count):
            for gaps in itertools.product(range(lags), repeat=count):
                for pause in (0, 1):
                    task = world.timed(loop, conn.send(world.cls("Basic.Set")(value=1), timeout=3))
                    await loop.settle()
                    pkt = [p for p in net.sent if p.kind == "zip"][-1]
                    await asyncio.sleep(pause)
                    for kind, gap in zip(before, gaps):
                        pkt.transport.deliver(kinds[kind](pkt.seq))
                        for _ in range(gap):
                            await asyncio.sleep(0)
                    now = loop.time()
                    pkt.transport.deliver(sim.ack(pkt.seq))
                    await loop.settle()
                    check(world.state(task) == ("ok", True) and task.ended == now, "wrong result",
                          "{} {} steps before the ack: {}", before, gaps, world.state(task))
                    del net.sent[:], loop.sent_log[:]
                    ch.case()
    check(not world.errors(loop), "escaped", "errors in the event loop")
    return target


def close(ch, target, lags):
    """Close to each other"""
    return world.run(lambda loop: play_close(loop, ch, target, lags), horizon=10 ** 9)


SCENARIOS = {"close": close, "responses": responses, "numbers": numbers, "patience": patience, "forms": forms}


def jobs(thorough):
    """By the first response"""
    result = [("numbers", {"kind": k}, None) for k in ("own", "others", "waiting")]
    result += [("patience", {"target": t, "final": f}, None) for t in ("conn", "node") for f in (True, False)]
    result += [("forms", {"target": t, "kind": k}, None) for t in ("conn", "node") for k in ("ack", "nack", "waiting")]
    result += [("close", {"target": t, "lags": 16 if thorough else 8}, None) for t in ("conn", "node")]
    for target in ("conn", "node"):
        for number, sends in enumerate(PROFILES):
            count = (len(RESPONSES) if len(sends) > 1 else len(RESPONSES) - 2) * len(DELAYS)
            result.append(("responses", {"target": target, "sends": sends, "first": None, "depth": 1}, None))
            for first in range(count):
                depth = 2
                if number == 4 and target == "conn" and first < len(FEW) * len(DELAYS):
                    result.append(("responses", {"target": target, "sends": sends, "first": first, "depth": 4 if thorough else 3,
                                                 "few": True}, None))
                if thorough:
                    depth = 4 if number == 0 and target == "conn" else 3
                elif number == 0 and target == "conn":
                    depth = 3
                result.append(("responses", {"target": target, "sends": sends, "first": first, "depth": depth}, None))
        sends = [(0, 3), (0, 3), (0.5, 10)]
        for first in range(6 * len(DELAYS)):
            result.append(("responses", {"target": target, "sends": sends, "first": first, "depth": 3 if thorough else 2}, None))
    return result
