"""C07: concurrent waiters for the same message never disturb each other"""
import asyncio
import itertools

from mc import report, sim, wire

from . import world
from .world import check, raw

from pyzwave.util import MessageWaiter

LEVEL = "model_checking"
RULE = ("waiters: every combination of up to three waits (message type, start, timeout, cancellation, with a session set up before or "
        "not) with every set of up to three arriving messages, including cancellations and arrivals in the same iteration of the "
        "event loop; up to 256 waits at once; requests: up to three overlapping requests on a connection or node with all orders of their acks and reports; leftovers: every sequence of "
        "up to two (thorough: three) requests ending in one of eleven ways, after which the next report must reach the listeners. Every wait must end as the arrival log says")
ASSUMPTIONS = ["which of a message, a timeout and a cancellation at the same instant wins is left open for the wait concerned, never for "
               "the others"]

TYPES = {"A": "Basic.Report", "B": "SwitchBinary.Report"}
STARTS = [0.0, 1.0, 2.0]
TIMEOUTS = [1.5, 4.0]
CANCELS = [None, 1.25, 2.5]
SLOTS = [0.5, 1.25, 1.5, 2.25, 2.5, 3.5]


def profiles():
    """What one waiter may do: (type, start, timeout, cancel, session)"""
    for kind, start, timeout, cancel, session in itertools.product("AB", STARTS, TIMEOUTS, CANCELS, (False, True)):
        if cancel is not None and cancel <= start:
            continue
        yield (kind, start, timeout, cancel, session)


def arrivals(limit):
    """All sets of up to limit messages"""
    for count in range(limit + 1):
        for slots in itertools.combinations(range(len(SLOTS)), count):
            for kinds in itertools.product("AB", repeat=count):
                yield [(SLOTS[s], k) for s, k in zip(slots, kinds)]


def expected(profile, messages):
    """The ways the wait may end: [(time, outcome)], outcome is the number of the message, 'timeout' or 'cancelled'"""
    kind, start, timeout, cancel, _session = profile
    ends = [(start + timeout, "timeout")]
    if cancel is not None:
        ends.append((cancel, "cancelled"))
    ends += [(when, i) for i, (when, what) in enumerate(messages) if what == kind and when > start][:1]
    first = min(t for t, _ in ends)
    return [e for e in ends if e[0] == first]


async def one(loop, profiles_, messages, lag, where):
    """One case"""
    base = loop.time()
    waiter = MessageWaiter()
    tasks = []
    handled = {}
    ended = {}

    async def wait(number, profile):
        kind, _start, timeout, _cancel, session = profile
        msgcls = world.cls(TYPES[kind])
        try:
            if session:
                # Set up before something else is awaited, as sendAndReceive does
                fut = waiter.addWaitingSession(msgcls)
                await asyncio.sleep(0)
                msg = await waiter.waitForMessage(msgcls, timeout=timeout, session=fut)
            else:
                msg = await waiter.waitForMessage(msgcls, timeout=timeout)
            ended[number] = (loop.time() - base, int(msg.value))
        except asyncio.TimeoutError:
            ended[number] = (loop.time() - base, "timeout")
        except asyncio.CancelledError:
            ended[number] = (loop.time() - base, "cancelled")

    def begin(number, profile):
        tasks.append(asyncio.ensure_future(wait(number, profile)))
        tasks[-1].number = number

    def cancel(number):
        for task in tasks:
            if task.number == number:
                task.cancel()

    def arrive(number, kind):
        handled[number] = waiter.messageReceived(world.cls(TYPES[kind])(value=number))

    for number, profile in enumerate(profiles_):
        loop.env_at(base + profile[1], 0, lambda n=number, p=profile: begin(n, p))
    if not lag:
        for number, (when, kind) in enumerate(messages):
            loop.env_at(base + when, 0, lambda n=number, k=kind: arrive(n, k))
    for number, profile in enumerate(profiles_):
        if profile[3] is not None:
            loop.env_at(base + profile[3], 0, lambda n=number: cancel(n))
    if lag:
        for number, (when, kind) in enumerate(messages):
            loop.env_at(base + when, lag - 1, lambda n=number, k=kind: arrive(n, k))
    await asyncio.sleep(8)
    wanted = [expected(p, messages) for p in profiles_]
    for number, want in enumerate(wanted):
        got = ended.get(number, "nothing")
        check(got in want, "wrong end", "{}: wait {} ended as {} instead of {}", where, number, got, want)
    for number, (when, kind) in enumerate(messages):
        sure = [w for w, p in zip(wanted, profiles_) if (when, number) in w and len(w) == 1]
        maybe = [w for w, p in zip(wanted, profiles_) if (when, number) in w]
        check(handled[number] if sure else not handled[number] if not maybe else True, "handled",
              "{}: message {} handled {} sure {} maybe {}", where, number, handled[number], len(sure), len(maybe))
    for kind in "AB":
        check(not waiter.messageReceived(world.cls(TYPES[kind])(value=99)), "left behind", "{}: a finished wait took a message", where)
    # Nothing is left that could take a new wait's place
    task = asyncio.ensure_future(waiter.waitForMessage(world.cls(TYPES["A"]), timeout=1))
    await asyncio.sleep(0.5)
    check(waiter.messageReceived(world.cls(TYPES["A"])(value=98)), "left behind", "{}: a new wait got nothing", where)
    check(int((await task).value) == 98, "left behind", "{}: wrong message", where)


def waiters(ch, first, count, limit, lag):
    """All companions of one waiter and all arrivals"""
    options = list(profiles())

    async def main(loop):
        done = 0
        others = [()]
        if count == 2:
            others = [(p,) for p in options[first:]]
        if count == 3:
            # Three of the same type, the timing decides
            some = [p for p in options if p[0] == "A" and not p[4]]
            others = [pair for pair in itertools.combinations_with_replacement(some, 2)]
        for other in others:
            for messages in arrivals(limit):
                if count == 3 and any(k == "B" for _t, k in messages):
                    continue
                chosen = (options[first],) + other
                await one(loop, chosen, messages, lag, "{} with {} lag {}".format(chosen, messages, lag))
                done += 1
                ch.case()
        check(not world.errors(loop), "escaped", "errors in the event loop")
        return (first, count, done)

    return world.run(main, horizon=10 ** 9)


ACKS = [(0, 0), (0, 3), (1.0, 0), (2.9, 0), None]
REPORTS = [(0, 1), (0, 0), (0.4, 0), (1.5, 0), (2.8, 0), None]


async def overlap(loop, ch, target, count):
    """Overlapping requests of the same kind"""
    log = []
    if target == "conn":
        conn, net = await world.connection(loop)
        address = sim.GW
    else:
        app, _gw, net = await world.application(loop, (2,), info={2: [0x20, 0x70]})
        conn = app.nodes["2:0"]
        address = sim.node_ip(2)
        await conn.send(world.cls("Basic.Set")(value=0))
    plans = []

    def arrive(value, subject):
        def fire():
            log.append((loop.time(), value, subject))
            cmd = raw("Configuration.Report", parameterNumber=subject, size=1, value=value) if target == "config" else raw(
                "Basic.Report", value=value)
            net.transports_to(address)[0].deliver(sim.zip_packet(cmd, 9))
        return fire

    def hook(pkt):
        if pkt.kind != "zip" or pkt.cmd is None or pkt.cmd[:2] not in (b"\x20\x02", b"\x70\x05"):
            return False
        number = len(plans)
        ack = ch.pick(ACKS, "ack{}".format(number))
        rep = ch.pick(REPORTS, "report{}".format(number))
        subject = pkt.cmd[2] if target == "config" else 0
        plans.append({"time": loop.time(), "ack": ack, "at": len(log)})
        if rep:
            loop.env(rep[0], rep[1], arrive(10 + number, subject))
        if ack:
            net.deliver(pkt.transport, sim.ack(pkt.seq), ack[0], ack[1])
        return True

    net.hook = hook
    tasks = []
    subjects = []
    for number in range(count):
        if number:
            gap = ch.pick([0, 0.25], "gap{}".format(number))
            if gap:
                await asyncio.sleep(gap)
        subjects.append(number % 2 + 5 if target == "config" else 0)
        if target == "config":
            coro = conn.supported[0x70].get(subjects[-1], cached=False)
        else:
            coro = conn.sendAndReceive(world.cls("Basic.Get")(), world.cls("Basic.Report"))
        tasks.append(world.timed(loop, coro))
    cancelled = ch.choose(count + 1, "cancel")
    if cancelled:
        loop.env(0.1, 0, tasks[cancelled - 1].cancel)
    await asyncio.wait(tasks, timeout=60)
    check(len(plans) == count, "not sent", "{} requests sent", len(plans))
    for number, (task, plan) in enumerate(zip(tasks, plans)):
        state = world.state(task)
        if number == cancelled - 1 and state == "cancelled":
            continue
        if state[0] == "ok":
            state = ("ok", int(state[1] if target == "config" else state[1].value))
        acked = plan["ack"] is not None
        done = plan["time"] + (plan["ack"][0] if acked else 3)
        inside = [(t, v) for t, v, s in log[plan["at"]:] if t < done + 3 and s == subjects[number]]
        if acked and inside:
            first = inside[0][1]
            check(state == ("ok", first) or (state[0] == "ok" and state[1] in [v for _t, v in inside]), "wrong result",
                  "request {}: {} instead of {}: {}", number, state, inside, plans)
            if number != cancelled - 1:
                check(abs(task.ended - max(done, inside[0][0])) < 0.01, "result time", "request {} at {}: {} {}", number, task.ended,
                      inside, plan)
        elif not (target == "conn" and inside):
            check(state == world.TIMEOUT, "wrong result", "request {}: {} instead of a timeout: {} {}", number, state, plan, log)
    ch.step(3 * count)
    # Nothing is left behind
    task = world.timed(loop, conn.sendAndReceive(world.cls("Version.VersionGet")(), world.cls("Version.VersionReport")))
    await loop.settle()
    net.transports_to(address)[0].deliver(sim.zip_packet(raw("Version.VersionReport", **{
        "zwaveLibraryType": 1, "zwaveProtocolVersion": 2, "zwaveProtocolSubVersion": 3, "applicationVersion": 4,
        "applicationSubVersion": 5}), 9))
    await loop.settle()
    check(task.done() and not task.exception(), "broken afterwards", "{}", task)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return [world.state(t)[0] for t in tasks], len(log)


def requests(ch, target, count):
    """Overlapping requests"""
    return world.run(lambda loop: overlap(loop, ch, target, count))


WAYS = ["answered", "early report", "unacked", "queued", "cancelled at once", "cancelled unacked", "cancelled acked", "cancelled together",
        "no report", "late", "refused"]


async def leave(loop, net, requester, way, remote):
    """A request that ends in one way"""
    transport = net.transports_to(remote)[0]
    seen = []

    def report_():
        transport.deliver(sim.zip_packet(raw("Basic.Report", value=7), 9))

    def hook(pkt):
        if pkt.kind != "zip" or pkt.cmd != b"\x20\x02":
            return False
        seen.append(pkt)
        if way == "early report":
            loop.env(0, 0, report_)
        if way == "queued":
            net.deliver(pkt.transport, sim.waiting(pkt.seq, 5), 1)
        elif way not in ("unacked", "cancelled unacked"):
            net.deliver(pkt.transport, sim.ack(pkt.seq), 0.5)
        if way == "answered":
            loop.env(1, 0, report_)
        if way == "cancelled together":
            loop.env(1, 0, task.cancel)
            loop.env(1, 0, report_)
        return True

    net.hook = hook
    if way == "refused":
        # Cannot be composed
        task = asyncio.ensure_future(requester.sendAndReceive(world.cls("Basic.Set")(value=300), world.cls("Basic.Report")))
    else:
        task = asyncio.ensure_future(requester.sendAndReceive(world.cls("Basic.Get")(), world.cls("Basic.Report")))
    if way == "cancelled at once":
        loop.env(0, 0, task.cancel)
    elif way.startswith("cancelled") and way != "cancelled together":
        loop.env(1, 0, task.cancel)
    await asyncio.wait([task])
    net.hook = None
    return world.state(task)


async def leftover(loop, ch, target, length):
    """Whatever became of requests, nothing of them takes a later report"""
    app, gw, net = await world.application(loop, (2,), info={2: [0x20]}, endpoints={2: 1}, capabilities={(2, 1): [0x20]})
    node = app.nodes["2:0"]
    await node.send(world.cls("Basic.Set")(value=0))
    remote = sim.GW if target == "gateway" else sim.node_ip(2)
    requester = {"gateway": gw, "connection": await gw.connectToNode(2), "node": node, "class": node.supported[0x20]}[target]
    ear = world.Ear("onMessageReceived" if target == "gateway" else "messageReceived" if target == "connection" else "onMessage")
    (gw if target in ("gateway", "connection") else node).addListener(ear)
    for ways in itertools.product(WAYS, repeat=length):
        ended = []
        for way in ways:
            ended.append(await leave(loop, net, requester, way, remote))
        where = "{} {}: {}".format(target, ways, ended)
        for way, end in zip(ways, ended):
            good = end[0] == "ok" if way in ("answered", "early report") else (
                end == "cancelled" or way.endswith("together") and end[0] == "ok") if way.startswith("cancelled") else end[0] == "error"
            check(good, "wrong end", "{}", where)
        await loop.settle()
        ear.take()
        packet = sim.zip_packet(raw("Basic.Report", value=8), 10)
        if target in ("node", "class"):
            # What a node reports by itself
            net.unsolicited(2, raw("Basic.Report", value=8), 10)
        else:
            net.transports_to(remote)[0].deliver(packet)
        await loop.settle()
        calls = ear.take()
        check(len(calls) == 1, "left behind", "{}: {} heard of the next report", where, calls)
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return target


def leftovers(ch, target, length):
    """Requests that ended in every way"""
    return world.run(lambda loop: leftover(loop, ch, target, length), horizon=10 ** 9)


async def play_many(loop, ch, count, order):
    """Many waits at once, each for another message or all for the same one"""
    waiter = MessageWaiter()
    config, basic = world.cls("Configuration.Report"), world.cls("Basic.Report")

    async def own(number):
        session = waiter.addWaitingSession(config, lambda msg: msg.parameterNumber == number)
        return await waiter.waitForMessage(config, timeout=5000, session=session)

    tasks = [world.timed(loop, own(number)) for number in range(count)]
    kinds = sorted({name for name, spec in wire.MESSAGES.items() if spec.sendable})[:count]
    others = {name: world.timed(loop, waiter.waitForMessage(world.cls(name), timeout=5000)) for name in kinds if name not in (
        "Configuration.Report", "Basic.Report")}
    shared = [world.timed(loop, waiter.waitForMessage(basic, timeout=5000)) for _ in range(count)]
    await loop.settle()
    numbers = list(range(count))
    if order == "last first":
        numbers.reverse()
    elif order == "halves":
        numbers = numbers[::2] + numbers[1::2]
    gone = numbers[1::7]
    for number in gone:
        tasks[number].cancel()
        shared[number].cancel()
    await loop.settle()
    where = "{} waits, {}".format(count, order)
    for position, number in enumerate(numbers):
        handled = waiter.messageReceived(config(parameterNumber=number, size=1, value=position % 100))
        check(handled is (number not in gone), "handled", "{}: message {} handled {}", where, number, handled)
        await loop.settle()
        check(tasks[number].done(), "not served", "{}: wait {} got nothing", where, number)
        if number not in gone:
            check(int(tasks[number].result().parameterNumber) == number, "wrong message", "{}: wait {}", where, number)
        ch.case()
    check(not any(t.done() for t in others.values()), "served by another", "{}", where)
    for name, task in others.items():
        check(waiter.messageReceived(world.cls(name)()), "handled", "{}: {}", where, name)
        await loop.settle()
        check(task.done() and type(task.result()) is world.cls(name), "wrong message", "{}: {} {}", where, name, world.state(task))
        ch.case()
    check(waiter.messageReceived(basic(value=3)), "handled", where)
    await loop.settle()
    for number, task in enumerate(shared):
        check(world.state(task) == "cancelled" if number in gone else task.done() and int(task.result().value) == 3, "not served",
              "{}: shared wait {} {}", where, number, world.state(task))
        ch.case()
    for name in ["Configuration.Report", "Basic.Report"] + list(others):
        check(not waiter.messageReceived(world.cls(name)()), "left behind", "{}: {}", where, name)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return count, order


def many(ch, count, order):
    """Many waits at once"""
    return world.run(lambda loop: play_many(loop, ch, count, order))


SCENARIOS = {"many": many, "waiters": waiters, "requests": requests, "leftovers": leftovers}


def jobs(thorough):
    """Waiters by their first one"""
    total = len(list(profiles()))
    result = []
    for lag in (0, 1, 2, 3) if thorough else (0, 2):
        for first in range(total):
            limit = 3 if thorough else 2
            result.append(("waiters", {"first": first, "count": 2, "limit": limit, "lag": lag}, None))
        for first, profile in enumerate(profiles()):
            if profile[0] == "A" and not profile[4] and (thorough or lag in (0, 2)):
                result.append(("waiters", {"first": first, "count": 3, "limit": 3 if thorough else 1, "lag": lag}, None))
    for count in (5, 9, 17, 40, 129, 256):
        for order in ("first first", "last first", "halves"):
            result.append(("many", {"count": count, "order": order}, None))
    for target in ("gateway", "connection", "node", "class"):
        for length in (1, 2, 3) if thorough else (1, 2):
            result.append(("leftovers", {"target": target, "length": length}, None))
    for target in ("conn", "node", "config"):
        result.append(("requests", {"target": target, "count": 2}, None if thorough or target == "config" else 3, 2))
        result.append(("requests", {"target": target, "count": 3}, 4 if thorough else 2, 1))
    return result
