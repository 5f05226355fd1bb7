"""C06: a request returns its report no matter how ack and report interleave"""
import asyncio

from mc import sim

from . import world
from .world import check, raw

LEVEL = "model_checking"
RULE = ("every combination (within the deviation bound) of when the ack and the report of each of two consecutive requests arrive - "
        "event loop placements at the same instant, around every deadline, never, after waiting responses - with reports received "
        "before the request, between the requests, duplicates, other messages and reports about something else; on a plain connection, "
        "on a node and for configuration parameters; every time allowed by the caller at every layer. Every schedule is compared with the arrival log")
ASSUMPTIONS = ["events exactly at a deadline are not generated: which of them wins is not specified",
               "quick: at most three deviations from the default order per history; thorough: all combinations"]

# (kind, time of the ack or None, lag, extra waiting response)
ACKS = [("now", 0, 0), ("lag2", 0, 2), ("lag6", 0, 6), ("1s", 1.0, 0), ("2.9s", 2.9, 0), ("none", None, 0), ("late", 3.1, 0),
        ("waiting", 40.0, 5), ("asleep", None, 5), ("negative", 170.0, -1)]
REPORTS = [("lag1", "T", 0, 1), ("lag0", "T", 0, 0), ("lag3", "T", 0, 3), ("lag8", "T", 0, 8), ("1s", "T", 1.5, 0), ("2.8s", "T", 2.8, 0),
           ("3.2s", "T", 3.2, 0), ("with ack", "S", 0, 0), ("after ack", "S", 0, 1), ("ack+2.9", "S", 2.95, 0),
           ("ack+3.1", "S", 3.15, 0), ("none", None, 0, 0)]
EXTRAS = ["none", "other message", "other subject", "duplicate", "stray ack"]
GAPS = ["none", "wait", "report in between"]


def sleep(loop, delay):
    """A future set by the environment"""
    fut = loop.create_future()
    loop.env(delay, 0, lambda: fut.done() or fut.set_result(None))
    return fut


async def history(loop, ch, target, requests):
    """Some requests after one another"""
    arrivals = []
    outcomes = []
    if target == "conn":
        conn, net = await world.connection(loop)
        address = sim.GW
    else:
        app, _gw, net = await world.application(loop, (2,), info={2: [0x20, 0x70]})
        node = app.nodes["2:0"]
        address = sim.node_ip(2)
        # Opens the connection
        await node.send(world.cls("Basic.Set")(value=0))

    def report_bytes(value, subject=9):
        if target == "config":
            return raw("Configuration.Report", parameterNumber=subject, size=1, value=value)
        return raw("Basic.Report", value=value)

    head = b"\x70\x05" if target == "config" else b"\x20\x02"
    plan = {}

    def arrive(value, subject=9):
        def fire():
            arrivals.append((loop.time(), value, subject))
            net.transports_to(address)[0].deliver(sim.zip_packet(report_bytes(value, subject), 50))
        return fire

    def hook(pkt):
        if pkt.kind != "zip" or pkt.cmd is None or pkt.cmd[:2] != head:
            return False
        ack, rep, extra, value = plan["ack"], plan["report"], plan["extra"], plan["value"]
        _, acktime, third = ack
        lag = third if acktime == 0 else 0
        deadline = 3.0
        waits = ack[0] in ("waiting", "asleep", "negative")
        transport = pkt.transport
        if waits:
            net.deliver(transport, sim.waiting(pkt.seq, third), 0, 0)
            deadline = (120 if third < 0 else third) + 60.0
        acked = acktime is not None and acktime < deadline
        plan["acked"], plan["sent"] = acked, loop.time()
        plan["done"] = acktime if acked else deadline
        if extra == "stray ack":
            net.deliver(transport, sim.ack((pkt.seq + 1) & 0xFF), 0, 0)
            net.deliver(transport, sim.ack((pkt.seq - 1) & 0xFF), 0, 0)
        if extra == "other message":
            net.deliver(transport, sim.zip_packet(raw("SwitchBinary.Report", value=77), 51), 0, 0)
        if extra == "other subject":
            loop.env(0, 0, arrive(78, 8))
        if rep[1] is not None:
            when = rep[2] + (plan["done"] if rep[1] == "S" else 0)
            loop.env(when, rep[3], arrive(value))
            if extra == "duplicate":
                loop.env(when + 0.01, rep[3], arrive(value))
        if acktime is not None:
            net.deliver(transport, sim.ack(pkt.seq), acktime, lag)
        return True

    net.hook = hook
    for number in range(requests):
        plan.update(
            ack=ch.pick(ACKS, "ack{}".format(number)), report=ch.pick(REPORTS, "report{}".format(number)),
            extra=ch.pick(EXTRAS if target == "config" else EXTRAS[:2] + EXTRAS[3:], "extra{}".format(number)),
            value=10 + number, acked=None, done=None)
        start, before = loop.time(), len(arrivals)
        if target == "conn":
            coro = conn.sendAndReceive(world.cls("Basic.Get")(), world.cls("Basic.Report"))
        elif target == "node":
            coro = node.sendAndReceive(world.cls("Basic.Get")(), world.cls("Basic.Report"))
        else:
            coro = node.supported[0x70].get(9, cached=False)
        task = world.timed(loop, coro)
        await asyncio.wait([task], timeout=400)
        state = world.state(task)
        check(state != world.PENDING, "never ends", "the request did not end")
        done = start + plan["done"]
        inside = [(t, v) for t, v, subject in arrivals[before:] if t < done + 3 and subject == 9]
        outcome = "timeout" if state == world.TIMEOUT else state
        if target != "config" and state[0] == "ok":
            outcome = ("ok", int(state[1].value))
        elif state[0] == "ok":
            outcome = ("ok", int(state[1]))
        allowed = []
        if plan["acked"] and inside:
            allowed = [("ok", v) for _t, v in inside]
        else:
            allowed = ["timeout"]
            if target == "conn":
                # A connection may still hand over the report of a request that was not acked
                allowed += [("ok", v) for _t, v in inside]
        check(outcome in allowed, "wrong result", "request {} {} {} {}: {} instead of {}, arrivals {}", number, plan["ack"],
              plan["report"], plan["extra"], outcome, allowed, arrivals)
        if outcome == "timeout":
            want = done + 3 if plan["acked"] or target == "conn" else done
            check(abs(task.ended - want) < 0.01, "timeout time", "timed out at {} instead of {}", task.ended - start, want - start)
        elif plan["acked"]:
            when = max(done, min(t for t, v in inside))
            check(abs(task.ended - when) < 0.01, "result time", "returned at {} instead of {}", task.ended - start, when - start)
        outcomes.append(outcome)
        ch.step(3)
        if number + 1 < requests:
            gap = ch.pick(GAPS, "gap{}".format(number))
            if gap != "none":
                await sleep(loop, 10)
            if gap == "report in between":
                loop.env(0, 0, arrive(60 + number))
                await sleep(loop, 0.001)
                await loop.settle()
                # Not during the next request: its start must be later than the arrival
                await sleep(loop, 0.001)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return outcomes


def requests(ch, target, count):
    """Consecutive requests"""
    return world.run(lambda loop: history(loop, ch, target, count))


async def patience_main(loop, ch):
    """The time a caller allows for the report, or the acknowledgement, is the time it waits"""
    target = ch.pick(["conn", "gateway", "node", "class", "end point"], "target", free=True)
    allowed = ch.pick([None, 1, 2.5, 10, 30], "timeout", free=True)
    limit = 3 if allowed is None else allowed
    kwargs = {} if allowed is None else {"timeout": allowed}
    delay = ch.pick([limit - 0.1, limit + 0.1, 0.2, None], "report", free=True)
    ackdelay = ch.pick([0, 2.9, 3.1], "ack", free=True)
    app, gw, net = await world.application(loop, (2,), info={2: [0x20, 0x60, 0x70]}, endpoints={2: 1}, capabilities={(2, 1): [0x20, 0x70]})
    node = app.nodes["2:1" if target == "end point" else "2:0"]
    await node.send(world.cls("Basic.Set")(value=0))
    asker = {"conn": await gw.connectToNode(2), "gateway": gw, "node": node, "class": node.supported[0x70],
             "end point": node.supported[0x70]}[target]
    endpoint = 1 if target == "end point" else 0

    def hook(pkt):
        if pkt.kind != "zip" or pkt.cmd is None or pkt.cmd[:2] != b"\x70\x05":
            return False
        check(pkt.dst == endpoint, "wrong end point", "{}: sent to {}", target, pkt.dst)
        net.deliver(pkt.transport, sim.ack(pkt.seq), ackdelay, 0)
        if delay is not None:
            # Counted from the acknowledgement
            net.deliver(pkt.transport, sim.zip_packet(raw("Configuration.Report", parameterNumber=9, size=1, value=5), 50, src=endpoint),
                        ackdelay + delay, 0)
        return True

    net.hook = hook
    start = loop.time()
    task = world.timed(loop, asker.sendAndReceive(world.cls("Configuration.Get")(parameterNumber=9), world.cls("Configuration.Report"),
                                                  **kwargs))
    await asyncio.wait([task], timeout=400)
    state = world.state(task)
    where = "{} timeout {} report {} ack {}".format(target, allowed, delay, ackdelay)
    took = task.ended - start
    if ackdelay > 3:
        if target in ("conn", "gateway"):
            # May still wait for the report
            return where
        check(state == world.TIMEOUT and abs(took - 3) < 0.01, "unacknowledged", "{}: {} after {}", where, state, took)
    elif delay is None or delay > limit:
        check(state == world.TIMEOUT, "late report", "{}: {} after {}", where, state, took)
        check(abs(took - limit - ackdelay) < 0.01, "timeout time", "{}: timed out after {}", where, took)
    else:
        check(state[0] == "ok" and int(state[1].value) == 5, "lost", "{}: {} after {}", where, state, took)
        check(abs(took - delay - ackdelay) < 0.01, "result time", "{}: after {}", where, took)
    return where


def patience(ch):
    """Timeouts given by the caller"""
    return world.run(lambda loop: patience_main(loop, ch))


SCENARIOS = {"requests": requests, "patience": patience}


def jobs(thorough):
    """Deviation bounds"""
    result = [("patience", {}, None)]
    for target in ("conn", "node", "config"):
        result.append(("requests", {"target": target, "count": 1}, None))
        result.append(("requests", {"target": target, "count": 2}, 4 if thorough else 3 if target == "node" else 2, 2))
        if thorough or target == "conn":
            result.append(("requests", {"target": target, "count": 3}, 3 if thorough else 2, 1))
    return result
