"""C28: mailbox heartbeats run for exactly as long as a frame is queued"""
import asyncio
import itertools

from mc import sim

from . import mailbox, world
from .mailbox import Adapter, Lost
from .world import check

LEVEL = "model_checking"
RULE = ("half an hour (and four days) of heartbeats for every frame of one or two queues, with every two heartbeats (three when thorough) lost, failing, slow or both; "
        "pushes, failed pushes and duplicates, deliveries that succeed or fail, at and around every multiple of a minute; the time, kind and content of "
        "every heartbeat is compared with a timer model at once")

A, B = b"\x25\x01\xff", b"\x26\x01\x63"
OUTCOMES = [(0, True), (0, False), (0.5, "timeout"), (0, "error"), (0, "unreachable"), (12, True), (75, True), (130, "timeout"), (60, True),
            (5, "value"), (0, "key"), (10, False)]
FAILURES = {"timeout": asyncio.TimeoutError, "error": Lost, "unreachable": lambda: OSError(101, "unreachable"),
            "value": lambda: ValueError("no"), "key": lambda: KeyError("no")}


def ending(result):
    """A fresh exception"""
    return FAILURES[result]() if isinstance(result, str) else result


async def play_failing(loop, ch, frames, minutes, lead, few):
    """Heartbeats that fail, the first of them after lead others"""
    outcomes = OUTCOMES[:7:2] if few else OUTCOMES
    count = [0]

    def outcome(kind):
        if kind != "beat" or loop.time() > minutes * 60 + 5:
            return 0, True
        count[0] += 1
        if count[0] <= lead:
            return 0, True
        if count[0] == lead + 1:
            delay, result = ch.pick(outcomes[1:], "beat", free=True)
        else:
            delay, result = ch.pick(outcomes, "beat")
        return delay, ending(result)

    adapter = Adapter(loop, outcome)
    for pause, handle, data in frames:
        await asyncio.sleep(pause)
        adapter.push(handle, bytes.fromhex(data))
        await loop.settle()
        adapter.verify("pushed")
    while loop.time() < (minutes + 4) * 60:
        await asyncio.sleep(30.5)
        adapter.verify("running")
    await adapter.drain("the end")
    return tuple(t for t, _n, _d in adapter.log)


def failing(ch, frames, minutes, lead, few=False):
    """Failing"""
    return world.run(lambda loop: play_failing(loop, ch, frames, minutes, lead, few), horizon=10 ** 7)


ACTIONS = ["push 1 A", "push 1 B", "push 2 A", "lost push 1 A", "fail push 1 B", "wake 1", "wake 2", "lost wake 1", "fail wake 1", "slow wake 1", "ack 1",
           "slow push 1 B", "slow push 2 A"]
FEW = ["push 1 A", "push 1 B", "lost push 1 A", "wake 1", "lost wake 1", "slow wake 1"]
PAUSES = [0, 30, 59, 61, 600]
BROAD = [0, 29, 59.5, 60, 61, 119, 121, 599, 601, 1190, 1500]


async def play_histories(loop, ch, prefix, actions, pauses, depth):
    """All histories with a prefix"""
    frames = {"A": A, "B": B}
    done = 0
    for rest in itertools.product(itertools.product(pauses, actions), repeat=depth - len(prefix)):
        history = tuple(prefix) + rest
        how = [0, True]
        adapter = Adapter(loop, lambda kind, how=how: (how[0], ending(how[1])) if kind != "beat" else (0, True))
        done += 1
        for pause, action in history:
            if pause:
                await asyncio.sleep(pause)
                adapter.verify(history)
            words = action.split()
            how[:] = {"lost": [0, False], "fail": [10, ("timeout", "error", "unreachable")[done % 3]], "slow": [7, True]}.get(words[0], [0, True])
            words = words if words[0] in ("push", "wake", "ack") else words[1:]
            if words[0] == "push":
                adapter.push(int(words[1]), frames[words[2]])
            elif words[0] == "wake":
                adapter.wake(int(words[1]))
            else:
                adapter.ack(int(words[1]))
            await loop.settle()
            # What is still waiting for its turn goes the same way
            await adapter.finish(history)
        await adapter.drain(history)
        ch.case()
    return prefix, done


def histories(ch, prefix, depth, few=False, broad=False):
    """Histories"""
    return world.run(lambda loop: play_histories(loop, ch, [tuple(p) for p in prefix], FEW if few else ACTIONS, BROAD if broad else PAUSES, depth),
                     horizon=10 ** 9)


async def play_delivery(loop, ch, minutes, two):
    """Delivered at some moment"""
    for moment in range(minutes):
        for shift in (-0.25, 0, 0.25, 30):
            for slow in (0, 0.25, 0.5, 3, 60):
                how = [slow, True]
                adapter = Adapter(loop, lambda kind, how=how: (how[0], True) if kind == "pop" else (0, True))
                adapter.push(1, A)
                if two:
                    await asyncio.sleep(17)
                    adapter.push(1, B)
                await asyncio.sleep(max(0, moment * 60 + shift))
                adapter.wake(1)
                await adapter.finish((moment, shift, slow))
                await asyncio.sleep(61)
                adapter.verify((moment, shift, slow))
                await adapter.drain((moment, shift, slow))
                ch.case()
    return minutes, two


def delivery(ch, minutes, two):
    """Delivery"""
    return world.run(lambda loop: play_delivery(loop, ch, minutes, two), horizon=10 ** 9)


async def play_real(loop, ch, count, minutes):
    """Through the real gateway"""
    gw, net = await world.gateway(loop)
    service = mailbox.MailboxService(gw)
    check(service is not None, "harness")
    await gw.sendToNode(2, world.cls("Basic.Get")())
    begin = loop.time()
    frames = [bytes([0x20, 0x01, i]) + bytes(range(256))[:(0, 240, 1, 100, 17)[i]] * (3 if i == 3 else 1) for i in range(count)]
    for i, data in enumerate(frames):
        net.unsolicited(2, b"\x69\x04\x00" + bytes([5]) + data, seq=i)
    await asyncio.sleep(1)
    net.sent.clear()
    silent = [3, 4]       # these minutes the proxy does not answer
    net.hook = lambda pkt: pkt.kind == "zip" and pkt.cmd is not None and int((loop.time() - begin) / 60) in silent
    await asyncio.sleep(minutes * 60 + 20)
    beats = [p for p in net.zips() if p.cmd[:2] == b"\x69\x04"]
    for data in frames:
        mine = [p for p in beats if p.cmd[4:] == data]
        check(len(mine) >= minutes - 2, "heartbeat missing", "{} of {}", len(mine), minutes)
        for number, pkt in enumerate(mine, 1):
            check(pkt.cmd[:4] == bytes([0x69, 0x04, 2 if number % 10 else 3, 5]), "heartbeat kind", "{} {}", number, pkt)
            earliest = 60 if number == 1 else mine[number - 2].time - begin + 60
            check(earliest - 0.1 <= pkt.time - begin <= earliest + 12, "heartbeat time", "{} {} {}", number, pkt.time - begin, earliest)
    for data in frames:
        net.unsolicited(2, b"\x69\x05\x05", seq=data[2] + 50)
        await asyncio.sleep(1)
    net.sent.clear()
    await asyncio.sleep(1000)
    check(not [p for p in net.zips() if p.cmd[:2] == b"\x69\x04"], "after delivery", "{}", net.zips()[:3])
    ch.case()
    return count, minutes


def real(ch, count, minutes):
    """The real gateway"""
    return world.run(lambda loop: play_real(loop, ch, count, minutes), horizon=10 ** 7)


SCENARIOS = {"failing": failing, "histories": histories, "delivery": delivery, "real": real}


def jobs(thorough):
    """By the first events"""
    one, two, late = [[0, 1, A.hex()]], [[0, 1, A.hex()], [20, 2, A.hex()]], [[0, 1, A.hex()], [60, 1, B.hex()]]
    result = []

    def add(frames, minutes, bound, few=False):
        """All with so many failures at least one of which is within the time"""
        beats = sum(minutes - sum(f[0] for f in frames[:i + 1]) // 60 for i in range(len(frames)))
        result.extend(("failing", {"frames": frames, "minutes": minutes, "lead": lead, "few": few}, bound - 1) for lead in range(beats))

    if thorough:
        add(one, 31, 2)
        add(two, 12, 2)
        add(late, 12, 2)
        add(one, 62, 1)
        add(one, 12, 4, True)
        add(one, 31, 3, True)
        add(two, 12, 3, True)
    else:
        add(one, 12, 2)
        add(one, 22, 2, True)
        add(two, 12, 1)
        add(late, 12, 1)
        add(one, 62, 1, True)
    # Days
    for frames, minutes in ((one, 1500), (one, 6000), (two, 3000)):
        result.append(("failing", {"frames": frames, "minutes": minutes, "lead": minutes - 20, "few": True}, 0))
    result += [("delivery", {"minutes": 32 if thorough else 12, "two": two}, None) for two in (False, True)]
    result += [("real", {"count": count, "minutes": 32}, None) for count in (1, 2, 5)]
    first = [[0, a] for a in ACTIONS]
    result += [("histories", {"prefix": [f, [p, a]], "depth": 3}, None) for f in first for p in PAUSES for a in ACTIONS]
    result += [("histories", {"prefix": [[0, "push 1 A"], [p, a]], "depth": 3, "broad": True}, None) for p in BROAD for a in ACTIONS] if thorough else [
        ("histories", {"prefix": [f], "depth": 2, "broad": True}, None) for f in first]
    result += [("histories", {"prefix": [[0, a], [p, b]], "depth": 4 if thorough else 3, "few": True}, None) for a in FEW[:3] for p in PAUSES for b in FEW]
    return result
