"""C27: mailbox entries are delivered in order, each once, and never lost"""
import asyncio
import itertools

from mc import sim, wire

from . import mailbox, world
from .mailbox import ACK, FULL, NACK, PING, POP, PROXY, WAITING, Adapter, Lost
from .world import check

LEVEL = "model_checking"
RULE = ("every sequence of pushes (new, duplicate, other queues), wake-ups and requests for the next frame (by queue or of the queue woken last), "
        "and messages that ask for nothing or end early, with sendings that are acknowledged, are not, or fail; one after the other and overlapping slow sendings; "
        "frames that look alike; and through the real gateway. Everything sent is compared with a queue model at once")

A, B, C = b"\x20\x01\x00", b"\x20\x01\x01", b"\x20\x01"
JUNK = [wire.encode("Mailbox.Queue", {"last": last, "operation": op, "queueHandle": 1, "mailboxEntry": entry})
        for op in (NACK, FULL, WAITING, PING, POP) for last in (0, 1) for entry in (A, b"")]
JUNK += [wire.encode("Basic.Report", {"value": 1}), wire.encode("Mailbox.ConfigurationGet", {})]
# Ending before the queue is named
JUNK += [b"\x69\x05", b"\x69\x04", b"\x69\x04\x04", b"\x69\x04\x00", b"\x69\x04\x01", b"\x69"]

EVENTS = ["push 1 A", "push 1 B", "push 1 C", "push 2 A", "wake 1", "wake 2", "ack 1", "ack 0", "lost push 1 A", "lost push 2 A", "lost wake 1",
          "fail wake 1", "fail push 1 B", "junk"]
FEW = ["push 1 A", "push 1 B", "push 2 A", "wake 1", "ack 0", "lost wake 1", "wake 2"]
FRAMES = {"A": A, "B": B, "C": C}


def act(adapter, event):
    """One event. Returns False if it makes no sense here"""
    words = event.split()
    if words[0] in ("lost", "fail"):
        words = words[1:]
    if words[0] == "push":
        adapter.push(int(words[1]), FRAMES[words[2]])
    elif words[0] == "wake":
        adapter.wake(int(words[1]))
    elif words[0] == "ack":
        if words[1] == "0" and not adapter.woken:
            return False
        adapter.ack(int(words[1]), words[1] == "0")
    elif words[0] == "junk":
        for data in JUNK:
            adapter.hear(data, PROXY[1])
    return True


async def play_sequential(loop, ch, prefix, events, depth):
    """All sequences with a prefix one event at a time"""
    number = 0
    for rest in itertools.product(events, repeat=depth - len(prefix)):
        history = tuple(prefix) + rest
        result = [True]
        adapter = Adapter(loop, lambda _kind, result=result: (0, result[0]))
        number += 1
        for event in history:
            # The failures are of all kinds
            result[0] = False if event.startswith("lost") else (asyncio.TimeoutError(), OSError(101), Lost())[number % 3] if event.startswith(
                "fail") else True
            if not act(adapter, event):
                # Without a meaning so far, and again for another sequence
                break
            await loop.settle()
            adapter.verify(history)
        else:
            ch.case()
        await adapter.drain(history)
    return prefix, number


def sequential(ch, prefix, depth, few=False):
    """One event at a time"""
    return world.run(lambda loop: play_sequential(loop, ch, prefix, FEW if few else EVENTS, depth), horizon=10 ** 9)


OUTCOMES = [(1, True), (1, False), (0, True), (3, True), (2, "timeout"), (0, "error"), (0, "unreachable")]


def failure(what):
    """A fresh exception"""
    return {"timeout": asyncio.TimeoutError, "error": Lost, "unreachable": lambda: OSError(101, "unreachable")}[what]() if isinstance(what, str) else what


async def play_overlapping(loop, ch, history, gaps):
    """Events while the sendings are in progress"""
    adapter = None

    def outcome(kind):
        if kind == "beat":
            return 0, True
        delay, result = ch.pick(OUTCOMES, kind)
        return delay, failure(result)

    adapter = Adapter(loop, outcome)
    for event, gap in zip(history, gaps):
        if gap:
            await asyncio.sleep(gap)
        if not act(adapter, event):
            return "pruned"
    await adapter.drain((history, gaps))
    ch.case()
    return tuple(adapter.log)


def overlapping(ch, history, gaps):
    """Overlapping"""
    return world.run(lambda loop: play_overlapping(loop, ch, history, gaps))


async def play_similar(loop, ch):
    """Frames looking alike are different, and equal ones are not"""
    base = bytes(range(0x30, 0x44))
    variants = [base] + [bytes(b ^ (1 << bit) if i == pos else b for i, b in enumerate(base)) for pos in range(len(base)) for bit in range(8)]
    variants += [base[:n] for n in range(1, len(base))] + [base + bytes(n) for n in (1, 2)] + [b"\x00" * n for n in range(1, 9)]
    variants += [bytes([n]) for n in range(1, 256)] + [base[::-1], base[1:] + base[:1], base * 7, bytes(range(200))]
    variants = list(dict.fromkeys(variants))
    for other in variants[1:]:
        if collide(base, other):
            continue
        adapter = Adapter(loop, lambda _kind: (0, True))
        for data in (base, other, base, other):
            adapter.push(1, data)
            await loop.settle()
            adapter.verify(other)
        await adapter.drain(other)
        ch.case()
    # Long ones
    for length in (70, 150, 600):
        base = bytes(n * 7 & 255 for n in range(length))
        for pos in range(length):
            other = base[:pos] + bytes([base[pos] ^ (1 << pos % 8)]) + base[pos + 1:]
            adapter = Adapter(loop, lambda _kind: (0, True))
            for data in (base, other, base):
                adapter.push(1, data)
                await loop.settle()
                adapter.verify((length, pos))
            await adapter.drain((length, pos))
            ch.case()
    # And all of them together
    for values in (variants[:60], variants[::-1][:60]):
        adapter = Adapter(loop, lambda _kind: (0, True))
        known = set()
        for data in values:
            if crc(data) not in known:
                known.add(crc(data))
                adapter.push(1, data)
                adapter.push(1, data)
        await loop.settle()
        adapter.verify("many")
        await adapter.drain("many")
        ch.case()
    return len(variants)


def crc(data):
    """CRC-AUG-CCITT"""
    value = 0x1D0F
    for byte in data:
        value ^= byte << 8
        for _ in range(8):
            value = (value << 1) ^ (0x1021 if value & 0x8000 else 0)
            value &= 0xFFFF
    return value


def collide(one, two):
    """The specified checksum is the same"""
    return crc(one) == crc(two)


def similar(ch):
    """Alike"""
    return world.run(lambda loop: play_similar(loop, ch), horizon=10 ** 9)


async def play_handles(loop, ch):
    """Every queue handle"""
    for handle in range(1, 256):
        other = handle % 255 + 1
        mailbox.PROXY.update({handle: 7, other: 7})
        adapter = Adapter(loop, lambda _kind: (0, True), (handle, other))
        for data in (A, B):
            adapter.push(handle, data)
            adapter.push(other, data)
        adapter.wake(handle)
        await loop.settle()
        adapter.ack(handle, True)
        await loop.settle()
        adapter.ack(handle)
        await loop.settle()
        adapter.verify(handle)
        await adapter.drain(handle)
        ch.case()
    mailbox.PROXY.update({1: 7, 2: 7, 3: 9})
    return True


def handles(ch):
    """Handles"""
    return world.run(lambda loop: play_handles(loop, ch), horizon=10 ** 9)


async def play_many(loop, ch, queues, frames, order):
    """Many queues with many frames"""
    mailbox.PROXY.update({handle: 7 + handle % 3 for handle in range(1, queues + 1)})
    adapter = Adapter(loop, lambda _kind: (0, True), range(1, queues + 1))
    try:
        handles_ = list(range(1, queues + 1))
        for number in range(frames):
            for handle in handles_:
                adapter.push(handle, bytes([0x25, 1, number >> 8, number & 255]) + bytes([handle]) * (number % 40))
                ch.case()
            await loop.settle()
            adapter.verify("pushed {}".format(number))
        # Every one of them once more: known already
        for number in range(frames):
            for handle in handles_[:3]:
                adapter.push(handle, bytes([0x25, 1, number >> 8, number & 255]) + bytes([handle]) * (number % 40))
                ch.case()
            await loop.settle()
            adapter.verify("again {}".format(number))
        if order:
            handles_.reverse()
        for handle in handles_:
            adapter.wake(handle)
            await loop.settle()
            if order:
                # Everything of one after the other
                for _ in range(frames):
                    adapter.ack(handle, order > 1)
                    await loop.settle()
                    ch.case()
            adapter.verify("woken {}".format(handle))
        await adapter.drain("the end")
    finally:
        mailbox.PROXY.clear()
        mailbox.PROXY.update({0: 7, 1: 7, 2: 7, 3: 9})
    return queues, frames, order


def many(ch, queues, frames, order):
    """Many queues and frames"""
    return world.run(lambda loop: play_many(loop, ch, queues, frames, order), horizon=10 ** 9)


async def play_configure(loop, ch):
    """The configuration asks for forwarding"""
    for address in ("::", "fd00:aaaa::3", "::ffff:c0a8:31", "2001:db8:1:2:3:4:5:6", "ff02::1"):
        for port in (0, 1, 255, 256, 4123, 41230, 65535):
            for result in (True, False):
                adapter = Adapter(loop, lambda _kind, result=result: (1, result))
                got = await adapter.service.initialize(sim.ipaddress.IPv6Address(address), port)
                check(bool(got) == result, "configured", "{} {}: {}", address, port, got)
                check(adapter.configured == [b"\x69\x02\x02" + sim.packed(address) + port.to_bytes(2, "big")], "configuration", "{}",
                      adapter.configured)
                ch.case()
    return True


def configure(ch):
    """Configuration"""
    return world.run(lambda loop: play_configure(loop, ch))


async def play_real(loop, ch, history):
    """Through the real gateway: the proxy is node 2, another one is node 3"""
    gw, net = await world.gateway(loop)
    service = mailbox.MailboxService(gw)
    check(service is not None, "harness")
    await loop.settle()
    for node in (2, 3):
        await gw.sendToNode(node, world.cls("Basic.Get")())
    net.sent.clear()
    queues = {1: [], 2: []}
    lost = set()

    def hook(pkt):
        return pkt.kind == "zip" and pkt.ackreq and pkt.cmd is not None and pkt.remote in lost

    net.hook = hook
    woken = None
    expected = []
    for i, event in enumerate(history):
        words = event.split()
        failing = words[0] == "lost"
        words = words[1:] if failing else words
        handle = int(words[1]) or woken
        if handle is None:
            return "pruned"
        node = 2 if handle == 1 else 3
        if failing:
            lost.add(sim.node_ip(node))
        queue = queues[handle]
        if words[0] == "push":
            data = FRAMES[words[2]]
            cmd = bytes([0x69, 0x04, 0x00, handle]) + data
            if data not in queue:
                expected.append((node, bytes([0x69, 0x04, WAITING, handle]) + data))
                if not failing:
                    queue.append(data)
        else:
            woken = handle if words[0] == "wake" else woken
            cmd = bytes([0x69, 0x05, handle]) if words[0] == "wake" else bytes([0x69, 0x04, ACK, int(words[1])])
            expected.append((node, bytes([0x69, 0x04, POP | (len(queue) < 2) << 3, handle]) + (queue[0] if queue else b"")))
            if queue and not failing:
                queue.pop(0)
        net.unsolicited(node, cmd, seq=i + 1, ackreq=bool(i % 2))
        await asyncio.sleep(4 if not failing else 15)
        lost.clear()
    got = [(int(p.remote.rsplit(":", 1)[1], 16), p.cmd) for p in net.zips() if p.cmd[:2] == b"\x69\x04" and p.time < 55]
    want = expected if loop.time() < 55 else expected[:len(got)]
    check(got == want, "sent", "{}: {} and not {}", history, got, want)
    ch.case()
    return tuple(got)


REAL = ["push 1 A", "push 1 B", "push 2 A", "wake 1", "wake 2", "ack 0", "lost wake 1", "lost push 1 A"]


def real(ch, first, depth):
    """The real gateway"""
    result = []
    for rest in itertools.product(REAL, repeat=depth - 1):
        result.append(world.run(lambda loop, rest=rest: play_real(loop, ch, (first,) + rest)))
    return result


SCENARIOS = {"sequential": sequential, "overlapping": overlapping, "similar": similar, "handles": handles, "many": many, "configure": configure, "real": real}

OVERLAP = ["push 1 A", "push 1 B", "push 2 A", "wake 1", "ack 0", "wake 2"]


def jobs(thorough):
    """By the first events"""
    result = [("similar", {}, None), ("handles", {}, None), ("configure", {}, None)]
    result += [("many", {"queues": queues, "frames": frames, "order": order}, None)
               for queues, frames in ((255, 2), (1, 300), (20, 20), (40, 5)) for order in (0, 1, 2)]
    result += [("real", {"first": e, "depth": 4 if thorough else 3}, None) for e in REAL]
    result += [("sequential", {"prefix": [e, f], "depth": 5 if thorough else 4}, None) for e in EVENTS for f in EVENTS]
    result += [("sequential", {"prefix": [e, f], "depth": 6 if thorough else 5, "few": True}, None) for e in FEW for f in FEW]
    for n in range(2, 5):
        for history in itertools.product(OVERLAP, repeat=n):
            if not history[0].startswith("push"):
                continue
            for gaps in itertools.product((0, 1), repeat=n - 1):
                if not thorough and n == 4 and (any(gaps) or history[0] != "push 1 A"):
                    continue
                bound = (4, 3, 2)[n - 2] if thorough else (2, 1, 1)[n - 2]
                result.append(("overlapping", {"history": list(history), "gaps": [0] + list(gaps)}, bound))
    # The last one comes in the midst of the others
    for n in (3, 4, 5) if thorough else (3, 4):
        for history in itertools.product(OVERLAP[:2] + OVERLAP[3:5], repeat=n):
            if history[0] != "push 1 A" or sum(e.startswith("push") for e in history) > 2:
                continue
            for last in (0.5, 1.5, 2.5):
                for gaps in itertools.product((0, 1), repeat=n - 2) if n < 5 else [(0,) * 3, (1, 0, 0), (1, 1, 0)]:
                    result.append(("overlapping", {"history": list(history), "gaps": [0] + list(gaps) + [last]}, (2, 1, 1)[n - 3] if thorough else 1))
    return result
