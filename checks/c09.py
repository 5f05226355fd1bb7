"""C09: no two messages awaiting acknowledgement share a sequence number"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("histories of 600 sends on one connection: every set of up to three (thorough: four) positions around 0, 255 and 256 where the "
        "message stays queued for a sleeping node, waits long for its acknowledgement, is never acknowledged, or its sender is "
        "cancelled; blocks of 1 to 250 queued "
        "messages at every tenth start; bursts of concurrent sends; queued messages released at chosen times. Every packet is compared "
        "with the set of numbers in use")
ASSUMPTIONS = ["at most 250 messages are queued at the same time"]

POSITIONS = [0, 1, 2, 4, 100, 253, 254, 255, 256, 257, 300, 511]


async def play(loop, ch, target, length, special, burst, release):
    """special: {position: 'queued' | 'patient' | 'failed' | 'cancelled'}"""
    if target == "conn":
        conn, net = await world.connection(loop)
        address = sim.GW
    else:
        gw, net = await world.gateway(loop)
        await gw.sendToNode(2, world.cls("Basic.Set")(value=0))
        conn = await gw.connectToNode(2)
        address = sim.node_ip(2)
    using = {}      # seq -> task
    state = {"last": None, "count": 0}
    packets = []
    order = []

    def hook(pkt):
        if pkt.kind != "zip" or not pkt.ackreq or pkt.remote != address:
            return False
        number = int.from_bytes(pkt.cmd[2:4], "big")
        busy = using.get(pkt.seq)
        check(busy is None or busy.done(), "number in use", "message {} has number {} which is awaiting its ack", number, pkt.seq)
        check(state["last"] != pkt.seq, "same number twice", "message {} has number {} like the one before", number, pkt.seq)
        state["last"] = pkt.seq
        using[pkt.seq] = tasks[number]
        packets.append((number, pkt.seq))
        what = special.get(number)
        if what == "queued":
            net.deliver(pkt.transport, sim.waiting(pkt.seq, 0x7FFFFF), 0, 1)
        if what in ("queued", "patient"):
            order.append((number, pkt.seq, pkt.transport))
        elif what is None:
            net.deliver(pkt.transport, sim.ack(pkt.seq), 0, 1)
        return True

    net.hook = hook
    tasks = {}
    number = 0
    while number < length:
        group = []
        for _ in range(min(burst, length - number)):
            cmd = world.cls("Version.VersionCommandClassReport")(requestedCommandClass=number >> 8, commandClassVersion=number & 255)
            patience = {"timeout": 10 ** 7} if special.get(number) == "patient" else {}
            tasks[number] = asyncio.ensure_future(conn.send(cmd, **patience))
            group.append(number)
            number += 1
        await loop.settle()
        for i in group:
            what = special.get(i)
            if what is None:
                check(world.state(tasks[i]) == ("ok", True), "send broken", "message {}: {}", i, world.state(tasks[i]))
            elif what in ("queued", "patient"):
                check(world.state(tasks[i]) == world.PENDING, "queued broken", "message {}: {}", i, world.state(tasks[i]))
            elif what == "cancelled":
                tasks[i].cancel()
                await loop.settle()
                check(world.state(tasks[i]) == "cancelled", "cancel broken", "message {}: {}", i, world.state(tasks[i]))
        failing = [i for i in group if special.get(i) == "failed"]
        if failing:
            await asyncio.wait([tasks[i] for i in failing], timeout=10)
            for i in failing:
                check(world.state(tasks[i]) == ("ok", False), "failure broken", "message {}: {}", i, world.state(tasks[i]))
        if release and order and number % release == 0:
            which, seq, transport = order.pop(0)
            transport.deliver(sim.ack(seq))
            await loop.settle()
            check(world.state(tasks[which]) == ("ok", True), "release broken", "message {}: {}", which, world.state(tasks[which]))
    check([n for n, _ in packets] == list(range(length)), "packets", "{} packets for {} sends", len(packets), length)
    for which, seq, transport in order:
        transport.deliver(sim.ack(seq))
        await loop.settle()
        check(world.state(tasks[which]) == ("ok", True), "release broken", "message {}: {}", which, world.state(tasks[which]))
    ch.step(length)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return tuple(seq for _n, seq in packets[-5:])


def history(ch, target, length, special, burst, release):
    """One history"""
    return world.run(lambda loop: play(loop, ch, target, length, {int(k): v for k, v in special.items()}, burst, release),
                     horizon=10 ** 8)


SCENARIOS = {"history": history}


def jobs(thorough):
    """All histories"""
    result = []

    def add(special, target="conn", burst=1, release=0, length=600):
        result.append(("history", {"target": target, "length": length, "special": {str(k): v for k, v in special.items()},
                                   "burst": burst, "release": release}, None))

    for count in range(5 if thorough else 4):
        for positions in itertools.combinations(POSITIONS, count):
            if count in (1, 2):
                add({p: "patient" for p in positions}, burst=count)
            add({p: "queued" for p in positions}, length=600 if count < 3 or thorough else 300)
            if count in (1, 2):
                add({p: "queued" for p in positions}, target="node", burst=5)
                add({p: "queued" for p in positions}, burst=3, release=100)
    for one, two in itertools.permutations(POSITIONS[2:9], 2):
        for kinds in itertools.product(("queued", "patient", "failed", "cancelled"), repeat=2):
            add(dict(zip((one, two), kinds)), length=300)
            if thorough:
                add(dict(zip((one, two, one + 256), kinds + ("failed",))), burst=2)
    for start in range(0, 260, 5 if thorough else 20):
        for size in (1, 2, 3, 10, 64, 128, 200, 250):
            add({start + i: "queued" for i in range(size)}, release=7 if size > 100 else 0)
            add({start + i: "patient" for i in range(size)}, target="node" if size < 11 else "conn", burst=2, release=11 if size > 100 else 0)
            add({start + 2 * i: "queued" for i in range(min(size, 200))}, release=3 if size > 100 else 0, target="node")
    return result
