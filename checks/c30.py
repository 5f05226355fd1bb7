"""C30: a command leaves unchanged, once, in order and for the end point it is meant for"""
import asyncio
import itertools

from mc import report, sim, wire

from . import codec, world
from .world import check, raw

LEVEL = "model_checking"
RULE = ("every command that can be sent, on three backgrounds, by every way of sending it; every source with corner destination end points and "
        "the other way round (thorough: all pairs), and those out of range; nodes with up to 127 end points; every sequence of up to three (thorough: four) commands by any way "
        "of sending at the same time or after each other, with up to two (thorough: three) deviations in what becomes of them (not acknowledged, "
        "queued, refused, answered early, cancelled) and in the address of the node (late or lost). All packets that left are compared with "
        "the commands handed over")
ASSUMPTIONS = ["the order of commands handed over in the same iteration of the event loop is not judged"]

WAYS = ["gateway", "to node", "connection", "node", "end point", "class", "class of end point", "second node"]
SEQUENCE = [(way, how) for way in ("gateway", "to node", "node", "end point", "class", "second node") for how in ("send", "ask")]
FATES = ["acked", "not acked", "queued", "nack", "early", "cancelled", "cancelled at once"]


class Bench:
    """The application and all the ways to send"""

    def __init__(self, app, gw, net):
        self.app, self.gw, self.net = app, gw, net

    def receiver(self, way):
        """(remote address, end point)"""
        if way == "gateway":
            return (sim.GW, 0)
        return (sim.node_ip(3 if way == "second node" else 2), 2 if way in ("end point", "class of end point") else 0)

    async def send(self, way, cmd, how="send", **kwargs):
        """Send by a way"""
        if how == "ask":
            kwargs["waitFor"] = world.cls("Configuration.Report")
        if way == "to node":
            if how == "ask":
                # The adapter has no such thing
                return await (await self.gw.connectToNode(2)).sendAndReceive(cmd, **kwargs)
            return await self.gw.sendToNode(2, cmd, **kwargs)
        if way == "connection":
            target = await self.gw.connectToNode(2)
        elif way == "gateway":
            target = self.gw
        else:
            target = self.app.nodes["3:0" if way == "second node" else "2:2" if way in ("end point", "class of end point") else "2:0"]
            if way.startswith("class"):
                target = target.supported[0x70]
        return await (target.sendAndReceive if how == "ask" else target.send)(cmd, **kwargs)

    def left(self):
        """Every packet that left and is not a keep-alive or question for an address"""
        return [p for p in self.net.sent if p.kind not in ("keepalive", "inv")]


async def bench(loop):
    """A started application"""
    return Bench(*await world.application(loop, (2, 3), info={2: [0x20, 0x60, 0x70], 3: [0x70]}, endpoints={2: 2}, capabilities={
        (2, 2): [0x20, 0x70]}))


def show(pkt):
    """What a packet is"""
    if pkt.kind != "zip":
        return (pkt.remote, pkt.data.hex())
    return (pkt.remote, pkt.src, pkt.dst, "{:02x}{:02x}".format(pkt.flags0, pkt.flags1 & 0xC0), pkt.cmd.hex() if pkt.cmd is not None else None)


def packet(remote, src, dst, data):
    """What the packet of a command has to be"""
    return (remote, src, dst, "8040", bytes(data).hex())


async def commands_main(loop, ch, way, names):
    """Every command"""
    unit = await bench(loop)
    for node in (2, 3):
        await unit.gw.sendToNode(node, world.cls("Basic.Set")(value=0))
    remote, endpoint = unit.receiver(way)
    for name in names:
        grounds = codec.backgrounds(name)
        if report.thorough():
            grounds = list(codec.assignments(name))[:3000]
        for values in grounds:
            msg = wire.instantiate(name, values)
            data = wire.encode(name, values)
            for how in ("send", "ask"):
                del unit.net.sent[:]
                task = asyncio.ensure_future(unit.send(way, msg, how))
                await loop.settle()
                got = [show(p) for p in unit.left()]
                where = "{} {} {} {}".format(way, how, name, values)
                check(got == [packet(remote, 0, endpoint, data)], "not what was sent", "{}: {}", where, got)
                if how == "ask":
                    check(world.state(task) in (world.PENDING, ("ok", True)) or task.exception() is None, "failed", "{}: {}", where, task)
                    task.cancel()
                    await loop.settle()
                else:
                    check(world.state(task) == ("ok", True), "failed", "{}: {}", where, world.state(task))
                ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return way


def commands(ch, way, names):
    """Every command by a way of sending"""
    with codec.quiet():
        return world.run(lambda loop: commands_main(loop, ch, way, names), horizon=10 ** 9)


async def endpoints_main(loop, ch, way, how):
    """Source and destination end points"""
    unit = await bench(loop)
    await unit.gw.sendToNode(2, world.cls("Basic.Set")(value=0))
    remote, _endpoint = unit.receiver(way)
    corners = [0, 1, 2, 63, 64, 126, 127]
    cmd = world.cls("Configuration.Get")(parameterNumber=9)
    pairs = [(a, b) for a in range(-1, 130) for b in range(-1, 130) if report.thorough() or a in corners or b in corners]
    for src, dst in pairs + [(None, 7), (8, None), (None, None), (255, 0), (0, 255), (256, 1), (1, 256)]:
        kwargs = {k: v for k, v in (("sourceEP", src), ("destEP", dst)) if v is not None}
        del unit.net.sent[:]
        task = asyncio.ensure_future(unit.send(way, cmd, how, **kwargs))
        await loop.settle()
        got = [show(p) for p in unit.left()]
        where = "{} {} {}".format(way, how, kwargs)
        if any(not 0 <= v < 128 for v in kwargs.values()):
            check(not got, "wrong end point", "{}: {}", where, got)
            check(world.state(task)[0] == "error", "not refused", "{}: {}", where, world.state(task))
            continue
        check(got == [packet(remote, src or 0, dst or 0, b"\x70\x05\x09")], "wrong end point", "{}: {}", where, got)
        task.cancel()
        await loop.settle()
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return way, how


def endpoints(ch, way, how):
    """All end points"""
    return world.run(lambda loop: endpoints_main(loop, ch, way, how), horizon=10 ** 9)


async def nodes_main(loop, ch, count):
    """A node with many end points"""
    app, gw, net = await world.application(loop, (2, 3), info={2: [0x20, 0x60, 0x70], 3: [0x70]}, endpoints={2: count}, capabilities={
        (2, number): [0x20, 0x70] for number in range(1, count + 1)})
    unit = Bench(app, gw, net)
    for endpoint in range(count + 1):
        node = app.nodes["2:{}".format(endpoint)]
        for way, target in (("node", node), ("class", node.supported[0x70])):
            for how in ("send", "ask"):
                del net.sent[:]
                cmd = world.cls("Configuration.Get")(parameterNumber=9)
                task = asyncio.ensure_future(target.send(cmd) if how == "send" else target.sendAndReceive(cmd, world.cls("Configuration.Report")))
                await loop.settle()
                got = [show(p) for p in unit.left()]
                where = "{} {} of end point {} of {}".format(how, way, endpoint, count)
                check(got == [packet(sim.node_ip(2), 0, endpoint, b"\x70\x05\x09")], "wrong end point", "{}: {}", where, got)
                task.cancel()
                await loop.settle()
                ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return count


def nodes(ch, count):
    """Nodes with this number of end points"""
    return world.run(lambda loop: nodes_main(loop, ch, count), horizon=10 ** 9)


async def sequence_main(loop, ch, ops, spacing):
    """Commands handed over at the same time or one after the other"""
    unit = await bench(loop)
    net, gw = unit.net, unit.gw
    addresses = {node: ch.pick(["known", "asked for", "late", "lost"], "address {}".format(node)) if any(
        unit.receiver(way)[0] == sim.node_ip(node) for way, _how in ops) else "known" for node in (2, 3)}
    for node, how in addresses.items():
        if how == "known":
            await gw.sendToNode(node, world.cls("Basic.Set")(value=0))
    fates = [ch.pick(FATES, "fate {}".format(number)) for number in range(len(ops))]
    where = "{} {} {} addresses {}".format(spacing, ops, fates, addresses)

    def hook(pkt):
        if pkt.kind == "inv":
            how = addresses[pkt.node]
            if how != "lost":
                net.deliver(pkt.transport, net.advert(pkt.node), 2.9 if how == "late" else 0)
            return True
        if pkt.kind != "zip" or not pkt.ackreq or pkt.cmd is None:
            return False
        fate = fates[pkt.cmd[2] - 10]
        if fate == "acked":
            net.deliver(pkt.transport, sim.ack(pkt.seq), 0.2)
        elif fate == "queued":
            net.deliver(pkt.transport, sim.waiting(pkt.seq, 4), 0.2)
            net.deliver(pkt.transport, sim.ack(pkt.seq), 50)
        elif fate == "nack":
            net.deliver(pkt.transport, sim.zip_packet(None, pkt.seq, nackres=True), 0.2)
        elif fate == "early":
            net.deliver(pkt.transport, sim.zip_packet(raw("Configuration.Report", parameterNumber=pkt.cmd[2], size=1, value=5), 50,
                                                      src=pkt.dst), 0)
            net.deliver(pkt.transport, sim.ack(pkt.seq), 0.1)
        return True

    del net.sent[:]
    net.hook = hook
    tasks = []
    for number, (way, how) in enumerate(ops):
        cmd = world.cls("Configuration.Get")(parameterNumber=10 + number) if how == "ask" else world.cls("Basic.Set")(value=10 + number)
        task = world.timed(loop, unit.send(way, cmd, how))
        tasks.append(task)
        if fates[number] == "cancelled at once":
            loop.env(0.05, 0, task.cancel)
        elif fates[number] == "cancelled":
            loop.env(3.5, 0, task.cancel)
        if spacing == "after each other":
            await loop.settle()
        elif spacing == "later":
            await asyncio.sleep(0.15)
    await asyncio.sleep(150)
    wanted = {}
    for number, ((way, how), task) in enumerate(zip(ops, tasks)):
        remote, endpoint = unit.receiver(way)
        node = {sim.node_ip(2): 2, sim.node_ip(3): 3}.get(remote)
        address = addresses.get(node, "known")
        check(task.done(), "never ended", "{}: {}", where, task)
        state = world.state(task)
        if address == "lost" or address == "late" and fates[number] == "cancelled at once":
            check(state == ("cancelled" if fates[number] == "cancelled at once" else world.TIMEOUT) or state == "cancelled" and fates[
                number] == "cancelled", "wrong end", "{}: {} is {}", where, number, state)
            continue
        data = bytes([0x70, 0x05, 10 + number]) if how == "ask" else bytes([0x20, 0x01, 10 + number])
        wanted.setdefault(remote, []).append(packet(remote, 0, endpoint, data))
    for remote in (sim.GW, sim.node_ip(2), sim.node_ip(3)):
        got = [show(p) for p in unit.left() if p.remote == remote]
        want = wanted.get(remote, [])
        if spacing == "same time":
            got.sort()
            want.sort()
        check(got == want, "not what was sent", "{}: to {} left {} instead of {}", where, remote, got, want)
    rest = [show(p) for p in unit.left() if p.remote not in (sim.GW, sim.node_ip(2), sim.node_ip(3))]
    check(not rest, "not what was sent", "{}: {}", where, rest)
    check(not loop.errors, "escaped", "{}: {}", where, loop.errors[:1])
    return fates, addresses


def sequence(ch, ops, spacing):
    """A sequence of commands"""
    return world.run(lambda loop: sequence_main(loop, ch, ops, spacing))


SCENARIOS = {"commands": commands, "endpoints": endpoints, "nodes": nodes, "sequence": sequence}


def jobs(thorough):
    """By the way of sending"""
    names = [n for n, s in wire.MESSAGES.items() if s.sendable and n != "Zip.ZipPacket"]
    result = []
    for way in WAYS:
        for part in range(2):
            result.append(("commands", {"way": way, "names": names[part::2]}, None))
    for way in ("gateway", "to node", "connection"):
        for how in ("send", "ask"):
            result.append(("endpoints", {"way": way, "how": how}, None))
    for count in range(1, 128) if thorough else (1, 10, 127):
        result.append(("nodes", {"count": count}, None))
    ways = SEQUENCE if thorough else [op for op in SEQUENCE if op not in (("to node", "ask"), ("class", "send"), ("second node", "ask"))]
    triples = SEQUENCE if thorough else [op for op in ways if op[0] in ("node", "end point", "second node")]
    for spacing in ("after each other", "same time", "later"):
        settled = spacing == "after each other"
        for ops in itertools.product(ways, repeat=2):
            bound = 2 if settled else 1
            result.append(("sequence", {"ops": [list(o) for o in ops], "spacing": spacing}, bound + thorough))
        for ops in itertools.product(triples, repeat=3):
            if thorough or settled:
                result.append(("sequence", {"ops": [list(o) for o in ops], "spacing": spacing}, 2 if thorough else 1))
    return result
