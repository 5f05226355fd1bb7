"""C32: nodes show what the gateway reported about them"""
import asyncio
import itertools

from mc import sim

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("three nodes with two end points each: every value of every field of the information of each by itself and all combinations of corner values; "
        "every number of individual and aggregated end points; every combination of lost information; every later change of a node; nodes leaving and coming back as others; every status "
        "of a removal with every fate of its report, for nodes and end points; up to 231 nodes. All nodes and end points are compared with a table after each")

FIELDS = ["listening", "basic", "generic", "specific", "ep generic", "ep specific"]


def table():
    """What the three nodes report"""
    info, caps = {}, {}
    for node in (2, 3, 200):
        info[node] = [node != 3, node & 3, 0x10 + node & 255, 0x20 + node & 255, bytes([0x60, 0x20 + node % 3])]
        for endpoint in (1, 2):
            caps[node, endpoint] = [0x40 + node + endpoint & 255, 0x80 + node + endpoint & 255, bytes([0x5E, 0x70 + endpoint])]
    return info, caps


async def started(loop, info, caps, ends, hook=None):
    """An application that knows them"""
    net = sim.Net(loop, nodes=list(info))
    net.info.update({n: tuple(v) for n, v in info.items()})
    net.capabilities.update({k: tuple(v) for k, v in caps.items()})
    net.endpoints.update(ends)
    net.hook = hook(net) if hook else None
    return await world.application(loop, net=net)


def compare(app, gw, info, caps, where):
    """Every node and end point against the table. What was not reported may be anything that is not true"""
    def known(unit):
        return tuple(v or 0 for v in (unit.listening, unit.basicDeviceClass, unit.genericDeviceClass, unit.specificDeviceClass))

    names = {"{}:0".format(n) for n in info} | {"{}:{}".format(*k) for k in caps}
    check(set(app.nodes) == names, "nodes", "{}: {} instead of {}", where, sorted(app.nodes), sorted(names))
    for number, (listening, basic, generic, specific, classes) in info.items():
        node = app.nodes["{}:0".format(number)]
        got = (node.nodeId, node.rootNodeId, node.endpoint, *known(node), sorted(node.supported))
        want = ("{}:0".format(number), number, 0, listening, basic, generic, specific, sorted(classes))
        check(got == want, "node", "{}: {} instead of {}", where, got, want)
        check(node.adapter is gw and not node.flirs and not node.isFailed, "node", "{}: {}", where, number)
        for (root, endpoint), (epgeneric, epspecific, epclasses) in caps.items():
            if root != number:
                continue
            unit = app.nodes["{}:{}".format(root, endpoint)]
            got = (unit.nodeId, unit.rootNodeId, unit.endpoint, *known(unit), sorted(unit.supported))
            want = ("{}:{}".format(root, endpoint), root, endpoint, listening, basic, epgeneric, epspecific, sorted(epclasses))
            check(got == want, "end point", "{}: {} instead of {}", where, got, want)
            check(unit.parent is node and unit.adapter is gw and not unit.flirs and not unit.isFailed, "end point", "{}: {}", where, root)
    check(len({id(n) for n in app.nodes.values()}) == len(app.nodes), "nodes", where)


ENDS = {2: 2, 3: 2, 200: 2}


def edit(info, caps, node, field, value):
    """Change one field"""
    if field == "listening":
        info[node][0] = bool(value & 1)
    elif field.startswith("ep"):
        caps[node, 1 + value % 2][FIELDS.index(field) - 4] = value
    else:
        info[node][FIELDS.index(field)] = value


def fields(ch, node, field):
    """Every value of a field"""
    for value in range(2 if field == "listening" else 256):
        info, caps = table()
        edit(info, caps, node, field, value)

        async def main(loop, info=info, caps=caps, value=value):
            app, gw, _net = await started(loop, info, caps, ENDS)
            compare(app, gw, info, caps, "{} of node {} is {}".format(field, node, value))

        world.run(main)
        ch.case()
    return node, field


def combinations(ch, first):
    """Corner values of all fields of a node and an end point together"""
    for values in itertools.product((0, 1, 255), repeat=5):
        info, caps = table()
        info[3][:4] = [bool(first & 1)] + list(values[:3])
        caps[3, 2][:2] = values[3:]

        async def main(loop, info=info, caps=caps, values=values):
            app, gw, _net = await started(loop, info, caps, ENDS)
            compare(app, gw, info, caps, "{} {}".format(first, values))

        world.run(main)
        ch.case()
    return first


def counts(ch, individual):
    """Individual and aggregated end points"""
    for aggregated in sorted({0, 1, 2, 7, 127 - individual}):
        if not 0 <= individual + aggregated <= 127:
            continue
        info, caps = table()
        caps = {k: v for k, v in caps.items() if k[0] != 3}
        caps.update({(3, e): [e, 255 - e, bytes([0x20 + e % 3])] for e in range(1, individual + aggregated + 1)})

        def hook(net, aggregated=aggregated):
            def answer(pkt):
                if pkt.kind != "zip" or pkt.cmd is None or pkt.cmd[:2] != b"\x52\x05" or pkt.cmd[3] != 3:
                    return False
                net.deliver(pkt.transport, sim.ack(pkt.seq))
                net.deliver(pkt.transport, sim.zip_packet(bytes([0x52, 0x06, pkt.cmd[2], 3, 0, individual, aggregated]), 9))
                return True

            return answer

        async def main(loop, info=info, caps=caps, hook=hook, aggregated=aggregated):
            app, gw, _net = await started(loop, info, caps, ENDS, hook)
            compare(app, gw, info, caps, "{} individual {} aggregated".format(individual, aggregated))

        world.run(main)
        ch.case()
    return individual


def crowds(ch, count):
    """A network of so many nodes, then one more"""
    numbers = list(range(2, count + 2))
    info = {n: [bool(n % 3), n & 255, n * 3 & 255, n * 7 & 255, bytes(range(0x20, 0x20 + n % 30)) + (b"\x60" if n % 5 == 0 else b"")]
            for n in numbers}
    caps = {(n, e): [n + e & 255, n ^ e & 255, bytes(range(0x60, 0x60 + e))] for n in numbers if n % 5 == 0 for e in range(1, n % 4 + 1)}

    async def main(loop):
        first = {n: v for n, v in info.items() if n != numbers[-1]}
        app, gw, net = await started(loop, first, {k: v for k, v in caps.items() if k[0] in first}, {n: n % 4 for n in first if n % 5 == 0})
        compare(app, gw, first, {k: v for k, v in caps.items() if k[0] in first}, "{} nodes".format(count - 1))
        net.nodes.add(numbers[-1])
        net.info[numbers[-1]] = tuple(info[numbers[-1]])
        if numbers[-1] % 5 == 0:
            net.endpoints[numbers[-1]] = numbers[-1] % 4
        net.capabilities.update({k: tuple(v) for k, v in caps.items()})
        net.unsolicited(1, net.nodelist(0))
        await asyncio.sleep(60)
        compare(app, gw, info, caps, "{} nodes".format(count))
        check(not loop.errors, "escaped", "{}", loop.errors[:1])

    world.run(main)
    ch.case(count)
    return count


async def return_(ch, loop, node, first, ends, changed, where):
    """Three times"""
    info, caps = table()
    caps = {k: v for k, v in caps.items() if k[0] != node}
    old = {(node, e): [e, 255 - e, bytes([0x20])] for e in range(1, first + 1)}
    app, gw, net = await started(loop, info, {**caps, **old}, {**ENDS, node: first})
    compare(app, gw, info, {**caps, **old}, "{} end points of {}".format(first, node))
    for number in range(3):
        net.nodes.discard(node)
        net.unsolicited(1, net.nodelist(0))
        if where == "later":
            await asyncio.sleep(60)
            compare(app, gw, {n: v for n, v in info.items() if n != node}, caps, "{} left".format(node))
        else:
            await asyncio.sleep(0.5)
        if changed:
            info[node] = [not info[node][0], 9 + number, 0x33 + number, 0x44 + number, bytes([0x60, 0x70 + number])]
        net.info[node] = tuple(info[node])
        net.endpoints[node] = ends + number % 2
        new = {(node, e): [0x50 + e + number, 0x60 + e, bytes([0x71 + number])] for e in range(1, net.endpoints[node] + 1)}
        net.capabilities.update({k: tuple(v) for k, v in new.items()})
        net.nodes.add(node)
        net.unsolicited(1, net.nodelist(0))
        await asyncio.sleep(60)
        compare(app, gw, info, {**caps, **new}, "{} came back {} with {} end points, {} at first".format(node, where, net.endpoints[node], first))
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])


def again(ch, node, first):
    """A node that left and comes back as another device, or as the same with other end points"""
    for case in itertools.product(range(4), (True, False), ("later", "at once")):
        world.run(lambda loop, case=case: return_(ch, loop, node, first, *case))
    return node, first


QUESTIONS = [(b"\x52\x03", 2, None), (b"\x52\x03", 3, None), (b"\x52\x05", 2, None), (b"\x52\x05", 3, None)] + [
    (b"\x52\x07", n, e) for n in (2, 3) for e in (1, 2)]


def lost(ch, part):
    """Whatever is not reported about one changes nothing for the others"""
    for number in range(part, 1 << len(QUESTIONS), 8):
        missing = [q for i, q in enumerate(QUESTIONS) if number >> i & 1]
        info, caps = table()
        for head, node, endpoint in missing:
            if head == b"\x52\x03":
                info[node] = [False, 0, 0, 0, b""]
                caps = {k: v for k, v in caps.items() if k[0] != node}
            elif head == b"\x52\x05":
                caps = {k: v for k, v in caps.items() if k[0] != node}
            elif (node, endpoint) in caps:
                caps[node, endpoint] = [0, 0, b""]

        def hook(net, missing=missing):
            def answer(pkt):
                if pkt.kind != "zip" or pkt.cmd is None:
                    return False
                question = (pkt.cmd[:2], pkt.cmd[4] if pkt.cmd[1:2] == b"\x03" else pkt.cmd[3] if len(pkt.cmd) > 3 else None,
                            pkt.cmd[4] & 127 if pkt.cmd[:2] == b"\x52\x07" else None)
                return question in missing

            return answer

        full, fullcaps = table()

        async def main(loop, info=info, caps=caps, hook=hook, full=full, fullcaps=fullcaps):
            net = sim.Net(loop, nodes=list(full))
            net.info.update({n: tuple(v) for n, v in full.items()})
            net.capabilities.update({k: tuple(v) for k, v in fullcaps.items()})
            net.endpoints.update(ENDS)
            net.hook = hook(net)
            app, gw, _net = await world.application(loop, net=net)
            compare(app, gw, info, caps, "lost {}".format(missing))

        world.run(main)
        ch.case()
    return part


def changes(ch):
    """What belongs to the device is the same for its end points at any time"""
    async def main(loop):
        info, caps = table()
        app, gw, _net = await started(loop, info, caps, ENDS)
        for node, field in itertools.product((2, 3, 200), ("listening", "basic", "generic", "specific")):
            for value in (0, 1, 255, 7):
                info[node][FIELDS.index(field)] = bool(value) if field == "listening" else value
                setattr(app.nodes["{}:0".format(node)], {"listening": "listening"}.get(field, field + "DeviceClass"), info[node][FIELDS.index(field)])
                compare(app, gw, info, caps, "{} of {} set to {}".format(field, node, value))
                ch.case()
        state = {node: [False, False] for node in (2, 3, 200)}
        for node, which, value in itertools.product((2, 3, 200), (0, 1), (True, False, True)):
            state[node][which] = value
            setattr(app.nodes["{}:0".format(node)], ("flirs", "isFailed")[which], value)
            for other, endpoint in itertools.product((2, 3, 200), range(3)):
                unit = app.nodes["{}:{}".format(other, endpoint)]
                check([unit.flirs, unit.isFailed] == state[other], "end point" if endpoint else "node", "{} of {} set to {}: {} is {} {}",
                      which, node, value, unit.nodeId, unit.flirs, unit.isFailed)
            ch.case()

    world.run(main)
    return True


def removal(ch, name, how):
    """Removing a failed node"""
    async def main(loop):
        info, caps = table()
        app, _gw, net = await started(loop, info, caps, ENDS)
        node = app.nodes[name]
        root = int(name.split(":")[0])
        for status in range(256):
            asked = []

            def hook(pkt, asked=asked, status=status):
                if pkt.kind != "zip" or pkt.cmd is None or pkt.cmd[:2] != b"\x34\x07":
                    return False
                asked.append(pkt.cmd)
                reply = sim.zip_packet(bytes([0x34, 0x08, pkt.cmd[2], status, root]), 8)
                if how != "not acked":
                    net.deliver(pkt.transport, sim.ack(pkt.seq))
                if how in ("answered", "slow"):
                    net.deliver(pkt.transport, reply, 9.5 if how == "slow" else 0)
                if how == "late":
                    net.deliver(pkt.transport, reply, 10.5)
                if how == "cut":
                    net.deliver(pkt.transport, reply[:-2])
                return True

            net.hook = hook
            task = world.timed(loop, node.remove())
            await asyncio.wait([task], timeout=60)
            where = "{} status {} {}".format(name, status, how)
            check([c[3] for c in asked] == [root], "request", "{}: {}", where, asked)
            check(world.state(task) == ("ok", status == 1 and how in ("answered", "slow")), "removal", "{}: {}", where, world.state(task))
            ch.case()
            await asyncio.sleep(2)
        check(not loop.errors, "escaped", "{}", loop.errors[:1])

    world.run(main, horizon=10 ** 8)
    return name, how


SCENARIOS = {"crowds": crowds, "fields": fields, "combinations": combinations, "counts": counts, "lost": lost, "changes": changes, "removal": removal, "again": again}


def jobs(thorough):
    """All of it is done by both tiers"""
    result = [("counts", {"individual": count}, None) for count in (range(128) if thorough else (0, 1, 2, 3, 10, 63, 64, 126, 127))]
    result += [("fields", {"node": node, "field": field}, None) for node in (2, 3, 200) for field in FIELDS]
    result += [("combinations", {"first": first}, None) for first in range(2)]
    result += [("lost", {"part": part}, None) for part in range(8)]
    result += [("crowds", {"count": c}, None) for c in (range(1, 232) if thorough else (1, 2, 29, 33, 64, 128, 129, 150, 231))]
    result += [("again", {"node": node, "first": first}, None) for node in (2, 3, 200) for first in range(4)]
    result += [("changes", {}, None)]
    result += [("removal", {"name": name, "how": how}, None) for name in ("2:0", "200:0", "3:2") for how in (
        "answered", "slow", "late", "not acked", "lost", "cut")]
    return result
