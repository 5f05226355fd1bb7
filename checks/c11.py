"""C11: network management operations work at any time and return their own reply"""
import asyncio
import itertools

from mc import sim, wire
from pyzwave.adapter import TxOptions
from pyzwave.commandclass import NetworkManagementInclusion

from . import world
from .world import check, state

LEVEL = "model_checking"
RULE = ("every network management operation with every node, end point and option value and replies over the whole value range, each "
        "fate of its request (acked, not acked, nacked, reply lost, incomplete, late, cancelled); every ordered pair and triple of "
        "overlapping operations under every order of their acks and replies; every pair with the first reply coming during the second; "
        "histories of 300 operations, some with a late reply to every second one; up to 90 requests at once. Requests and results are compared with the reference model")

INCL, PROXY = "NetworkManagementInclusion.", "NetworkManagementProxy."
FAIL = 2  # REMOVE_FAIL


class Op:
    """One operation: how it is called, what it must send, and what the replies to it mean"""

    def __init__(self, name, call, request, reply=None, result=None, failed=False, timeout=3):
        self.name, self.call, self.request, self.reply, self.result = name, call, request, reply, result
        self.failed, self.timeout = failed, timeout

    def sent(self, seq):
        """The bytes of the request"""
        name, values = self.request
        return wire.encode(name, dict(values, seqNo=seq))

    def answer(self, seq, variant):
        """The bytes of a reply"""
        name, values = self.reply(variant)
        return wire.encode(name, dict(values, seqNo=seq))

    def expected(self, seq, variant):
        """What the operation returns for this reply"""
        if self.reply is None:
            return True
        return self.result(seq, *self.reply(variant))


def masks(variant):
    """Node sets"""
    return [sorted({variant % 232 + 1}), [], [1, 232], list(range(1, 233)), [8, 9, 16, 17]][0 if variant < 232 else variant % 5]


def listed(_seq, _name, values):
    """The nodes of a list"""
    return set(values.get("nodes", values.get("failedNodeList")))


def whole(seq, name, values):
    """The report itself"""
    spec = wire.MESSAGES[name]
    return (name, {f.name: seq if f.name == "seqNo" else wire.expected(f, values[f.name])
                   for f in spec.fields if not f.reserved})


def empty(name):
    """The report when there was none"""
    return (PROXY + name, {f.name: None for f in wire.MESSAGES[PROXY + name].fields if not f.reserved})


def nodelist():
    """getNodeList"""
    return Op("getNodeList", lambda gw: gw.getNodeList(), (PROXY + "NodeListGet", {}),
              lambda v: (PROXY + "NodeListReport", {"status": v & 1, "nodeListControllerId": v % 232 + 1, "nodes": masks(v)}),
              listed, set())


def failedlist():
    """getFailedNodeList"""
    return Op("getFailedNodeList", lambda gw: gw.getFailedNodeList(), (PROXY + "FailedNodeListGet", {}),
              lambda v: (PROXY + "FailedNodeListReport", {"failedNodeList": masks(v)}), listed, set())


def nodeinfo(node):
    """getNodeInfo"""
    return Op("getNodeInfo", lambda gw: gw.getNodeInfo(node),
              (PROXY + "NodeInfoCachedGet", {"maxAge": 15, "nodeID": node}),
              lambda v: (PROXY + "NodeInfoCachedReport", {
                  "status": v % 3, "age": v & 15, "listening": v & 1, "optFunc": v >> 1 & 1, "basicDeviceClass": v & 255,
                  "genericDeviceClass": v + 1 & 255, "specificDeviceClass": v + 2 & 255, "commandClass": bytes(range(v % 40))}),
              whole, empty("NodeInfoCachedReport"))


def endpoints(node):
    """getMultiChannelEndPoints"""
    return Op("getMultiChannelEndPoints", lambda gw: gw.getMultiChannelEndPoints(node),
              (PROXY + "MultiChannelEndPointGet", {"nodeID": node}),
              lambda v: (PROXY + "MultiChannelEndPointReport",
                         {"nodeID": node, "individualEndPoints": v & 127, "aggregatedEndPoints": (v >> 7) * 63 & 127}),
              lambda _s, _n, values: values["individualEndPoints"] + values["aggregatedEndPoints"], 0)


def capability(node, endpoint):
    """getMultiChannelCapability"""
    return Op("getMultiChannelCapability", lambda gw: gw.getMultiChannelCapability(node, endpoint),
              (PROXY + "MultiChannelCapabilityGet", {"nodeID": node, "endPoint": endpoint}),
              lambda v: (PROXY + "MultiChannelCapabilityReport", {
                  "nodeID": node, "endPoint": endpoint, "commandClassLength": v % 40, "genericDeviceClass": v & 255,
                  "specificDeviceClass": v + 1 & 255, "commandClass": bytes(range(v % 40))}),
              whole, empty("MultiChannelCapabilityReport"))


def removefailed(node):
    """removeFailedNode"""
    return Op("removeFailedNode", lambda gw: gw.removeFailedNode(node), (INCL + "FailedNodeRemove", {"nodeID": node}),
              lambda v: (INCL + "FailedNodeRemoveStatus", {"status": v % 3, "nodeID": node}),
              lambda _s, _n, values: values["status"], FAIL, timeout=10)


def add(options):
    """addNode"""
    return Op("addNode", lambda gw: gw.addNode(TxOptions(options)), (INCL + "NodeAdd", {"mode": 7, "txOptions": options}))


ADDSTOP = Op("addNodeStop", lambda gw: gw.addNodeStop(), (INCL + "NodeAdd", {"mode": 5, "txOptions": 0}))
REMOVE = Op("removeNode", lambda gw: gw.removeNode(), (INCL + "NodeRemove", {"mode": 1}))
REMOVESTOP = Op("removeNodeStop", lambda gw: gw.removeNodeStop(), (INCL + "NodeRemove", {"mode": 5}))


def dskset(accept, length, dsk):
    """addNodeDSKSet"""
    return Op("addNodeDSKSet", lambda gw: gw.addNodeDSKSet(bool(accept), length, dsk),
              (INCL + "NodeAddDSKSet", {"accept": accept, "inputDSKLength": length, "dsk": dsk}))


def keysset(csa, accept, keys):
    """addNodeKeysSet"""
    return Op("addNodeKeysSet", lambda gw: gw.addNodeKeysSet(bool(csa), bool(accept), NetworkManagementInclusion.Keys(keys)),
              (INCL + "NodeAddKeysSet", {"grantCSA": csa, "accept": accept, "grantedKeys": keys}))


def few():
    """One or two of each operation"""
    return [nodelist(), failedlist(), nodeinfo(2), nodeinfo(3), endpoints(2), endpoints(3), capability(2, 1), capability(2, 2),
            capability(3, 1), removefailed(2), removefailed(3), add(1), ADDSTOP, REMOVE, REMOVESTOP, dskset(1, 2, bytes(range(16))),
            keysset(0, 1, 0x87)]


def result_of(task):
    """What the operation returned, comparable"""
    got = state(task)
    if got[0] != "ok":
        return got
    value = got[1]
    if isinstance(value, (set, frozenset, list)):
        return {int(x) for x in value}
    if isinstance(value, bool):
        return value
    if isinstance(value, int):
        return int(value)
    name, fields = world.describe(value)
    if fields.get("seqNo") is None:
        # A report that never came has no values
        fields = {key: field or None for key, field in fields.items()}
    return (name, fields)


class Desk:
    """The gateway as seen from the network management: collects the requests to be answered by hand"""

    def __init__(self, net):
        self.net = net
        self.requests = []
        net.hook = self.hook

    def hook(self, pkt):
        """Everything but keep-alives and node solicitations"""
        if pkt.kind == "zip" and pkt.cmd is not None and pkt.ackreq and pkt.remote == sim.GW:
            self.requests.append(pkt)
            return True
        return False

    async def start(self, loop, gw, op, where):
        """Start an operation: (task, packet, network management sequence number)"""
        del self.requests[:]
        task = world.timed(loop, op.call(gw))
        await loop.settle()
        check(len(self.requests) == 1, "requests", "{}: {} requests sent", where, len(self.requests))
        pkt = self.requests.pop()
        check(pkt.cmd == op.sent(pkt.cmd[2]), "wrong request", "{}: {} sent {} instead of {}", where, op.name, pkt.cmd.hex(),
              op.sent(pkt.cmd[2]).hex())
        check(pkt.dst == 0 and pkt.src == 0, "wrong request", "{}: sent to end point {}", where, pkt.dst)
        return task, pkt, pkt.cmd[2]

    def ack(self, pkt, delay=0, lag=0):
        """Acknowledge"""
        self.net.deliver(self.net.gw, sim.ack(pkt.seq), delay, lag)

    def reply(self, op, seq, variant, delay=0, lag=0, data=None):
        """Reply"""
        self.net.deliver(self.net.gw, sim.zip_packet(data if data is not None else op.answer(seq, variant), 0xEE), delay, lag)


async def desk(loop):
    """A gateway that does not know any node list yet"""
    net = sim.Net(loop, nodes=(2, 3))
    net.hook = lambda pkt: pkt.kind == "zip" and pkt.cmd is not None and pkt.cmd[:2] == b"\x52\x01"
    gw, _net = await world.gateway(loop, net=net)
    return gw, Desk(net)


def arguments(part):
    """Every operation with all its arguments, and the reply variants"""
    if part == "nodes":
        for node in range(1, 233):
            for make in (nodeinfo, endpoints, removefailed):
                yield make(node), (node,)
            yield capability(node, node & 127), (node,)
    elif part == "endpoints":
        for endpoint in range(128):
            yield capability(5, endpoint), (endpoint, endpoint + 40)
    elif part == "options":
        for value in range(256):
            yield add(value), (0,)
            yield keysset(value & 1, value >> 1 & 1, value), (0,)
            yield dskset(value & 1, value & 15, wire.DSK[value % 4]), (0,)
        for operation in (ADDSTOP, REMOVE, REMOVESTOP):
            yield operation, (0,)
        for csa, accept, keys in itertools.product((0, 1), (0, 1), (0, 1, 2, 4, 0x80, 0x87)):
            yield keysset(csa, accept, keys), (0,)
    else:
        for operation in few():
            if operation.name.lower() == part:
                yield operation, tuple(range(400))


async def play_values(loop, ch, part):
    """Requests and results"""
    gw, table = await desk(loop)
    done = 0
    for operation, variants in arguments(part):
        for variant in variants:
            where = "{} variant {}".format(operation.request, variant)
            if operation.name == "getNodeList" and await known(gw, table, loop):
                # The list is cached: only a gateway that has none asks
                gw, table = await desk(loop_reset(loop))
            task, pkt, seq = await table.start(loop, gw, operation, where)
            table.ack(pkt)
            if operation.reply:
                await loop.settle()
                check(not task.done(), "early", "{}: {} before any reply", where, state(task))
                table.reply(operation, seq, variant)
            await loop.settle()
            got, want = result_of(task), operation.expected(seq, variant)
            check(got == want, "wrong result", "{}: {} instead of {}", where, got, want)
            if operation.name == "getNodeList":
                again = world.timed(loop, gw.getNodeList())
                await loop.settle()
                if want:
                    check(result_of(again) == want, "wrong result", "{}: cached {} instead of {}", where, result_of(again), want)
                again.cancel()
                await loop.settle()
            done += 1
            ch.case()
    check(done, "harness")
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return (part, done)


def loop_reset(loop):
    """Forget the sockets of the previous gateway"""
    for transport in loop.transports:
        transport.closed = True
    del loop.transports[:]
    return loop


async def known(gw, table, loop):
    """Has this gateway a node list already?"""
    del table.requests[:]
    task = asyncio.ensure_future(gw.getNodeList())
    await loop.settle()
    asked = bool(table.requests)
    task.cancel()
    await loop.settle()
    return not asked


def values(ch, part):
    """All arguments and replies"""
    return world.run(lambda loop: play_values(loop, ch, part), horizon=10 ** 8, dressed="reserved")


FATES = ["late ack", "reply first", "reply with ack", "reply at the end", "not acked", "reply only", "nack", "lost", "incomplete", "twice"]


async def play_fate(loop, ch, index, fate, follow, variant):
    """What becomes of one operation, and the next ones being unaffected"""
    operation, after = few()[index], few()[follow]
    gw, table = await desk(loop)
    where = "{} {} then {}".format(operation.name, fate, after.name)
    task, pkt, seq = await table.start(loop, gw, operation, where)
    want, end = operation.expected(seq, variant), operation.timeout - 0.1
    allowed = [want]
    if fate == "late ack":
        table.ack(pkt, 2.5)
        if operation.reply:
            table.reply(operation, seq, variant, 2.8)
    elif fate == "reply first":
        if operation.reply:
            table.reply(operation, seq, variant)
        table.ack(pkt, 1)
    elif fate == "reply with ack":
        table.ack(pkt)
        if operation.reply:
            table.reply(operation, seq, variant)
    elif fate == "reply at the end":
        table.ack(pkt)
        if operation.reply:
            table.reply(operation, seq, variant, end)
    elif fate == "not acked":
        allowed = [operation.failed]
    elif fate == "nack":
        table.net.deliver(table.net.gw, sim.zip_packet(None, pkt.seq, nackres=True))
        allowed = [operation.failed]
    elif fate == "reply only":
        # A reply without acknowledgement: it may count
        if operation.reply:
            table.reply(operation, seq, variant, 0.5)
        allowed = [operation.failed] + ([want] if operation.reply else [])
    elif fate == "lost":
        table.ack(pkt)
        allowed = [operation.failed if operation.reply else True]
    elif fate == "incomplete":
        table.ack(pkt)
        if operation.reply:
            if operation.name in ("getMultiChannelCapability", "getNodeInfo", "removeFailedNode", "getMultiChannelEndPoints"):
                allowed = None
            else:
                allowed = [operation.failed]
            table.reply(operation, seq, variant, 0.1, data=operation.answer(seq, variant)[:5])
    elif fate == "twice":
        table.ack(pkt)
        table.ack(pkt, 0.1)
        if operation.reply:
            table.reply(operation, seq, variant)
            table.reply(operation, seq, variant)
    await asyncio.sleep(30)
    got = result_of(task)
    if allowed is None:
        check(got != world.PENDING and got[:1] != ("error",) if isinstance(got, tuple) else True, "wrong result", "{}: {}",
              where, got)
    else:
        check(got in allowed, "wrong result", "{}: {} instead of {}", where, got, allowed)
    # Everything works afterwards
    if after.name == "getNodeList" and await known(gw, table, loop):
        return
    task, pkt, seq2 = await table.start(loop, gw, after, where)
    table.ack(pkt)
    if after.reply:
        table.reply(after, seq2, variant + 7)
    await loop.settle()
    got, want = result_of(task), after.expected(seq2, variant + 7)
    check(got == want, "not after", "{}: {} instead of {}", where, got, want)
    check(not loop.errors, "escaped", "{}: {}", where, loop.errors[:1])
    ch.case()


def fates(ch, index):
    """Every fate of an operation"""
    for fate, follow, variant in itertools.product(FATES, range(len(few())), (1, 300)):
        world.run(lambda loop, args=(fate, follow, variant): play_fate(loop, ch, index, *args))
    return index


async def play_overlap(loop, ch, chosen, spacing):
    """Overlapping operations: every order of acks and replies"""
    operations = [few()[i] for i in chosen]
    events = []
    for i, operation in enumerate(operations):
        events.append(("ack", i))
        if operation.reply:
            events.append(("reply", i))
    orders = list(itertools.permutations(events))
    if len(operations) > 2:
        # The acks as they come, the replies in every order
        orders = [tuple(e for e in events if e[0] == "ack") + order
                  for order in itertools.permutations([e for e in events if e[0] == "reply"])]
    gw, table = await desk(loop)
    done = 0
    for number, order in enumerate(orders):
        if any(o.name == "getNodeList" for o in operations):
            loop_reset(loop)
            gw, table = await desk(loop)
        where = "{} in order {} {}".format([o.request for o in operations], order, spacing)
        started = []
        for operation in operations:
            started.append(await table.start(loop, gw, operation, where))
        seqs = [s for _t, _p, s in started]
        check(len(set(seqs)) == len(seqs), "same sequence number", "{}: {}", where, seqs)
        sent = set()
        for position, (kind, i) in enumerate(order):
            _task, pkt, seq = started[i]
            delay = position * 0.2 if spacing == "apart" else 0
            if kind == "ack":
                table.ack(pkt, delay)
            else:
                table.reply(operations[i], seq, number * 3 + i * 50, delay)
            if spacing == "settled":
                await loop.settle()
                sent.add((kind, i))
                for k, (task, _p, _s) in enumerate(started):
                    check(task.done() or not {("ack", k), ("reply", k)} <= sent, "not done", "{}: {} after {}", where, k, sent)
        if spacing == "apart":
            await asyncio.sleep(2)
        await loop.settle()
        for i, (task, _pkt, seq) in enumerate(started):
            got, want = result_of(task), operations[i].expected(seq, number * 3 + i * 50)
            check(got == want, "wrong result", "{}: operation {} returned {} instead of {}", where, i, got, want)
        done += 1
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return (chosen, spacing, done)


def overlap(ch, chosen, spacing):
    """Overlapping operations"""
    return world.run(lambda loop: play_overlap(loop, ch, chosen, spacing), horizon=10 ** 8, dressed="reserved")


async def play_late(loop, ch, first, between, second, how, when):
    """The reply to an abandoned operation comes during a later one"""
    gw, table = await desk(loop)
    where = "late reply of {} ({}, {} between) {} of {}".format(first.request, how, between, when, second.request)
    task, pkt, seq = await table.start(loop, gw, first, where)
    if how == "cancelled":
        table.ack(pkt)
        await loop.settle()
        task.cancel()
        await loop.settle()
        check(state(task) == "cancelled", "not cancelled", "{}: {}", where, state(task))
    else:
        if how == "timeout":
            table.ack(pkt)
        await asyncio.sleep(30)
        check(result_of(task) == first.failed, "wrong result", "{}: {} instead of {}", where, result_of(task), first.failed)
    for number in range(between):
        operation = [endpoints(9), capability(9, 1), REMOVE, failedlist()][number % 4]
        task, pkt, middle = await table.start(loop, gw, operation, where)
        table.ack(pkt)
        if operation.reply:
            table.reply(operation, middle, number)
        await loop.settle()
        check(result_of(task) == operation.expected(middle, number), "wrong result", "{}: {} between", where, result_of(task))
    task, pkt, seq2 = await table.start(loop, gw, second, where)
    check(seq2 != seq, "same sequence number", "{}: {}", where, seq)
    late = lambda: table.reply(first, seq, 11)  # noqa: E731
    own = lambda: second.reply and table.reply(second, seq2, 77)  # noqa: E731
    if when == "before ack":
        late()
        await loop.settle()
        table.ack(pkt)
        own()
    elif when == "with ack":
        late()
        table.ack(pkt)
        own()
    elif when == "after ack":
        table.ack(pkt)
        await loop.settle()
        late()
        await loop.settle()
        own()
    elif when == "twice":
        table.ack(pkt)
        late()
        late()
        own()
    else:
        table.ack(pkt)
        late()
        await asyncio.sleep(30)
    await loop.settle()
    want = second.expected(seq2, 77)
    if when == "only" and second.reply:
        want = second.failed
    got = result_of(task)
    check(got == want, "reply of another", "{}: {} instead of {}", where, got, want)
    ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])


def late(ch, index, between):
    """Late replies"""
    first = few()[index]
    if first.reply is None:
        return None
    for second, how, when in itertools.product(few(), ("timeout", "cancelled", "unacked"),
                                               ("before ack", "after ack", "with ack", "only", "twice")):
        if second.name == "getNodeList" and first.name == "getNodeList" and between:
            continue
        world.run(lambda loop, args=(second, how, when): play_late(loop, ch, first, between, *args))
    return (index, between)


async def play_history(loop, ch, shift, losses):
    """Any number of operations after each other"""
    gw, table = await desk(loop)
    operations = [o for o in few() if o.name != "getNodeList"]
    recent = []
    for number in range(300):
        operation = operations[(number + shift) % len(operations)]
        where = "operation number {}: {}".format(number, operation.request)
        task, pkt, seq = await table.start(loop, gw, operation, where)
        check(seq not in recent, "same sequence number", "{}: {} is one of {}", where, seq, recent)
        recent = (recent + [seq])[-100:]
        table.ack(pkt)
        if losses and number % 3 == losses and operation.reply:
            await asyncio.sleep(30)
            check(result_of(task) == operation.failed, "wrong result", "{}: {}", where, result_of(task))
            # Too late
            table.reply(operation, seq, number + 1)
            await loop.settle()
        else:
            if operation.reply:
                table.reply(operation, seq, number)
            await loop.settle()
            got, want = result_of(task), operation.expected(seq, number)
            check(got == want, "wrong result", "{}: {} instead of {}", where, got, want)
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return (shift, losses)


def history(ch, shift, losses):
    """Many operations"""
    return world.run(lambda loop: play_history(loop, ch, shift, losses), horizon=10 ** 8, dressed="reserved")


async def play_steady(loop, ch, index, later):
    """Every second operation is lost and its reply comes during the one so many later"""
    gw, table = await desk(loop)
    operation = [o for o in few() if o.name != "getNodeList" and o.reply][index]
    lost = {}
    for number in range(300):
        where = "operation number {}: {}".format(number, operation.request)
        task, pkt, seq = await table.start(loop, gw, operation, where)
        table.ack(pkt)
        await loop.settle()
        if number - later in lost:
            table.reply(operation, lost.pop(number - later), number + 1)
            await loop.settle()
        if number % 2 == 0:
            lost[number] = seq
            await asyncio.sleep(30)
            got, want = result_of(task), operation.failed
        else:
            table.reply(operation, seq, number)
            await loop.settle()
            got, want = result_of(task), operation.expected(seq, number)
        check(got == want, "wrong result", "{}, late {}: {} instead of {}", where, later, got, want)
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return (index, later)


def steady(ch, index, later):
    """Late replies all the time"""
    return world.run(lambda loop: play_steady(loop, ch, index, later), horizon=10 ** 8)


async def play_many(loop, ch, index, count, order):
    """Many requests of one kind or of all kinds at once"""
    gw, table = await desk(loop)
    operations = [o for o in few() if o.name != "getNodeList" and o.reply]
    started = []
    for number in range(count):
        operation = operations[(number if index is None else index) % len(operations)]
        where = "{} of {} at once, {}: {}".format(number, count, order, operation.request)
        started.append((operation,) + tuple(await table.start(loop, gw, operation, where)))
    seqs = [s for _o, _t, _p, s in started]
    check(len(set(seqs)) == len(seqs), "same sequence number", "{}: {}", where, seqs)
    numbers = list(range(count))
    if order == "last first":
        numbers.reverse()
    elif order == "halves":
        numbers = numbers[1::2] + numbers[::2]
    for _operation, _task, pkt, _seq in started:
        table.ack(pkt)
    await loop.settle()
    for number in numbers:
        operation, task, _pkt, seq = started[number]
        where = "{} of {} at once, {}: {}".format(number, count, order, operation.request)
        check(not task.done(), "wrong result", "{}: returned {} before its reply", where, task)
        table.reply(operation, seq, number)
        await loop.settle()
        check(task.done(), "not done", where)
        got, want = result_of(task), operation.expected(seq, number)
        check(got == want, "wrong result", "{}: {} instead of {}", where, got, want)
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return index, count, order


def many(ch, index, count, order):
    """Many requests at once"""
    return world.run(lambda loop: play_many(loop, ch, index, count, order), horizon=10 ** 8, dressed="reserved")


async def play_mode(loop, ch, current, mode, fate):
    """The gateway mode is set when it is another one"""
    gw, table = await desk(loop)
    del table.requests[:]
    where = "setGatewayMode {} when {} ({})".format(mode, current, fate)
    task = world.timed(loop, gw.setGatewayMode(mode))
    await loop.settle()
    check([p.cmd for p in table.requests] == [b"\x5f\x02"], "requests", "{}: {}", where, table.requests)
    pkt = table.requests.pop()
    if fate != "get lost":
        table.ack(pkt)
        if fate != "report lost":
            table.net.deliver(table.net.gw, sim.zip_packet(bytes([0x5F, 0x03, current]), 9))
        await loop.settle()
    if fate in ("ok", "set lost") and current != mode:
        check([p.cmd for p in table.requests] == [bytes([0x5F, 0x01, mode])], "requests", "{}: {}", where, table.requests)
        if fate == "ok":
            table.ack(table.requests.pop())
    else:
        check(not table.requests, "requests", "{}: {}", where, table.requests)
    await asyncio.sleep(30)
    want = fate == "ok" or (fate == "set lost" and current == mode)
    check(result_of(task) is want, "wrong result", "{}: {}", where, result_of(task))
    ch.case()


def mode(ch):
    """Gateway mode"""
    for case in itertools.product((0, 1, 2, 255), (0, 1, 2), ("ok", "get lost", "report lost", "set lost")):
        world.run(lambda loop, args=case: play_mode(loop, ch, *args))
    return True


SCENARIOS = {"steady": steady, "values": values, "fates": fates, "overlap": overlap, "late": late, "history": history, "many": many, "mode": mode}


def jobs(thorough):
    """Ops by their number in few()"""
    count = len(few())
    result = [("mode", {}, None)]
    replies = len([o for o in few() if o.name != "getNodeList" and o.reply])
    result += [("many", {"index": i, "count": c, "order": o}, None) for i in [None] + list(range(replies)) for c in (9, 33, 90)
               for o in ("first first", "last first", "halves")]
    result += [("steady", {"index": i, "later": x}, None) for i in range(replies)
               for x in (1, 2, 7, 50, 99) + ((3, 10, 63, 64, 65, 98) if thorough else ())]
    parts = ["nodes", "endpoints", "options"] + sorted({o.name.lower() for o in few()})
    result += [("values", {"part": part}, None) for part in parts]
    result += [("fates", {"index": i}, None) for i in range(count)]
    result += [("late", {"index": i, "between": b}, None) for i in range(count)
               for b in ([0, 1, 2, 5, 60, 100] if thorough else [0, 1, 5])]
    result += [("history", {"shift": s, "losses": x}, None) for s in range(count - 1 if thorough else 4) for x in (0, 1, 2)]
    result += [("overlap", {"chosen": [i, j], "spacing": s}, None) for i in range(count) for j in range(count)
               for s in ("same", "settled", "apart") if few()[i].name + few()[j].name != "getNodeListgetNodeList"]
    replying = [i for i in range(count) if few()[i].reply and few()[i].name != "getNodeList"]
    result += [("overlap", {"chosen": [i, j, k], "spacing": s}, None)
               for i in replying for j in replying for k in replying for s in (("same", "settled", "apart") if thorough else ("same",))]
    return result
