"""C13: unsolicited messages reach the listeners with the right node and one ack"""
import asyncio
import ipaddress
import itertools

from mc import sim, wire

from . import world
from .c05 import compare
from .world import check

LEVEL = "model_checking"
RULE = ("unsolicited packets with every sequence number, every pair of end points, every combination of header flags, every known message, "
        "header extension or none, from every known node in several spellings of its address and from unknown senders; every sequence of up "
        "to four packets and node list changes; up to 231 nodes and commands of up to 1400 bytes. Each is compared with the notifications of two listeners and the acknowledgements sent")


class Post:
    """Sends packets to the unsolicited socket and verifies what they caused"""

    def __init__(self, loop, gw, net):
        self.loop, self.net = loop, net
        self.ears = [world.Ear("messageReceived"), world.Ear("messageReceived")]
        for ear in self.ears:
            gw.addListener(ear)
        net.sent.clear()
        self.pending = []

    def send(self, node, addr, cmd, values, **header):
        """A packet: node is who it must be reported as (None: nobody)"""
        data = header.pop("raw", None) or (wire.encode(cmd, values) if isinstance(values, dict) else cmd)
        packet = sim.zip_packet(data, header.get("seq", 0), **{k: v for k, v in header.items() if k not in ("seq", "options")})
        self.pending.append((node, addr, cmd, values, header, packet))
        self.loop.env(0, 0, lambda: self.net.listener.deliver(packet, addr))

    async def verify(self, where=""):
        """Everything that was sent, in order"""
        await self.loop.settle()
        acks = [p for p in self.net.sent if p.kind == "zip" and not (p.cmd and p.remote == sim.GW)]
        self.net.sent.clear()
        heard = [ear.take() for ear in self.ears]
        wanted_acks, wanted = [], []
        for node, addr, cmd, values, header, packet in self.pending:
            where = where + " " + packet.hex()
            if node is not None and header.get("ackreq"):
                wanted_acks.append((addr, header.get("seq", 0), header.get("dst", 0), header.get("src", 0)))
            if node is not None and cmd is not None:
                wanted.append((node, header.get("src", 0), cmd, values, header.get("options")))
        got = [(p.addr, p.seq, p.src, p.dst) for p in acks]
        check(got == wanted_acks, "acks", "{}: acknowledgements (address, seq, from, to) {} instead of {}", where, acks, wanted_acks)
        for pkt in acks:
            check(pkt.ackres and not pkt.ackreq and not pkt.nackres and pkt.cmd is None and pkt.ext is None
                  and pkt.transport is self.net.listener, "not an ack", "{}: {} {}", where, pkt, pkt.data.hex())
        for calls in heard:
            check(len(calls) == len(wanted), "reports", "{}: reported {} instead of {}", where, calls, wanted)
            for (_name, node, endpoint, msg, ext), (wnode, wep, cmd, values, options) in zip(calls, wanted):
                check((node, int(endpoint)) == (wnode, wep), "wrong node", "{}: from {}:{} instead of {}:{}", where, node, endpoint,
                      wnode, wep)
                if isinstance(values, dict):
                    spec = wire.MESSAGES[cmd]
                    want = {f.name: values[f.name] if f.kind in ("cmd", "lencmd") else wire.expected(f, values[f.name])
                            for f in spec.fields if not f.reserved}
                    check(plain(world.describe(msg)) == plain((cmd, want)), "wrong command", "{}: {} instead of {}", where,
                          world.describe(msg), (cmd, want))
                else:
                    check(msg.hid() == int.from_bytes(cmd[:2], "big"), "wrong command", "{}: {}", where, msg)
                compare(ext, options or [], where)
        self.pending = []


def plain(described):
    """Without the nested command, which C02 compares"""
    name, values = described
    return (name, {k: v if not (isinstance(v, tuple) and isinstance(v[0], str)) else v[0] for k, v in values.items()})


def spell(node):
    """The same address in several spellings"""
    addr = ipaddress.IPv6Address(sim.node_ip(node))
    return [addr.compressed, addr.exploded, addr.compressed.upper()]


async def play_headers(loop, ch, part):
    """All header values"""
    gw, net = await world.gateway(loop)
    post = Post(loop, gw, net)
    cases = []
    option = [(1, b"\x00\x00\x05", False)]
    if part == "seq":
        for seq, ackreq, node, ext in itertools.product(range(256), (False, True), (2, 3), (None, option)):
            cases.append((node, dict(seq=seq, ackreq=ackreq, ext=ext)))
    elif part == "flags":
        for bits in itertools.product((False, True), repeat=8):
            more, secure, queuefull, optionerror, ackreq, extended, empty, res = bits
            cases.append((2, dict(more=more, secure=secure, queuefull=queuefull, optionerror=optionerror, ackreq=ackreq, seq=7,
                                  reserved=63 if res else 0, ext=option if extended else None, empty=empty)))
    elif part == "senders":
        for node, port, ackreq, number in itertools.product((1, 2, 3, None), (4123, 41230, 1, 65535), (False, True), range(3)):
            cases.append((node, dict(port=port, ackreq=ackreq, spelling=number, seq=number + 60)))
    else:
        for src, dst, ackreq in itertools.product(range(part * 8, part * 8 + 8), range(128), (False, True)):
            cases.append((2, dict(src=src, dst=dst, seq=src ^ dst, ackreq=ackreq)))
    for number, (node, header) in enumerate(cases):
        options = header.pop("ext", None)
        spelling, port = header.pop("spelling", 0), header.pop("port", sim.PORT)
        empty = header.pop("empty", False)
        if options:
            header["ext"] = sim.header_ext([sim.option(k, d, c) for k, d, c in options])
            header["options"] = options
        addr = (spell(node)[spelling] if node else ["fd00:bbbb::77", "::", "fd00:bbbc::2"][spelling], port, 0, 0)
        post.send(node, addr, None if empty else "Basic.Set", None if empty else {"value": number & 255}, **header)
        await post.verify(str(addr))
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return (part, len(cases))


def headers(ch, part):
    """All header values"""
    return world.run(lambda loop: play_headers(loop, ch, part), horizon=10 ** 8, dressed="reserved")


async def play_messages(loop, ch):
    """Every message from every sender"""
    gw, net = await world.gateway(loop)
    post = Post(loop, gw, net)
    for name in wire.MESSAGES:
        if name in ("NetworkManagementProxy.NodeListReport", "Zip.ZipPacket", "Zip.ZipKeepAlive"):
            continue
        for node, ackreq in itertools.product((2, 3, None), (False, True)):
            post.send(node, (sim.node_ip(node or 99), sim.PORT, 0, 0), name, wire.default_values(name), ackreq=ackreq, seq=9, src=5)
            await post.verify(name)
            ch.case()
    for head in (0x0001, 0x99FF, 0xF100, 0x2099):
        for ackreq in (False, True):
            post.send(2, (sim.node_ip(2), sim.PORT, 0, 0), head.to_bytes(2, "big") + b"\x01", None, ackreq=ackreq, seq=10)
            await post.verify("unknown command")
            ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return True


def messages(ch):
    """Every message"""
    from .codec import quiet  # pylint: disable=import-outside-toplevel

    with quiet():
        return world.run(lambda loop: play_messages(loop, ch), horizon=10 ** 8, dressed="reserved")


EVENTS = ["2 ack", "2", "3 ack", "3 again", "1 ack", "unknown ack", "4 ack", "empty ack", "2 response", "supervised ack",
          "list 2", "list 3", "list 234", "list none", "list 2 moved", "list 234 lost 4",
          "list 234 slow 4"]


async def sequence(loop, events):
    """One sequence"""
    net = sim.Net(loop, nodes=(2, 3))
    gw, _net = await world.gateway(loop, net=net)
    net.nodes.add(4)
    post = Post(loop, gw, net)
    addresses = {n: sim.node_ip(n) for n in (1, 2, 3)}
    where = str(events)
    moved = {}

    def hook(pkt):
        if pkt.kind != "inv":
            return False
        if pkt.node in moved and moved[pkt.node]:
            net.deliver(pkt.transport, net.advert(pkt.node, ip=moved[pkt.node]))
        return pkt.node in moved

    net.hook = hook
    for number, event in enumerate(events):
        parts = event.split()
        if parts[0] == "list":
            await post.verify(where)
            if None in moved.values():
                # The previous list is still being handled
                await asyncio.sleep(4)
            nodes = [] if parts[1] == "none" else [int(n) for n in parts[1]]
            moved.clear()
            if parts[2:] == ["moved"]:
                moved[3] = "fd00:cccc::3"
                # Gone and back with another address
                net.unsolicited(1, net.nodelist(0, nodes={1, 2}))
                await loop.settle()
                nodes.append(3)
                addresses.pop(3, None)
            elif parts[2:]:
                moved[4] = None
            new = {}
            for node in [1] + nodes:
                if node in addresses:
                    new[node] = addresses[node]
                elif moved.get(node, True):
                    new[node] = moved.get(node, sim.node_ip(node))
            net.unsolicited(1, net.nodelist(0, nodes=set(nodes) | {1}))
            await loop.settle()
            if parts[2:3] == ["lost"]:
                await asyncio.sleep(4)
            addresses = new
            net.sent.clear()
            continue
        if parts[0] == "empty":
            node, ip = 2, sim.node_ip(2)
        elif parts[0] == "unknown":
            node, ip = None, "fd00:bbbb::99"
        elif parts[0] == "supervised":
            node, ip = 3, addresses.get(3, sim.node_ip(3))
        else:
            node = int(parts[0])
            ip = addresses.get(node, sim.node_ip(node))
        owner = [n for n, a in addresses.items() if a == ip]
        header = {"ackreq": "ack" in parts, "seq": 5 if "again" in parts else 40 + number, "src": number, "dst": 3}
        if parts[0] == "empty":
            cmd, values = None, None
        elif parts[0] == "supervised":
            cmd, values = "Supervision.Get", {"statusUpdates": 0, "sessionID": number, "command": ("Basic.Set", {"value": 1})}
        elif "response" in parts:
            cmd, values = None, None
            header["ackres"] = True
        else:
            cmd, values = "Basic.Set", {"value": number}
        post.send(owner[0] if owner else None, (ip, sim.PORT + number, 0, 0), cmd, values, **header)
    await post.verify(where)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])


def sequences(ch, first, depth):
    """Sequences"""
    for length in range(1, depth + 1):
        for rest in itertools.product(EVENTS, repeat=length - 1):
            world.run(lambda loop, events=(EVENTS[first],) + rest: sequence(loop, events), dressed="reserved")
            ch.case()
    return first


async def play_lists(loop, ch):
    """Node lists are not reported, but acknowledged like everything else"""
    gw, net = await world.gateway(loop)
    post = Post(loop, gw, net)
    for node, seq, ackreq, (src, dst) in itertools.product((1, 2, None), range(256), (False, True), ((0, 0), (5, 9))):
        cmd = net.nodelist(seq)
        post.send(node, (sim.node_ip(node or 99), sim.PORT, 0, 0), None, None, ackreq=ackreq, seq=seq, src=src, dst=dst, raw=cmd)
        await post.verify("node list from {}".format(node))
        post.send(3, (sim.node_ip(3), sim.PORT, 0, 0), "Basic.Set", {"value": seq}, ackreq=True, seq=seq)
        await post.verify("after a node list from {}".format(node))
        ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return True


def lists(ch):
    """Node lists are not reported, but acknowledged like everything else"""
    return world.run(lambda loop: play_lists(loop, ch), horizon=10 ** 8, dressed="reserved")


async def play_many(loop, ch, count):
    """A network of so many nodes, commands of every size"""
    gw, net = await world.gateway(loop, nodes=range(2, count + 2))
    post = Post(loop, gw, net)
    for node in list(range(2, count + 2)) + [1, None]:
        for number, size in enumerate(((node or 0) * 6 % 1400, (node or 0) * 6 % 7)):
            values = {"last": 0, "operation": 1, "queueHandle": 3, "mailboxEntry": bytes((size + i) & 255 for i in range(size))}
            post.send(node, (sim.node_ip(node or 0xFFF), sim.PORT, 0, 0), "Mailbox.Queue", values, ackreq=not number, seq=(node or 0) + number)
            await post.verify("{} nodes".format(count))
            ch.case()
    # All of them at once
    for node in range(2, count + 2):
        post.send(node, (sim.node_ip(node), sim.PORT, 0, 0), "Basic.Set", {"value": node & 255}, ackreq=True, seq=node, src=node & 127)
    await post.verify("{} nodes at once".format(count))
    ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return count


def many(ch, count):
    """A network of so many nodes, commands of every size"""
    return world.run(lambda loop: play_many(loop, ch, count), horizon=10 ** 8, dressed="reserved")


SCENARIOS = {"headers": headers, "messages": messages, "sequences": sequences, "many": many, "lists": lists}


def jobs(thorough):
    """By part"""
    return [("headers", {"part": p}, None) for p in ["seq", "flags", "senders"] + list(range(16))] + [("messages", {}, None), ("lists", {}, None)] + [
        ("many", {"count": c}, None) for c in (range(1, 232) if thorough else (1, 30, 128, 129, 231))] + [
        ("sequences", {"first": i, "depth": 4 if thorough else 3}, None) for i in range(len(EVENTS))]
