"""The environment of the code under test: a Z/IP gateway with Z-Wave nodes behind it, speaking raw bytes.

Nothing here uses pyzwave's codec: packets are built and taken apart by hand, so that an error in the codec of
the code under test cannot cancel itself out.
"""
import ipaddress

GW = "fd00:aaaa::1"
PORT = 4123
KEEPALIVE = bytes([0x23, 0x03, 0x80])


def node_ip(node):
    """The address of a node"""
    return "fd00:bbbb::{:x}".format(node)


def packed(addr):
    """16 bytes address"""
    return ipaddress.IPv6Address(addr).packed


def zip_packet(cmd=None, seq=0, ackreq=False, ackres=False, nackres=False, waiting=False, src=0, dst=0, ext=None,
               secure=True, queuefull=False, optionerror=False, more=False, reserved=0):
    """Raw Z/IP packet"""
    flags0 = (ackreq << 7 | ackres << 6 | nackres << 5 | waiting << 4 | queuefull << 3 | optionerror << 2
              | (reserved & 3))
    flags1 = ((ext is not None) << 7 | (cmd is not None) << 6 | more << 5 | secure << 4 | ((reserved >> 2) & 15))
    data = bytes([0x23, 0x02, flags0, flags1, seq & 0xFF, src, dst])
    if ext is not None:
        data += ext
    return data + (cmd or b"")


def ack(seq, src=0, dst=0):
    """Positive acknowledgement"""
    return zip_packet(None, seq, ackres=True, src=src, dst=dst)


def waiting(seq, delay=None, critical=True):
    """Nack waiting, with the expected delay if it is given"""
    ext = None
    if delay is not None:
        ext = header_ext([option(1, int(delay).to_bytes(3, "big", signed=True), critical)])
    return zip_packet(None, seq, nackres=True, waiting=True, ext=ext)


def option(kind, data, critical=False):
    """One header extension option"""
    return bytes([critical << 7 | kind, len(data)]) + data


def header_ext(options):
    """Header extension with its length byte"""
    body = b"".join(options)
    return bytes([len(body) + 1]) + body


class Pkt:
    """A parsed outgoing datagram"""

    def __init__(self, time, transport, data, addr):
        self.time, self.transport, self.data, self.addr = time, transport, data, addr
        self.kind, self.cmd, self.seq, self.src, self.dst = "other", None, None, None, None
        self.ackreq = self.ackres = self.nackres = False
        self.ext = None
        if data[:2] == b"\x23\x03" and len(data) == 3:
            self.kind = "keepalive"
        elif data[:2] == b"\x58\x04" and len(data) == 4:
            self.kind = "inv"
            self.node = data[3]
        elif data[:2] == b"\x23\x02" and len(data) >= 7:
            self.kind = "zip"
            self.flags0, self.flags1 = data[2], data[3]
            self.ackreq, self.ackres = bool(data[2] & 0x80), bool(data[2] & 0x40)
            self.nackres, self.waiting = bool(data[2] & 0x20), bool(data[2] & 0x10)
            self.seq, self.src, self.dst = data[4], data[5], data[6]
            rest = data[7:]
            if data[3] & 0x80:
                self.ext, rest = rest[: rest[0]], rest[rest[0]:]
            if data[3] & 0x40:
                self.cmd = rest

    @property
    def remote(self):
        """Where it was sent: the address"""
        if self.addr is not None:
            return self.addr[0]
        return self.transport.remote[0] if self.transport.remote else None

    def __repr__(self):
        return "<{} t={:g} to={} seq={} ep={}>{} cmd={}>".format(
            self.kind, self.time, self.remote, self.seq, self.src, self.dst, self.cmd.hex() if self.cmd else self.cmd)


class Net:
    """Everything outside the program: answers what is sent and records it"""

    def __init__(self, loop, nodes=(), controller=1, home=0xC0FFEE01):
        self.loop = loop
        self.nodes = set(nodes)
        self.controller = controller
        self.home = home
        self.sent = []
        self.mode = 1
        self.info = {}      # node -> raw bytes after status/age (see nodeinfo())
        self.endpoints = {}  # node -> number of end points
        self.capabilities = {}  # (node, ep) -> (generic, specific, classes)
        self.failed = set()
        self.hook = None    # hook(pkt) -> True if handled
        self.autoack = True
        self.script = {}    # node -> fn(cmd bytes) -> list of command bytes sent back
        self.outstanding = {}
        self.extseq = 0
        loop.on_sent = self._on_sent

    # -- incoming to the program
    def deliver(self, transport, data, delay=0, lag=0, addr=None):
        """Datagram arriving on a socket"""
        self.loop.env(delay, lag, lambda: transport.deliver(data, addr))

    def transports_to(self, addr):
        """Connected sockets to an address"""
        return [t for t in self.loop.transports if t.remote and t.remote[0] == addr]

    @property
    def gw(self):
        """The gateway socket"""
        return self.transports_to(GW)[0]

    def node(self, node):
        """The socket of a node"""
        return self.transports_to(node_ip(node))[0]

    @property
    def listener(self):
        """The unsolicited socket"""
        return [t for t in self.loop.transports if not t.remote][0]

    # -- outgoing from the program
    def _on_sent(self, transport, data, addr):
        pkt = Pkt(self.loop.time(), transport, data, addr)
        self.sent.append(pkt)
        if self.hook and self.hook(pkt):
            return
        self.default(pkt)

    def default(self, pkt, delay=0, lag=0):
        """A healthy gateway"""
        if pkt.kind == "inv":
            if pkt.node in self.nodes or pkt.node == self.controller:
                self.deliver(pkt.transport, self.advert(pkt.node), delay, lag)
            return
        if pkt.kind != "zip" or not pkt.ackreq:
            return
        if self.autoack:
            self.deliver(pkt.transport, ack(pkt.seq, pkt.dst, pkt.src), delay, lag)
        if pkt.cmd is None:
            return
        for reply in self.answers(pkt):
            self.extseq = (self.extseq + 1) & 0xFF
            self.deliver(pkt.transport, zip_packet(reply, self.extseq, src=pkt.dst, dst=pkt.src), delay, lag)

    def answers(self, pkt):
        """The commands a healthy gateway or node answers with"""
        cmd = pkt.cmd
        if pkt.remote != GW:
            for node in self.nodes:
                if node_ip(node) == pkt.remote and node in self.script:
                    return self.script[node](cmd, pkt)
            return []
        return self.gw_answers(cmd)

    def gw_answers(self, cmd):
        """Network management"""
        head = cmd[:2]
        if head == b"\x5f\x02":
            return [bytes([0x5F, 0x03, self.mode])]
        if head == b"\x5f\x01":
            self.mode = cmd[2]
        if head == b"\x52\x01":
            return [self.nodelist(cmd[2])]
        if head == b"\x52\x03":
            return [self.nodeinfo(cmd[4], cmd[2])]
        if head == b"\x52\x05":
            return [bytes([0x52, 0x06, cmd[2], cmd[3], 0, self.endpoints.get(cmd[3], 0), 0])]
        if head == b"\x52\x07":
            generic, specific, classes = self.capabilities.get((cmd[3], cmd[4]), (0x10, 0x01, b""))
            return [bytes([0x52, 0x08, cmd[2], cmd[3], len(classes), cmd[4], generic, specific]) + bytes(classes)]
        if head == b"\x52\x0b":
            return [bytes([0x52, 0x0C, cmd[2]]) + mask(self.failed)]
        if head == b"\x34\x07":
            return [bytes([0x34, 0x08, cmd[2], 0x01 if cmd[3] in self.failed else 0x00, cmd[3]])]
        return []

    def nodelist(self, seq, nodes=None, controller=None):
        """NODE_LIST_REPORT"""
        return bytes([0x52, 0x02, seq, 0, self.controller if controller is None else controller]) + mask(
            self.nodes | {self.controller} if nodes is None else nodes)

    def nodeinfo(self, node, seq):
        """NODE_INFO_CACHED_REPORT"""
        listening, basic, generic, specific, classes = self.info.get(node, (True, 4, 0x10, 0x01, b""))
        return bytes([0x52, 0x04, seq, 0x00, listening << 7, 0x00, 0x00, basic, generic, specific]) + bytes(classes)

    def advert(self, node, validity=0, ip=None):
        """ZIP_NODE_ADVERTISEMENT"""
        return bytes([0x58, 0x01, validity, node]) + packed(ip or node_ip(node)) + self.home.to_bytes(4, "big")

    def unsolicited(self, node, cmd, seq=0, delay=0, lag=0, ackreq=False, src=0, dst=0, ext=None, port=PORT, ip=None,
                    **kwargs):
        """Unsolicited packet from a node"""
        self.deliver(self.listener, zip_packet(cmd, seq, ackreq=ackreq, src=src, dst=dst, ext=ext, **kwargs), delay, lag,
                     (ip or node_ip(node), port, 0, 0))

    # -- looking back
    def zips(self, cmd=None, remote=None):
        """Packets with commands sent so far, keep-alives and acknowledgements excluded"""
        return [p for p in self.sent if p.kind == "zip" and p.cmd is not None
                and (cmd is None or p.cmd[: len(cmd)] == cmd) and (remote is None or p.remote == remote)]


def mask(nodes):
    """29 bytes node mask"""
    data = bytearray(29)
    for node in nodes:
        data[(node - 1) // 8] |= 1 << ((node - 1) % 8)
    return bytes(data)
