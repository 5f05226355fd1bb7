"""C18: interviews respect versions, survive lost reports and record the truth"""
import asyncio

from mc import sim

from . import world
from .world import check

LEVEL = "model_checking"
RULE = ("interviews of a node, an end point and of every implemented command class alone, twice, with up to the given number of "
        "acknowledgements or reports lost, late or cut short (at every length), at every position, for low, high and zero versions and "
        "boundary contents of the reports. "
        "The requests on the wire, the versions, the interviewed flags and the stored attributes are compared with a model of each interview")

VERSION, PLUS, MANUFACTURER, SENSOR, ASSOCIATION, GROUPINFO, CONFIG, UNKNOWN = 0x86, 0x5E, 0x72, 0x31, 0x85, 0x59, 0x70, 0x99
BINARY = 0x25
FAULTS = ("none", "ack lost", "report lost", "late", "both lost", "cut")
SHORTER = {b"\x31\x02": 3, b"\x85\x03": 4}  # From this length on it is a complete report

# What the node says, by content number
CONTENT = [
    {VERSION: (3, 4, 5, 6, 7), PLUS: (1, 5, 0, 0x0C07, 0x0102), MANUFACTURER: (0x0086, 0x0102, 0x0064),
     SENSOR: {1: 0x01, 5: 0x03, 0x40: 0x0F}, ASSOCIATION: {1: (5, [2, 7]), 2: (1, []), 3: (232, [1])}},
    {VERSION: (0, 255, 0, 255, 0), PLUS: (255, 0, 255, 0, 65535), MANUFACTURER: (65535, 0, 65535),
     SENSOR: {1: 0x0F, 5: 0x00, 0x40: 0x08}, ASSOCIATION: {1: (0, []), 2: (255, [232, 2, 3]), 3: (1, [7])}},
    {VERSION: (255, 0, 255, 0, 255), PLUS: (0, 255, 0, 65535, 0), MANUFACTURER: (0, 65535, 1),
     SENSOR: {}, ASSOCIATION: {}},
    {VERSION: (1, 2, 3, 4, 5), PLUS: (2, 3, 4, 0x0506, 0x0708), MANUFACTURER: (0x0102, 0x0304, 0x0506),
     SENSOR: {8: 0x05}, ASSOCIATION: {1: (1, [1])}},
]
FIELDS = {
    VERSION: (("zwaveLibraryType", 1), ("zwaveProtocolVersion", 1), ("zwaveProtocolSubVersion", 1), ("applicationVersion", 1),
              ("applicationSubVersion", 1)),
    PLUS: (("zwavePlusVersion", 1), ("roleType", 1), ("nodeType", 1), ("installerIconType", 2), ("userIconType", 2)),
    MANUFACTURER: (("manufacturerID", 2), ("productTypeID", 2), ("productID", 2)),
}
REQUESTS = {VERSION: b"\x86\x11", PLUS: b"\x5e\x01", MANUFACTURER: b"\x72\x04"}
REPORTS = {VERSION: b"\x86\x12", PLUS: b"\x5e\x02", MANUFACTURER: b"\x72\x05"}


class Device:
    """The node behind the radio"""

    def __init__(self, versions, content):
        self.versions, self.content = versions, CONTENT[content]

    def answer(self, cmd):
        """Its report, if any"""
        if cmd[:2] == b"\x86\x13":
            return bytes([0x86, 0x14, cmd[2], self.versions.get(cmd[2], 1)])
        for cls, request in REQUESTS.items():
            if cmd == request:
                return REPORTS[cls] + b"".join(v.to_bytes(size, "big") for (_n, size), v in zip(FIELDS[cls], self.content[cls]))
        if cmd == b"\x31\x01":
            bits = sum(1 << (t - 1) for t in self.content[SENSOR])
            return b"\x31\x02" + bits.to_bytes(max(1, (bits.bit_length() + 7) // 8), "little")
        if cmd[:2] == b"\x31\x03":
            return bytes([0x31, 0x06, cmd[2], self.content[SENSOR].get(cmd[2], 0)])
        if cmd == b"\x85\x05":
            return bytes([0x85, 0x06, len(self.content[ASSOCIATION])])
        if cmd[:2] == b"\x85\x02":
            maximum, members = self.content[ASSOCIATION].get(cmd[2], (0, []))
            return bytes([0x85, 0x03, cmd[2], maximum, 0]) + bytes(members)
        return None


class Model:
    """What is known about a node after its interviews"""

    def __init__(self, supported):
        self.supported = supported
        self.version = {c: 0 for c in supported}
        self.interviewed = {c: False for c in supported}
        self.stored = {c: {} for c in supported}
        self.made = []
        self.cut = {}
        self.partly = {}

    def interview(self, device, faults, cut):
        """Interview it all. faults tells what happened to each request that was made. Returns the requests"""
        requests = []
        self.made = list(faults)
        self.cut = cut  # Number of fields that were left of a report
        self.partly.clear()

        def ask(request):
            requests.append(request)
            return faults.get(request, "none") == "none"

        for cls in self.supported:
            if not self.version[cls]:
                if not ask(bytes([0x86, 0x13, cls])) or not device.versions.get(cls, 1):
                    continue
                self.version[cls] = device.versions.get(cls, 1)
            self.interviewed[cls] = self.command_class(cls, device, ask)
        return requests

    def command_class(self, cls, device, ask):
        """One command class: was it interviewed?"""
        content, stored = device.content, self.stored[cls]
        if cls in FIELDS:
            if not ask(REQUESTS[cls]):
                self.partly[cls] = dict([(name, value) for (name, _s), value in zip(FIELDS[cls], content[cls])][:self.cut.get(REQUESTS[cls], 0)])
                return False
            stored.update({name: value for (name, _s), value in zip(FIELDS[cls], content[cls])})
        elif cls == SENSOR and self.version[cls] >= 5:
            if not ask(b"\x31\x01"):
                return False
            # In any order
            order = [bytes([0x31, 0x03, sensor]) for sensor in content[SENSOR]]
            order.sort(key=lambda request: self.made.index(request) if request in self.made else len(self.made))
            for sensor in [request[2] for request in order]:
                if not ask(bytes([0x31, 0x03, sensor])):
                    return False
                stored[sensor] = content[SENSOR][sensor]
            for sensor in list(stored):
                if sensor not in content[SENSOR]:
                    del stored[sensor]
        elif cls == ASSOCIATION:
            if not ask(b"\x85\x05"):
                return False
            for group in list(stored):
                if group not in content[ASSOCIATION]:
                    del stored[group]
            for group, (maximum, members) in content[ASSOCIATION].items():
                stored.setdefault(group, (0, []))
                if ask(bytes([0x85, 0x02, group])):
                    stored[group] = (maximum, members)
        elif cls == GROUPINFO:
            ask(b"\x59\x03\x40\x00")
        return True


def observed(obj, cls):
    """The stored attributes"""
    if cls in FIELDS:
        return {name: int(getattr(obj, name)) for name, _size in FIELDS[cls]}
    if cls == SENSOR:
        return {int(t): int(m) for t, m in obj.supportedTypes.items()}
    if cls == ASSOCIATION:
        return {int(i): (int(g.maxNodes), [int(n) for n, _e in g.nodes]) for i, g in obj.groupings.items()}
    return {}


async def play(loop, ch, supported, endpoint, versions, contents, alone, kinds):
    """Some interviews"""
    app, gw, net = await world.application(loop, (2,), info={2: supported if not endpoint else [0x60]}, endpoints={2: 1 if endpoint else 0},
                                           capabilities={(2, 1): supported})
    node = app.nodes["2:{}".format(endpoint)]
    await gw.connectToNode(2)
    model = Model(supported)
    asked = []
    cut = {}

    def hook(pkt):
        if pkt.kind != "zip" or pkt.cmd is None or pkt.remote == sim.GW:
            return False
        fault = ch.pick(FAULTS[:kinds], "fault")
        asked.append((bytes(pkt.cmd), fault, pkt.dst))
        if fault not in ("ack lost", "both lost"):
            net.deliver(pkt.transport, sim.ack(pkt.seq, pkt.dst, 0))
        reply = device.answer(pkt.cmd)
        if fault == "cut" and reply:
            length = ch.pick(range(2, min(len(reply), SHORTER.get(reply[:2], 99))), "length", True)
            reply = reply[:length]
            cut[bytes(pkt.cmd)] = sum(1 for i in range(len(FIELDS.get(reply[0], ())))
                                      if 2 + sum(size for _n, size in FIELDS[reply[0]][:i + 1]) <= length)
        if reply and fault in ("none", "ack lost", "late", "cut"):
            net.extseq = (net.extseq + 1) & 0xFF
            net.deliver(pkt.transport, sim.zip_packet(reply, net.extseq, src=pkt.dst), 3.5 if fault == "late" else 0)
        return True

    net.hook = hook
    for number, content in enumerate(contents):
        device = Device(versions, content)
        asked.clear()
        cut.clear()
        if alone:
            task = asyncio.ensure_future(node.supported[supported[0]].interview())
            await asyncio.wait([task], timeout=600)
            check(task.done() and (not task.exception() or cut), "not completed", "{}", task)
        else:
            await asyncio.wait_for(node.interview(), 600)
        await asyncio.sleep(10)
        ch.step(len(asked))
        where = "interview {} of {}: {}".format(number, supported, [(r.hex(), f) for r, f, _e in asked if f != "none"])
        check(all(ep == endpoint for _r, _f, ep in asked), "wrong end point", "{}: {}", where, asked)
        faults = {}
        for request, fault, _ep in asked:
            check(request not in faults, "asked again", "{}: {} twice", where, request.hex())
            faults[request] = fault
        wanted = model.interview(device, faults, cut)
        got = [r for r, _f, _e in asked]
        check(sorted(got) == sorted(wanted), "requests", "{}: asked {} instead of {}", where, [r.hex() for r in got], [r.hex() for r in wanted])
        for cls in supported:
            mine = [r for r in got if r == bytes([0x86, 0x13, cls]) or (r[0] == cls and r[:2] != b"\x86\x13")]
            plan = [r for r in wanted if r in mine]
            check(plan[:1] == mine[:1], "version first", "{}: {}", where, [r.hex() for r in mine])
            obj = node.supported[cls]
            check(int(obj.version) == model.version[cls], "version", "{}: version of {:#x} is {} instead of {}", where, cls, obj.version,
                  model.version[cls])
            check(obj.interviewed is model.interviewed[cls], "interviewed", "{}: {:#x} interviewed {} instead of {}", where, cls,
                  obj.interviewed, model.interviewed[cls])
            known = dict(model.stored[cls])
            if cls in FIELDS and not known:
                known = {name: 0 for name, _s in FIELDS[cls]}
            for name, value in model.partly.get(cls, {}).items():
                if observed(obj, cls)[name] == value:
                    known[name] = value  # What was left of the report may be kept
                    model.stored[cls] = dict(known)
            check(observed(obj, cls) == known, "stored", "{}: {:#x} stores {} instead of {}", where, cls, observed(obj, cls), known)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return tuple(sorted(model.interviewed.items()))


def interviews(ch, supported, endpoint=0, versions=None, contents=(0, 1), alone=False, kinds=6):
    """Interviews"""
    versions = {int(k): v for k, v in (versions or {}).items()}
    return world.run(lambda loop: play(loop, ch, supported, endpoint, versions, contents, alone, kinds), horizon=10 ** 7)


SCENARIOS = {"interviews": interviews}
ALL = [VERSION, PLUS, MANUFACTURER, SENSOR, GROUPINFO, CONFIG, UNKNOWN]
OLD = [ASSOCIATION, SENSOR, BINARY, VERSION]


def jobs(thorough):
    """By node and content"""
    bound = 2 if thorough else 1
    result = []

    def add(supported, bounded, depth=0, **kwargs):
        result.append(("interviews", dict(kwargs, supported=supported), bounded) + ((depth,) if depth else ()))

    for supported in (ALL, OLD):
        for endpoint in (0, 1):
            for contents in ((0, 1), (1, 0), (0, 3), (2, 0)):
                add(supported, bound, 0, endpoint=endpoint, versions={SENSOR: 5}, contents=contents)
        add(supported, bound + 1, 4, versions={SENSOR: 11}, contents=(0,), kinds=6 if thorough else 5)
        add(supported[::-1], bound, 0, versions={SENSOR: 255}, contents=(1, 2))
        for version in (0, 1, 2, 4, 5, 6, 255):
            add(supported, 1, 0, versions={c: version for c in supported}, contents=(0, 0))
            for cls in supported:
                add(supported, 0, 0, versions={cls: version}, contents=(0, 3))
    # Every command class there can be
    every = [c for c in range(0x20, 0xEF) if c not in (0x60, ASSOCIATION, 0x8E)]
    for supported in (every, every[::-1], every[100:] + every[:100]):
        add(supported, 1 if thorough else 0, 0, versions={SENSOR: 5}, endpoint=len(result) & 1)
    for cls in sorted(set(ALL + OLD)):
        for version in (0, 1, 4, 5, 255):
            add([cls], None, 0, versions={cls: version}, contents=(0,))
            add([cls], 3 if thorough else 2 if version in (0, 1, 5) else 1, 0, versions={cls: version}, contents=(1, 0), alone=True)
    return result
