"""C24: settings survive a restart unchanged"""
import asyncio
import itertools
import os
import shutil
import tempfile

from mc import sim, wire

from . import world
from .world import check

import pyzwave.commandclass  # pylint: disable=unused-import
from pyzwave.message import Message
from pyzwave.node import Node, NodeEndPoint
from pyzwave.persistantstorage import YamlStorage

LEVEL = "model_checking"
RULE = ("every command class with settings over boundary and awkward values (all characters and pairs of special ones in names), versions and "
        "interview results, a node with all command classes, saved and loaded into a fresh node and saved again; every subset of stored classes against every subset of the "
        "classes of the new node; 442 nodes and end points stored together; a restart with a report arriving after every packet of the startup. Attributes, their types and the "
        "content of the files are compared")

VERSION, PLUS, MANUFACTURER, SENSOR, ASSOCIATION, MCA, AGI, CONFIG, UNKNOWN = 0x86, 0x5E, 0x72, 0x31, 0x85, 0x8E, 0x59, 0x70, 0x99
PLAIN = [0x20, 0x80, 0x87, 0x69, 0x32, 0x25]
FIELDS = {
    VERSION: (("zwaveLibraryType", 1), ("zwaveProtocolVersion", 1), ("zwaveProtocolSubVersion", 1), ("applicationVersion", 1),
              ("applicationSubVersion", 1)),
    PLUS: (("zwavePlusVersion", 1), ("roleType", 1), ("nodeType", 1), ("installerIconType", 2), ("userIconType", 2)),
    MANUFACTURER: (("manufacturerID", 2), ("productTypeID", 2), ("productID", 2)),
}
REQUESTS = {VERSION: (b"\x86\x11", b"\x86\x12"), PLUS: (b"\x5e\x01", b"\x5e\x02"), MANUFACTURER: (b"\x72\x04", b"\x72\x05")}


class Device:
    """The node behind the radio. What it says is in content {class: ...}; lost are the classes it does not answer for"""

    def __init__(self, content, versions=None, lost=()):
        self.content, self.versions, self.lost = content, versions or {}, lost

    def answers(self, cmd):
        """Its reports"""
        if cmd[:2] == b"\x86\x13":
            return [bytes([0x86, 0x14, cmd[2], self.versions.get(cmd[2], 7)])]
        if cmd[0] in self.lost:
            return []
        for cls, (request, report) in REQUESTS.items():
            if cmd == request and cls in self.content:
                return [report + b"".join(v.to_bytes(size, "big") for (_n, size), v in zip(FIELDS[cls], self.content[cls]))]
        if cmd == b"\x31\x01":
            return [wire.encode("SensorMultilevel.SupportedSensorReport", {"bitMask": sorted(self.content[SENSOR])})]
        if cmd[:2] == b"\x31\x03":
            return [bytes([0x31, 0x06, cmd[2], self.content[SENSOR][cmd[2]]])]
        if cmd == b"\x85\x05":
            return [bytes([0x85, 0x06, len(self.content[ASSOCIATION])])]
        if cmd[:2] in (b"\x85\x02", b"\x8e\x02"):
            maximum, members = self.content[ASSOCIATION][cmd[2]]
            pairs = b"".join(bytes(m) for m in members if m[1] is not None)
            return [bytes([cmd[0], 3, cmd[2], maximum, 0]) + bytes(n for n, e in members if e is None) + (b"\x00" + pairs if pairs else b"")]
        if cmd == b"\x59\x03\x40\x00":
            return [wire.encode("AssociationGrpInfo.GroupInfoReport", {"listMode": 1, "dynamicInfo": 0, "groupCount": len(part),
                                                                     "groups": [(g, 0, c[0], 0, 0) for g, c in part]})
                    for part in [sorted(self.content[AGI].items())]]
        if cmd[:2] == b"\x59\x01":
            return [wire.encode("AssociationGrpInfo.GroupNameReport", {"groupingIdentifier": cmd[2], "name": self.content[AGI][cmd[2]][1]})]
        if cmd[:2] == b"\x59\x05":
            return [wire.encode("AssociationGrpInfo.GroupCommandListReport", {"groupingIdentifier": cmd[3],
                                                                            "commandClass": self.content[AGI][cmd[3]][2]})]
        if cmd[:2] == b"\x70\x05":
            size, value = self.content[CONFIG][cmd[2]]
            return [bytes([0x70, 0x06, cmd[2], size]) + value.to_bytes(size, "big")]
        return []


class Radio:
    """An adapter reaching the device directly"""

    nodeId = 1

    def __init__(self, device):
        self.device, self.node = device, None

    def addListener(self, _listener):
        """Says nothing"""

    async def sendToNode(self, _nodeId, cmd, **_kwargs):
        """Hand it over, and the reports back"""
        for report in self.device.answers(bytes(cmd.compose())):
            await self.node.handleMessage(Message.decode(report), None)
        return True


def fresh(classes, device=None, endpoint=0):
    """A new node"""
    radio = Radio(device or Device({}))
    node = Node(5, radio, list(classes))
    if endpoint:
        node = NodeEndPoint(node, endpoint, radio, list(classes))
    radio.node = node
    return node


def content_of(obj, cls):
    """The settings of a command class, with the types a user gets"""
    if cls in FIELDS:
        return tuple((name, getattr(obj, name)) for name, _size in FIELDS[cls])
    if cls == SENSOR:
        return {t: m for t, m in obj.supportedTypes.items()}
    if cls == ASSOCIATION:
        return {i: (g.maxNodes, list(g.nodes)) for i, g in obj.groupings.items()}
    if cls == AGI:
        return {i: (g.profile, g.name, [list(c) for c in g.commands]) for i, g in obj.groupings.items()}
    if cls == CONFIG:
        return {i: (p.size, p.value) for i, p in obj.parameters.items()}
    return None


def snapshot(node):
    """Everything that is to survive"""
    return {cls: (int(obj.version), obj.interviewed, content_of(obj, cls)) for cls, obj in node.supported.items()}


def same(got, want, where):
    """Compare snapshots"""
    check(set(got) == set(want), "classes", "{}: {} instead of {}", where, got, want)
    for cls, (version, interviewed, content) in want.items():
        check(got[cls][0] == version, "version", "{}: version of {:#x} {} instead of {}", where, cls, got[cls][0], version)
        check(got[cls][1] is interviewed, "interviewed", "{}: {:#x} interviewed {} instead of {}", where, cls, got[cls][1], interviewed)
        check(got[cls][2] == content, "content", "{}: {:#x} has {} instead of {}", where, cls, got[cls][2], content)


class Folder:
    """A scratch folder for the storage"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c24-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        return self

    def __exit__(self, *_args):
        shutil.rmtree(self.path, ignore_errors=True)

    def files(self):
        """{name: content}"""
        found = {}
        for base, _dirs, names in os.walk(self.path):
            for filename in names:
                with open(os.path.join(base, filename), "rb") as fd:
                    found[os.path.relpath(os.path.join(base, filename), self.path)] = fd.read()
        return found


async def fill(node, config=()):
    """Interview it and read the parameters"""
    await node.interview()
    for number in config:
        await node.supported[CONFIG].get(number, cached=False)


def round_trip(node, folder, where, endpoint=0):
    """Save, load into a fresh node, save again"""
    want = snapshot(node)
    storage = YamlStorage(folder.path)
    storage.nodeUpdated(node)
    saved = folder.files()
    check(len(saved) == 1, "files", "{}: {}", where, list(saved))
    again = fresh(node.supported, endpoint=endpoint)
    restarted = YamlStorage(folder.path)
    restarted.nodeAdded(None, again)
    same(snapshot(again), want, where)
    check(folder.files() == saved, "loading writes", where)
    restarted.nodeUpdated(again)
    check(folder.files() == saved, "second save", "{}: {} instead of {}", where, folder.files(), saved)
    return again


def number_cases():
    """Contents of the classes with numbers"""
    for cls, fields in FIELDS.items():
        for position, (_name, size) in enumerate(fields):
            for value in (0, 1, 9, 10, 0x7F, 0x80, 0xFF) + ((0x100, 0x7FFF, 0x8000, 0xFFFF) if size == 2 else ()):
                yield cls, tuple(value if i == position else (i * 77) & 255 for i in range(len(fields)))
                yield cls, tuple(min(value, 255) if i == position else 0 for i in range(len(fields)))
    for mask in range(16):
        yield SENSOR, {1: mask}
        yield SENSOR, {7: mask, 0x40: 15 - mask, 255: 1, 18: 4}
    yield SENSOR, {}
    yield SENSOR, {t: t & 15 for t in range(1, 256)}
    for members in ([], [(1, None)], [(232, None), (1, None)], [(1, 0)], [(1, 1), (2, 127)], [(3, None), (1, 0), (1, 5)], [(7, None)] * 2,
                    [(1, 255)], [(1, 10), (1, 1)]):
        for maximum in (0, 1, 5, 255):
            yield ASSOCIATION, {1: (maximum, members)}
            yield ASSOCIATION, {1: (5, []), 2: (maximum, members), 3: (1, [(9, None)])}
    yield ASSOCIATION, {}
    yield ASSOCIATION, {i: (i, [(i % 232 + 1, i % 128)]) for i in range(1, 256)}
    for size, value in [(s, v) for s in (1, 2, 4) for v in (0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)
                        if v < 1 << 8 * s]:
        yield CONFIG, {1: (size, value)}
        yield CONFIG, {255: (size, value), 0: (1, 1), 8: (4, 77)}
    yield CONFIG, {}
    yield CONFIG, {i: ((1, 2, 4)[i % 3], i) for i in range(256)}
    for profile in (0, 1, 0x0100, 0x7FFF, 0xFFFF):
        yield AGI, {1: (profile, "Lifeline", [[0x20, 1]]), 255: (0, "", [])}
    yield AGI, {}
    yield AGI, {i: (i * 257, "group {}".format(i), [[c, i] for c in range(i % 8)]) for i in range(1, 64)}
    yield AGI, {1: (1, "x", [[c, 255 - c] for c in range(127)])}


def numbers(ch, part, parts):
    """Classes with numbers"""

    async def main(_loop):
        for number, (cls, content) in enumerate(number_cases()):
            if number % parts != part:
                continue
            classes = [cls, MCA, UNKNOWN] if number % 2 or cls != ASSOCIATION else [cls, MCA]
            with Folder() as folder:
                node = fresh(classes, Device({cls: content}), number % 3)
                await fill(node, content if cls == CONFIG else ())
                check(node.supported[cls].interviewed, "harness", "{} {}", cls, content)
                want = content_of(node.supported[cls], cls)
                if cls not in FIELDS:
                    # The device really was recorded, as plain numbers
                    check(len(want) == len(content), "recorded", "{:#x}: {} instead of {}", cls, want, content)
                round_trip(node, folder, "{:#x} {}".format(cls, content), number % 3)
            ch.case()

    world.run(main, horizon=10 ** 8)
    return part


SPECIAL = ["", " ", ":", "- ", "#", "'", '"', "\n", "\r", "\t", "{", "[", "&", "*", "!", "%", "@", "`", "|", ">", "?", ",", "~", "=", "<<",
           "\\", "/", ".", "0", "1", "e", "-", "+", "_", "null", "true", "yes", "...", "---", "\x85", "\u2028", "\ufeff", "\U0001F600", "x"]


def names_of(part):
    """Awkward names"""
    if part < 4:
        return [chr(c) for c in range(part * 0x100, part * 0x100 + 0x100)]
    if part == 4:
        return ["null", "Null", "~", "true", "false", "yes", "no", "on", "off", "y", "n", "1:2", "0x10", "0o7", "017", "1e3", "1_000", ".inf",
                ".nan", "-.inf", "2001-01-01", "2001-01-01 10:00:00", "=", "<<", "!!str x", "&a", "*a", "{a: b}", "[1]", "a: b", "a #b", "#", "- a",
                "? a", "| a", "> a", "%YAML", "---", "...", "a\nb", "a\n\nb", "\n", "a\n", " a", "a ", "\ta", "a" * 200, "a b " * 50, "'", "''", '"',
                "\\n", "\\", "a\\", "\r\n", "\x00", "\x7f", "\x80", "\xa0", "\ufffd", "\ufffe", "\uffff", "\ud7ff", "\ue000", "\U0010ffff",
                "True", "FALSE", "12", "1.5", "-1", "+1", "0", "00", "1:2:3"]
    return ["".join(p) for p in itertools.product(SPECIAL, repeat=2)][part - 5::8]


def names(ch, part):
    """Awkward names"""

    async def main(_loop):
        todo = names_of(part)
        while todo:
            batch, todo = todo[:20], todo[20:]
            batch = [n for n in batch if len(n.encode()) < 256]
            content = {i + 1: (i, text, [[0x20, 1]]) for i, text in enumerate(batch)}
            with Folder() as folder:
                node = fresh([AGI], Device({AGI: content}))
                await fill(node)
                want = content_of(node.supported[AGI], AGI)
                check([want[i + 1][1] for i in range(len(batch))] == batch, "recorded", "{} instead of {}", want, batch)
                round_trip(node, folder, repr(batch))
            ch.case(len(batch))

    world.run(main, horizon=10 ** 8)
    return part


def flags(ch):
    """Versions and interview results"""

    async def main(_loop):
        everything = {VERSION: (1, 2, 3, 4, 5), PLUS: (1, 2, 3, 4, 5), MANUFACTURER: (1, 2, 3), SENSOR: {1: 3}, ASSOCIATION: {1: (5, [(2, None)])},
                      AGI: {1: (1, "a", [])}, CONFIG: {1: (1, 5)}}
        classes = list(everything) + PLAIN + [UNKNOWN, 0x98]
        for version in list(range(12)) + [127, 128, 255]:
            for lost in [()] + [(c,) for c in classes] + [tuple(classes)]:
                with Folder() as folder:
                    device = Device(everything, {c: version + i if version else 0 for i, c in enumerate(classes) if version + i < 256}, lost)
                    node = fresh(classes, device)
                    for cls, obj in node.supported.items():
                        # Reports that are lost take their time, which is not what this is about
                        if cls in lost and version:
                            await obj.requestVersion()
                        else:
                            await obj.interview()
                    round_trip(node, folder, "versions {} lost {}".format(version, lost))
                ch.case()

    world.run(main, horizon=10 ** 8)
    return True


def crowd(ch, order):
    """A node with all command classes there are"""
    everything = {VERSION: (1, 2, 3, 4, 5), PLUS: (1, 2, 3, 4, 5), MANUFACTURER: (1, 2, 3), SENSOR: {i: i & 15 for i in range(1, 256)},
                  ASSOCIATION: {i: (232, [(m, m & 127 if m & 1 else None) for m in range(1, 233)]) for i in range(1, 3)},
                  AGI: {i: (i, "group {}".format(i), [[c, i] for c in range(100)]) for i in range(1, 32)},
                  CONFIG: {i: (4, i << 24) for i in range(256)}}
    classes = list(range(0x20, 0xEF))
    classes = {"up": classes, "down": classes[::-1], "mixed": classes[::2] + classes[1::2][::-1]}[order]

    async def main(_loop):
        with Folder() as folder:
            node = fresh(classes, Device(everything, {c: c & 15 for c in classes if c & 15}))
            for cls, obj in node.supported.items():
                if cls in everything:
                    await obj.interview()
                else:
                    await obj.requestVersion()
            for number in range(256):
                await node.supported[CONFIG].get(number, cached=False)
            round_trip(node, folder, "all classes {}".format(order))
            ch.case(len(classes))

    world.run(main, horizon=10 ** 8)
    return order


SUBSET = [PLUS, MANUFACTURER, ASSOCIATION, AGI, CONFIG, 0x20]
OLD = {PLUS: (1, 2, 3, 4, 5), MANUFACTURER: (1, 2, 3), ASSOCIATION: {1: (5, [(2, None)]), 2: (1, [(1, 0)])}, AGI: {1: (1, "a", [[2, 3]])},
       CONFIG: {1: (1, 5)}}
NEW = {PLUS: (9, 9, 9, 9, 9), MANUFACTURER: (8, 8, 8), ASSOCIATION: {1: (7, [])}, AGI: {3: (5, "b", [])}, CONFIG: {9: (2, 5)}}


def subsets(ch, stored, prior):
    """Stored classes against those of the new node"""
    classes = [c for i, c in enumerate(SUBSET) if stored >> i & 1]

    async def main(_loop):
        for now in range(1 << len(SUBSET)):
            mine = [c for i, c in enumerate(SUBSET) if now >> i & 1]
            with Folder() as folder:
                old = fresh(classes, Device(OLD, {c: 3 for c in SUBSET}))
                await fill(old, [1] if CONFIG in classes else [])
                storage = YamlStorage(folder.path)
                if stored or now % 2:
                    storage.nodeUpdated(old)
                saved = folder.files()
                node = fresh(mine, Device(NEW, {c: 6 for c in SUBSET}))
                if prior:
                    # What is not stored is left as it is
                    for cls in mine:
                        if cls not in classes:
                            await node.supported[cls].interview()
                want = snapshot(node)
                want.update({c: s for c, s in snapshot(old).items() if c in mine})
                YamlStorage(folder.path).nodeAdded(None, node)
                where = "stored {} now {}".format(classes, mine)
                same(snapshot(node), want, where)
                check(folder.files() == saved, "loading writes", where)
                # Another node's settings are its own
                other = Node(6, None, mine)
                before = snapshot(other)
                YamlStorage(folder.path).nodeAdded(None, other)
                same(snapshot(other), before, where + " other node")
                endpoint = fresh(mine, endpoint=1)
                YamlStorage(folder.path).nodeAdded(None, endpoint)
                same(snapshot(endpoint), before, where + " other end point")
                storage.nodeUpdated(node)
                final = fresh(mine)
                YamlStorage(folder.path).nodeAdded(None, final)
                same(snapshot(final), want, where + " after saving")
            ch.case()

    world.run(main, horizon=10 ** 8)
    return stored


INFO = {2: [0x60, CONFIG, AGI, PLUS], 3: [CONFIG, PLUS]}
CAPS = {(2, 1): [CONFIG, AGI]}
SETTINGS = {PLUS: (1, 2, 3, 4, 5), AGI: {1: (1, "a: b", [[2, 3]])}, CONFIG: {1: (1, 5), 2: (4, 0xFFFFFFFF)}}
REPORTS = {"config": bytes([0x70, 6, 9, 1, 77]), "supervised": bytes([0x6C, 1, 5, 5, 0x70, 6, 9, 1, 77]),
           "info": wire.encode("AssociationGrpInfo.GroupInfoReport", {"listMode": 1, "dynamicInfo": 0, "groupCount": 1, "groups": [(9, 0, 9, 0, 0)]})}


async def store(folder):
    """The settings before the restart"""
    states = {}
    for node, endpoint, classes in ((2, 0, INFO[2]), (2, 1, CAPS[2, 1]), (3, 0, INFO[3])):
        radio = Radio(Device(SETTINGS, {c: 2 for c in (PLUS, AGI, CONFIG, 0x60)}))
        obj = Node(node, radio, classes)
        if endpoint:
            obj = NodeEndPoint(obj, endpoint, radio, classes)
        radio.node = obj
        await fill(obj, [1, 2])
        YamlStorage(folder.path).nodeUpdated(obj)
        states[obj.nodeId] = snapshot(obj)
    return states


def loaded(folder, nodeId, classes):
    """What another restart would find"""
    number, endpoint = map(int, nodeId.split(":"))
    node = Node(number, None, classes)
    if endpoint:
        node = NodeEndPoint(node, endpoint, None, classes)
    YamlStorage(folder.path).nodeAdded(None, node)
    return snapshot(node)


def with_report(state, kind):
    """With the report taken into account"""
    state = dict(state)
    if kind in ("config", "supervised"):
        state[CONFIG] = state[CONFIG][:2] + ({**state[CONFIG][2], 9: (1, 77)},)
    elif AGI in state:
        state[AGI] = state[AGI][:2] + ({**state[AGI][2], 9: (9, "", [])},)
    return state


async def restart(loop, ch, folder, kind, late, nodeId):
    """A restart with a report at some point"""
    states = await store(folder)
    classes = {"2:0": INFO[2], "2:1": CAPS[2, 1], "3:0": INFO[3]}
    net = sim.Net(loop, nodes={2, 3} if not late else {2})
    count = [0]
    number, endpoint = map(int, nodeId.split(":"))
    position = ch.choose(24, "after packet", free=True)
    lag = ch.choose(3, "lag", free=True)
    injected = []

    def inject():
        if not injected:
            injected.append(loop.time())
            net.unsolicited(number, REPORTS[kind], src=endpoint, lag=lag)

    def hook(pkt):
        if pkt.kind == "zip" and pkt.ackres or pkt.kind == "keepalive":
            return False
        count[0] += 1
        if count[0] > position and any(not t.remote for t in loop.transports):
            # From here on somebody listens
            inject()
        return False

    net.hook = hook
    storage = YamlStorage(folder.path)
    app, _gw, _net = await world.application(loop, info=INFO, endpoints={2: 1}, capabilities=CAPS, net=net, storage=storage)
    if late:
        # Joins again later
        await loop.settle()
        net.nodes.add(3)
        net.unsolicited(1, net.nodelist(0))
    await asyncio.sleep(5)
    await loop.settle()
    where = "report {} of {} after packet {} lag {}".format(kind, nodeId, position, lag)
    for name, state in states.items():
        got = snapshot(app.nodes[name])
        options = [state] + ([with_report(state, kind)] if name == nodeId and injected else [])
        if got not in options:
            same(got, options[0], where + " at " + name)
        found = loaded(folder, name, classes[name])
        if found not in options:
            same(found, options[0], where + " stored at " + name)
        same(found, got, where + " in use and stored at " + name)
    if not injected:
        inject()
        await asyncio.sleep(5)
    # Whatever is stored from now on is on top of what there was
    net.unsolicited(number, bytes([0x70, 6, 200, 2, 1, 2]), src=endpoint)
    await asyncio.sleep(1)
    found = loaded(folder, nodeId, classes[nodeId])
    want = snapshot(app.nodes[nodeId])
    same(found, want, where + " in the end")
    check({**states[nodeId][CONFIG][2], 200: (2, 0x0102)}.items() <= found[CONFIG][2].items(), "lost settings", "{}: {}", where, found)
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return position if not injected else (position, tuple(injected))


def restarts(ch, kind, late, node):
    """A restart with a report at some point"""
    with Folder() as folder:
        return world.run(lambda loop: restart(loop, ch, folder, kind, late, node))


IDS = [1, 2, 3, 10, 11, 12, 20, 21, 22, 23, 32, 101, 110, 111, 112, 121, 122, 200, 201, 210, 211, 212, 220, 221, 231, 232]
ENDPOINTS = [0, 1, 2, 3, 10, 11, 12, 20, 21, 22, 100, 101, 110, 111, 112, 121, 127]


def nodes(ch, order):
    """Many nodes and end points in one folder, each with its own settings"""

    async def main(_loop):
        with Folder() as folder:
            pairs = [(node, endpoint) for node in IDS for endpoint in ENDPOINTS]
            if order == "reversed":
                pairs.reverse()
            elif order == "twice":
                pairs = pairs + pairs[::-1]

            def make(pair):
                radio = Radio(None)
                node = radio.node = Node(pair[0], radio, [CONFIG])
                if pair[1]:
                    node = radio.node = NodeEndPoint(node, pair[1], radio, [CONFIG])
                return node

            want = {}
            for number, pair in enumerate(pairs):
                node = make(pair)
                value = b"\x70\x06" + bytes([pair[0], 4, pair[0], pair[1], number >> 8, number & 255])
                await node.handleMessage(Message.decode(value), None)
                YamlStorage(folder.path).nodeUpdated(node)
                want[pair] = snapshot(node)
            check(len(folder.files()) == len(want), "files", "{} files instead of {}", len(folder.files()), len(want))
            storage = YamlStorage(folder.path)
            for pair, state in want.items():
                node = make(pair)
                storage.nodeAdded(None, node)
                same(snapshot(node), state, "{}:{}".format(*pair))
                ch.case()

    world.run(main, horizon=10 ** 8)
    return order


SCENARIOS = {"crowd": crowd, "nodes": nodes, "numbers": numbers, "names": names, "flags": flags, "subsets": subsets, "restarts": restarts}


def jobs(thorough):
    """By class, part, subset"""
    result = [("crowd", {"order": order}, None) for order in ("up", "down", "mixed")]
    result += [("flags", {}, None)] + [("nodes", {"order": order}, None) for order in ("as it is", "reversed", "twice")]
    result += [("restarts", {"kind": k, "late": late, "node": node}, None) for k in REPORTS for late in (False, True)
               for node in ("2:0", "2:1", "3:0")]
    result += [("numbers", {"part": i, "parts": 16}, None) for i in range(16)]
    result += [("names", {"part": i}, None) for i in range(13)]
    result += [("subsets", {"stored": i, "prior": p}, None) for i in range(1 << len(SUBSET)) for p in ((False, True) if thorough else (bool(i % 2),))]
    return result
