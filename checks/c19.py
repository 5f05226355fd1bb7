"""C19: a node information frame is split into supported, secure and controlled"""
import itertools

from . import world
from .world import check

import pyzwave.commandclass  # pylint: disable=unused-import
from pyzwave.node import Node, NodeEndPoint

LEVEL = "model_checking"
RULE = ("every node information frame up to the given length over an alphabet of known, unknown and extended classes and the two marks, every "
        "frame of one and two bytes, marks at every position of a long frame; as nodes, end points and in reports received by an application. "
        "Supported classes, their security flag and their kind are compared with a model of the frame")

ALPHABET = (0x20, 0x5E, 0x86, 0x99, 0xEF, 0xF1, 0x00, 0xF0)
MARK, SECURE = 0xEF, 0xF1


def split(frame):
    """({supported class: secure}, classes this model says nothing about)"""
    supported, unclear = {}, set()
    controlled, secure, index = False, False, 0
    while index < len(frame):
        byte = frame[index]
        if byte == SECURE and frame[index + 1: index + 2] == (0,):
            controlled, secure = False, True
            index += 2
            continue
        if byte == MARK:
            controlled = True
        elif byte > 0xF0:
            # Extended command class, two bytes: not handled in any documented way
            unclear |= {byte} | set(frame[index + 1: index + 2])
        elif not controlled:
            supported[byte] = secure or supported.get(byte, False)
        index += 1
    return supported, unclear


def verify(node, frame, where=""):
    """Compare a node with its frame"""
    want, unclear = split(frame)
    got = {c: obj.securityS0 for c, obj in node.supported.items()}
    text = "{} {}".format(where, bytes(frame).hex())
    check(MARK not in got or MARK in unclear, "mark is a class", text)
    for cls in set(want) | set(got):
        if cls in unclear:
            continue
        check((cls in want) == (cls in got), "supported", "{}: {:#x} supported {}", text, cls, cls in got)
        check(bool(got[cls]) == want[cls], "secure", "{}: {:#x} secure {}", text, cls, got[cls])
        check(node.supports(cls), "supports()", "{}: {:#x}", text, cls)
        obj = node.supported[cls]
        check(obj.id == cls and obj.node is node, "object", "{}: {:#x} has id {:#x}", text, cls, obj.id)
    for cls in range(256):
        if cls not in want and cls not in unclear:
            check(not node.supports(cls), "supports()", "{}: {:#x}", text, cls)
    if 0x5E not in unclear:
        check(node.isZWavePlus == (0x5E in want), "plus", text)
    return len(got)


def frames(ch, first, depth):
    """All frames starting with these bytes"""
    outcomes = set()
    parent = Node(5, None, [])
    for length in range(depth - len(first) + 1):
        for rest in itertools.product(ALPHABET, repeat=length):
            frame = tuple(first) + rest
            outcomes.add(verify(Node(5, None, list(frame)), frame))
            if len(frame) < depth:
                verify(NodeEndPoint(parent, 1, None, list(frame)), frame, "end point")
            ch.case()
    return sorted(outcomes)


def pairs(ch, start):
    """All frames of two bytes"""
    for first in range(start, start + 16):
        verify(Node(5, None, [first]), (first,))
        for second in range(256):
            verify(Node(5, None, bytes([first, second])), (first, second))
            ch.case()
    return start


async def signalled(_loop, ch):
    """A class that is supported tells its node about changes"""
    for frame in ((0x20,), (0x20, 0xEF, 0x70), (0xF1, 0x00, 0x20), (0xEF, 0xF1, 0x00, 0x20), (0x99,)):
        node = Node(5, None, list(frame))
        ear = world.Ear("nodeUpdated")
        node.addListener(ear)
        for number, cls in enumerate(split(frame)[0]):
            node.supported[cls].speak("commandClassUpdated")
            check(len(ear.calls) == number + 1, "not signalled", "{}: {:#x}", frame, cls)
        ch.case()


def long_frames(ch, part):
    """Marks at all positions"""
    base = list(range(0x20, 0x60))
    for one, two in itertools.product(range(part, len(base) + 1, 8), range(len(base) + 1)):
        for mark in ([0xEF], [0xF1, 0x00]):
            for other in ([0xEF], [0xF1, 0x00]):
                frame = list(base)
                frame[one:one] = mark
                frame[two:two] = other
                verify(Node(5, None, frame), tuple(frame))
                ch.case()
    world.run(lambda loop: signalled(loop, ch))
    return len(base)


async def received(loop, ch, todo, endpoint):
    """Frames received by an application"""
    nodes = list(range(2, 232))
    while todo:
        batch, todo = todo[:len(nodes)], todo[len(nodes):]
        frames_of = dict(zip(nodes, batch))
        if endpoint:
            capabilities, endpoints = {}, {}
            per = 60
            groups = [batch[i:i + per] for i in range(0, len(batch), per)]
            for number, group in enumerate(groups):
                endpoints[number + 2] = len(group)
                capabilities.update({(number + 2, n + 1): f for n, f in enumerate(group)})
            app, _gw, _net = await world.application(loop, set(endpoints), info={n: [0x60] for n in endpoints}, endpoints=endpoints,
                                                     capabilities=capabilities)
            for (node, number), frame in capabilities.items():
                verify(app.nodes["{}:{}".format(node, number)], tuple(frame), "end point")
                ch.case()
        else:
            app, _gw, _net = await world.application(loop, set(frames_of), info=frames_of)
            for node, frame in frames_of.items():
                verify(app.nodes["{}:0".format(node)], tuple(frame), "node")
                ch.case()
    check(not loop.errors, "escaped", "{}", loop.errors[:1])
    return endpoint


def reports(ch, first, depth, endpoint):
    """Frames received by an application"""
    todo = [(first,) + rest for length in range(depth) for rest in itertools.product(ALPHABET, repeat=length)]
    if first == ALPHABET[0]:
        todo.append(())
        todo.append(tuple(c for c in range(256) if c not in (MARK, SECURE)))
    for part in [todo[i:i + 230] for i in range(0, len(todo), 230)]:
        world.run(lambda loop, part=part: received(loop, ch, part, endpoint), horizon=10 ** 8)
    return first


SCENARIOS = {"frames": frames, "pairs": pairs, "long": long_frames, "reports": reports}


def jobs(thorough):
    """By first byte"""
    result = [("frames", {"first": list(f), "depth": 6 if thorough else 5}, None) for f in itertools.product(ALPHABET, repeat=2)]
    result += [("frames", {"first": [], "depth": 1}, None), *(("long", {"part": i}, None) for i in range(8))]
    result += [("pairs", {"start": i}, None) for i in range(0, 256, 16)]
    result += [("reports", {"first": f, "depth": 4 if thorough else 3, "endpoint": e}, None) for f in ALPHABET for e in (False, True)]
    return result
