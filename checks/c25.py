"""C25: a crash while saving never loses the previously saved settings"""
import errno
import functools
import itertools
import os
import pickle
import shutil
import tempfile

import yaml

from mc import crashfs

from .c24 import snapshot
from .world import check

import pyzwave.commandclass  # pylint: disable=unused-import
from pyzwave.node import Node, NodeEndPoint
from pyzwave.persistantstorage import YamlStorage

LEVEL = "fault_enumeration"
RULE = ("histories of up to three saves of two nodes with growing and shrinking settings, with and without earlier settings. The process "
        "stops before and after every file operation and after every byte written (for files of 10 kB in steps); the machine stops with any number of the changes to names "
        "done and any part of the content not forced to the disk lost or zero; every file operation fails (before, or after part of a write), "
        "by an error or an interrupt, and so does the collection of the settings. Then a new storage loads every node. Distinct are the "
        "contents of the folder")

CLASSES = [0x70, 0x85, 0x5E]
IDS = ["5:0", "5:1", "51:0", "1:5"]


def node_of(nodeId):
    """A fresh node"""
    number, endpoint = map(int, nodeId.split(":"))
    node = Node(number, None, CLASSES)
    return NodeEndPoint(node, endpoint, None, CLASSES) if endpoint else node


def filled(nodeId, version):
    """A node with settings: version 0 is the first. They grow and shrink"""
    node = node_of(nodeId)
    count = {0: 3, 1: 1, 2: 5, 3: 400}[version]
    node.supported[0x70].__setstate__({
        "version": version + 1, "interviewed": True, "parameters": {str(i): {"value": str(i + 1000 * version), "size": "2"} for i in range(count)}})
    node.supported[0x85].__setstate__({
        "version": "2", "interviewed": str(bool(version % 2)), "groupings": {"1": {"maxNodes": "5", "nodes": [str(version + 1)]}}})
    return node


LOAD = yaml.load


@functools.lru_cache(maxsize=2000)
def parsed(text, loader):
    """The same text always means the same"""
    return pickle.dumps(LOAD(text, loader))


def fast(stream, Loader):  # pylint: disable=invalid-name
    """yaml.load, not parsing the same text again and again"""
    return pickle.loads(parsed(stream.read() if hasattr(stream, "read") else stream, Loader))


yaml.load = fast


def load(folder):
    """What the next start finds: {node id: settings}"""
    storage = YamlStorage(folder)
    found = {}
    for nodeId in IDS:
        node = node_of(nodeId)
        storage.nodeAdded(None, node)
        found[nodeId] = snapshot(node)
    return found


WANT = {}


def want(nodeId, version):
    """The settings that are to be found. None is none"""
    if (nodeId, version) not in WANT:
        WANT[nodeId, version] = snapshot(node_of(nodeId) if version is None else filled(nodeId, version))
    return WANT[nodeId, version]


# The settings before, and what is saved (node, version)
HISTORIES = [
    ({}, [("5:0", 0)]),
    ({"5:0": 0}, [("5:0", 1)]),
    ({"5:0": 0}, [("5:0", 2)]),
    ({"5:0": 2}, [("5:0", 0), ("5:0", 1)]),
    ({"5:0": 0, "5:1": 2}, [("5:1", 1), ("5:0", 2)]),
    ({"5:1": 0}, [("5:0", 1), ("5:0", 2), ("5:1", 2)]),
    ({"51:0": 0}, [("5:0", 0), ("5:0", 1), ("5:0", 0)]),
    ({}, [("5:0", 2), ("5:1", 1), ("5:0", 1)]),
    ({"5:0": 0}, [("5:0", 0), ("5:0", 2)]),
]
BIG = [
    ({"5:0": 3}, [("5:0", 0)]),
    ({"5:0": 0}, [("5:0", 3)]),
    ({}, [("5:0", 3), ("5:0", 3)]),
]


class Scratch:
    """A scratch folder"""

    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix="c25-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None))
        return self.path

    def __exit__(self, *_args):
        shutil.rmtree(self.path, ignore_errors=True)


def prepare(folder, before):
    """What was saved earlier"""
    for nodeId, version in before.items():
        YamlStorage(folder).nodeUpdated(filled(nodeId, version))


RECORDED = {}


def record(number):
    """The operations of a history, and after how many of them each of its saves is done"""
    if number not in RECORDED:
        before, saves = (HISTORIES + BIG)[number]
        with Scratch() as folder:
            prepare(folder, before)
            with crashfs.Recorder(folder) as recorder:
                disk = crashfs.Disk.read(recorder)
                done = []
                storage = YamlStorage(folder)
                for nodeId, version in saves:
                    storage.nodeUpdated(filled(nodeId, version))
                    done.append(len(recorder.ops))
            RECORDED[number] = folder, disk, list(recorder.ops), done, list(recorder.entered)
    return RECORDED[number]


def judge(state, root, allowed, where, again=False):
    """The next start finds what is allowed {node id: versions}"""
    with Scratch() as folder:
        crashfs.write(state, root, folder)
        try:
            found = load(folder)
        except Exception as error:  # pylint: disable=broad-except
            return check(False, "unreadable", "{}: {!r} from {}", where, error, {os.path.basename(n): len(c) for n, c in state.files().items()})
        for nodeId in IDS:
            versions = allowed.get(nodeId, {None})
            matching = [v for v in versions if found[nodeId] == want(nodeId, v)]
            if not matching:
                names = {os.path.basename(n): len(c) for n, c in state.files().items()}
                check(False, "lost", "{}: {} has neither of {} but {} from {}", where, nodeId, versions, found[nodeId], names)
        if again:
            # It can be saved again
            for nodeId, version in (("5:0", 2), ("5:1", 0)):
                YamlStorage(folder).nodeUpdated(filled(nodeId, version))
            found = load(folder)
            for nodeId, version in (("5:0", 2), ("5:1", 0)):
                check(found[nodeId] == want(nodeId, version), "not saved again", "{}: {} has {}", where, nodeId, found[nodeId])
    return None


def summary(state):
    """Tells contents apart, whatever the names of temporary files"""
    return tuple(sorted((len(os.path.basename(n).split(".yml")[-1]) > 0, os.path.basename(n).split(".yml")[0], c) for n, c in state.files().items()))


def versions(number, position, lasting):
    """The versions allowed after position operations. Without lasting all the earlier ones are as well"""
    before, saves = (HISTORIES + BIG)[number]
    done = record(number)[3]
    allowed = {nodeId: {before.get(nodeId)} for nodeId in IDS}
    for (nodeId, version), end in zip(saves, done):
        started = end - position
        begin = ([0] + done)[done.index(end)]
        if position >= end:
            if lasting:
                allowed[nodeId] = {version}
            else:
                allowed[nodeId].add(version)
        elif position >= begin:
            allowed[nodeId].add(version)
        del started
    return allowed


def process(ch, number, step):
    """The process stops"""
    root, disk, ops, _done, _entered = record(number)
    position = ch.choose(len(ops) + 1, "operation", free=True)
    seen = set()
    for part, state in enumerate(crashfs.stopped(disk, ops, position, step)):
        key = summary(state)
        if key in seen:
            continue
        seen.add(key)
        judge(state, root, versions(number, position, True), "process stops at {}+{} {}".format(position, part, ops[position:position + 1])[:200],
              part < 2)
        ch.case()
    return number, position


def machine(ch, number, step):
    """The machine stops"""
    root, disk, ops, _done, _entered = record(number)
    position = ch.choose(len(ops) + 1, "operation", free=True)
    seen = set()
    for part, state in enumerate(crashfs.powerless(disk, ops, position, step)):
        key = summary(state)
        if key in seen:
            continue
        seen.add(key)
        judge(state, root, versions(number, position, False), "machine stops at {}/{}".format(position, part), len(seen) < 3)
        ch.case()
    return number, position


class Interrupted(BaseException):
    """As if by a signal"""


def fault(kind):
    """An error"""
    if kind == "interrupt":
        return lambda text: Interrupted(text)  # pylint: disable=unnecessary-lambda
    return lambda text: OSError(getattr(errno, kind), text)


def attempt(storage, node):
    """Save it. Returns if it said it failed"""
    try:
        storage.nodeUpdated(node)
    except (OSError, Interrupted):
        return True
    return False


def failing(ch, number, kind):
    """One of the operations fails"""
    before, saves = HISTORIES[number]
    entered = record(number)[4]
    position = ch.choose(len(entered), "operation", free=True)
    parts = [0] if entered[position][0] != "write" or entered[position][1] < 2 else [0, 1, entered[position][1] // 2, entered[position][1] - 1]
    part = ch.pick(parts, "part", free=True)
    where = "{} of operation {} {} after {} bytes".format(kind, position, entered[position], part)
    with Scratch() as folder:
        prepare(folder, before)
        state = dict(before)
        with crashfs.Recorder(folder, (position, fault(kind), part)) as recorder:
            storage = YamlStorage(folder)
            for nodeId, version in saves:
                fired = recorder.fired
                failed = attempt(storage, filled(nodeId, version))
                faulty = recorder.fired and not fired
                check(not failed or faulty, "harness", "{}: failed without a reason", where)
                found = load(folder)
                allowed = {i: {state.get(i)} for i in IDS}
                if faulty:
                    # The new settings are in place if the failure came too late to matter
                    allowed[nodeId].add(version)
                else:
                    allowed[nodeId] = {version}
                for i in IDS:
                    matching = [v for v in allowed[i] if found[i] == want(i, v)]
                    check(matching, "lost by failure", "{}: {} has neither of {} but {}", where, i, allowed[i], found[i])
                    if i == nodeId:
                        state[i] = version if version in matching else state.get(i)
        # Afterwards everything works, and what failed can be tried again
        for again, (nodeId, version) in itertools.product((storage, YamlStorage(folder)), saves[::-1]):
            check(not attempt(again, filled(nodeId, version)), "still failing", where)
            found = load(folder)
            check(found[nodeId] == want(nodeId, version), "not saved again", "{}: {} has {}", where, nodeId, found[nodeId])
        ch.case()
    return number, kind, position, part, recorder.fired


class Broken:
    """A command class that cannot be saved"""

    NAME = "BROKEN"

    def __init__(self, error):
        self.error = error

    def __getstate__(self):
        raise self.error


class Settings:
    """A node with chosen command classes"""

    def __init__(self, nodeId, supported):
        self.nodeId, self.supported = nodeId, supported


def collecting(ch, number):
    """The settings cannot be collected"""
    before, saves = HISTORIES[number]
    for position in range(4):
        for error in (ValueError("no"), KeyError("no"), OSError(5, "no"), Interrupted(), RecursionError()):
            with Scratch() as folder:
                prepare(folder, before)
                for nodeId, version in saves:
                    supported = list(filled(nodeId, version).supported.items())
                    supported.insert(position, (0x20, Broken(error)))
                    failed = False
                    try:
                        YamlStorage(folder).nodeUpdated(Settings(nodeId, dict(supported)))
                    except BaseException:  # pylint: disable=broad-except
                        failed = True
                    found = load(folder)
                    for i in IDS:
                        options = [want(i, before.get(i))] + ([] if failed or i != nodeId else [want(i, version)])
                        check(found[i] in options, "lost by failure", "{!r} collecting {}: {} has {}", error, nodeId, i, found[i])
                ch.case()
    return number


SCENARIOS = {"process": process, "machine": machine, "failing": failing, "collecting": collecting}


def jobs(thorough):
    """By history"""
    result = [(kind, {"number": i, "step": 1}, None) for i in range(len(HISTORIES)) for kind in ("process", "machine")]
    result += [("collecting", {"number": i}, None) for i in range(len(HISTORIES))]
    result += [("failing", {"number": i, "kind": kind}, None) for i in range(len(HISTORIES))
               for kind in (("ENOSPC", "interrupt") + (("EIO", "EACCES", "EDQUOT", "EROFS") if thorough else ()))]
    result += [(kind, {"number": i + len(HISTORIES), "step": 7 if thorough else 101}, None) for i in range(len(BIG)) for kind in ("process", "machine")]
    return sorted(result, key=lambda job: job[1]["number"] < len(HISTORIES))
