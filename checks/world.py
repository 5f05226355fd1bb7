"""Shared by the checks of the behaviour: the real program on the controlled loop"""
import asyncio

from mc import sim, vloop, wire
from mc.explore import Violation

import pyzwave.commandclass  # pylint: disable=unused-import
from pyzwave.application import Application
from pyzwave.persistantstorage import PersistantStorage
from pyzwave.zipconnection import ZIPConnection
from pyzwave.zipgateway import ZIPGateway

PENDING = "pending"


class Ear:
    """A listener recording every notification it is subscribed to"""

    def __init__(self, *names, answer=None):
        self.calls = []
        for name in names:
            setattr(self, name, self._make(name, answer))

    def _make(self, name, answer):
        def heard(_speaker, *args):
            self.calls.append((name, *args))
            return answer

        return heard

    def take(self):
        """The calls since the last time"""
        calls, self.calls = self.calls, []
        return calls


class Storage(PersistantStorage):
    """Records the storage signals, stores nothing"""

    def __init__(self):
        self.added = []
        self.updated = []

    def nodeAdded(self, application, node):
        self.added.append(node)

    def nodeUpdated(self, node):
        self.updated.append(node)


def cls(name):
    """A message class of the code under test by its name in mc.wire"""
    return wire.MESSAGES[name].load()


def raw(name, **values):
    """Bytes of a message, composed by the model"""
    return wire.encode(name, values)


def describe(msg):
    """What a message object says, in terms of the model: (name, {field: value})"""
    for name, spec in wire.MESSAGES.items():
        if type(msg) is spec.load():
            values = {}
            for field in spec.fields:
                if field.reserved:
                    continue
                got = getattr(msg, field.name)
                if got is None:
                    values[field.name] = None
                elif field.kind in ("lencmd", "cmd"):
                    values[field.name] = describe(got)
                else:
                    values[field.name] = wire.observe(field, got)
            return (name, values)
    return (type(msg).__name__, {"hid": msg.hid() if hasattr(msg, "hid") else None})


_NAMES = {}


def name_of(msg):
    """The name of the class of a message in mc.wire"""
    if not _NAMES:
        _NAMES.update({spec.load(): name for name, spec in wire.MESSAGES.items()})
    return _NAMES.get(type(msg), type(msg).__name__)


def state(task):
    """What became of a task: pending, ('ok', value), ('error', type name) or 'cancelled'"""
    if not task.done():
        return PENDING
    if task.cancelled():
        return "cancelled"
    if task.exception() is not None:
        return ("error", type(task.exception()).__name__)
    return ("ok", task.result())


TIMEOUT = ("error", type(asyncio.TimeoutError()).__name__)


def timed(loop, coro):
    """Run as a task that also remembers when it ended: task.ended"""
    task = asyncio.ensure_future(coro)
    task.ended = None

    def done(_task):
        task.ended = loop.time()

    task.add_done_callback(done)
    return task


async def connection(loop, **kwargs):
    """A single connection to the gateway address: (connection, net)"""
    net = sim.Net(loop, **kwargs)
    conn = ZIPConnection(sim.GW, b"psk")
    await conn.connect()
    return conn, net


async def gateway(loop, nodes=(2, 3), net=None, **kwargs):
    """A connected gateway: (gateway, net)"""
    net = net or sim.Net(loop, nodes=nodes, **kwargs)
    gw = ZIPGateway(sim.GW, b"psk")
    await gw.connect()
    return gw, net


async def application(loop, nodes=(2, 3), info=None, endpoints=None, capabilities=None, storage=None, net=None, **kwargs):
    """A started application: (app, gateway, net)"""
    net = net or sim.Net(loop, nodes=nodes, **kwargs)
    net.info.update({n: (True, 4, 0x10, 0x01, bytes(c)) for n, c in (info or {}).items()})
    net.endpoints.update(endpoints or {})
    net.capabilities.update({k: (0x10, 0x01, bytes(c)) for k, c in (capabilities or {}).items()})
    gw = ZIPGateway(sim.GW, b"psk")
    app = Application(gw, storage or Storage())
    await gw.connect()
    await app.startup()
    return app, gw, net


def run(main, horizon=400000, dressed="named"):
    """Run main(loop) and return its result. A deadlock is a violation. dressed: see mc.dress"""
    try:
        return vloop.run(main, horizon, dressed)[0]
    except vloop.Quiescent as error:
        raise Violation("hang", "nothing can happen any more: {}".format(error)) from None
    except vloop.Livelock as error:
        raise Violation("livelock", str(error)) from None


def check(condition, key, text="", *args):
    """The property"""
    if not condition:
        raise Violation(key, text.format(*args) if args else text)


def errors(loop):
    """What escaped to the event loop so far, and forget it"""
    vloop.collect_garbage()
    found, loop.errors[:] = list(loop.errors), []
    return ["{}: {!r}".format(e.get("message"), e.get("exception")) for e in found]
