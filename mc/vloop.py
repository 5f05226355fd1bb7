"""A fully controlled asyncio event loop: virtual time, fake UDP, scripted environment.

Everything the code under test can observe as nondeterministic is decided here:

* the clock is virtual (``loop.time()`` only moves when the loop is idle);
* UDP endpoints are :class:`FakeTransport` objects (``create_datagram_endpoint`` is ours, so the real
  ``pyzwave.connection.Connection`` runs unmodified on top of it);
* the arrival of a datagram (or any other environment event) is scheduled with ``env(delay, lag, fn)``:
  ``delay`` in virtual seconds, then ``lag`` further iterations of the event loop *while the loop is busy*.
  As in a selector loop, events that are due enter the ready queue behind the callbacks that are already
  there and in front of the timers of the same iteration.

The ready queue itself is the one of ``asyncio.BaseEventLoop`` (FIFO), so every explored schedule is one that
asyncio can produce.
"""
import asyncio
import gc
import heapq
import itertools

from . import dress


class Quiescent(Exception):
    """Nothing can ever happen again (no ready callback, timer or environment event): a deadlock
    if the driver is still waiting."""


class Livelock(Exception):
    """The horizon (number of loop iterations) was exceeded."""


class FakeTransport(asyncio.DatagramTransport):
    """Datagram transport recording everything sent and able to deliver datagrams."""

    def __init__(self, loop, protocol, local, remote, ident):
        super().__init__()
        self.loop = loop
        self.protocol = protocol
        self.local = local
        self.remote = remote
        self.ident = ident
        self.closed = self.lost = False
        self.sent = []

    def __repr__(self):
        return "<udp#{} local={} remote={}>".format(self.ident, self.local, self.remote)

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        return {"peername": self.remote, "sockname": self.local}.get(name, default)

    def sendto(self, data, addr=None):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be bytes-like, not {!r}".format(type(data)))
        if self.closed:
            if self.lost:
                # The selector transport has no socket any more
                self.loop.call_exception_handler({"message": "Fatal write error on datagram transport", "transport": self})
            return
        data = bytes(data)
        self.sent.append((self.loop.time(), data, addr))
        self.loop.sent_log.append((self.loop.time(), self, data, addr))
        if self.loop.on_sent:
            self.loop.on_sent(self, data, addr)

    def deliver(self, data, addr=None):
        """Hand a datagram to the protocol, as the selector transport does."""
        if self.closed:
            return
        data = bytes(data)
        if self.loop.dressed:
            data = dress.dress(data, self.loop.delivered, self.loop.dressed)
        self.loop.delivered += 1
        self.protocol.datagram_received(data, addr if addr is not None else self.remote)

    def error(self, exc):
        """The network could not deliver something sent earlier, as the selector transport tells it"""
        if self.closed:
            return
        self.protocol.error_received(exc)

    def close(self):
        if self.closed:
            return
        self.closed = True

        def lost():
            self.lost = True
            self.protocol.connection_lost(None)

        self.loop.call_soon(lost)

    abort = close


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        return self.loop._vselect(timeout)

    def close(self):
        pass


class VLoop(asyncio.BaseEventLoop):
    """The controlled loop"""

    def __init__(self, horizon=200000):
        super().__init__()
        self._vtime = 0.0
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self._env = []
        self._lagged = []
        self._settlers = []
        self._envseq = itertools.count()
        self._iterations = 0
        self._horizon = horizon
        self.transports = []
        self.sent_log = []
        self.on_sent = None
        self.on_endpoint = None
        self.errors = []
        self.events = 0
        self.dressed = "named"
        self.delivered = 0
        self.set_exception_handler(self._collect)

    # -- asyncio plumbing
    def time(self):
        return self._vtime

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        for fn in event_list:
            self.call_soon(fn)

    def _collect(self, _loop, context):
        self.errors.append(context)

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **_kw):
        protocol = protocol_factory()
        transport = FakeTransport(self, protocol, local_addr, remote_addr, len(self.transports))
        self.transports.append(transport)
        waiter = self.create_future()
        self.call_soon(protocol.connection_made, transport)
        self.call_soon(lambda: waiter.done() or waiter.set_result(None))
        await waiter
        if self.on_endpoint:
            self.on_endpoint(transport)
        return transport, protocol

    # -- environment
    def env(self, delay, lag, fn):
        """Schedule the environment event fn"""
        if delay <= 0:
            self._lagged.append([lag, next(self._envseq), fn])
        else:
            heapq.heappush(self._env, (self._vtime + delay, next(self._envseq), lag, fn))

    def env_at(self, when, lag, fn):
        """Schedule the environment event fn at an absolute virtual time"""
        heapq.heappush(self._env, (when, next(self._envseq), lag, fn))

    async def settle(self):
        """Wait until the loop is idle at the current virtual time (time is not advanced)"""
        fut = self.create_future()
        self._settlers.append(fut)
        await fut

    async def suspend(self, seconds):
        """The computer sleeps: the time goes on, what became due happens afterwards. For long times in which nothing else matters"""
        self._vtime += seconds
        # Never finer than what a float of that size can tell
        self._clock_resolution = max(1e-9, self._vtime * 1e-15)
        await self.settle()

    def _due(self):
        """Move time-due events to the lagged list"""
        while self._env and self._env[0][0] <= self._vtime:
            _when, seq, lag, fn = heapq.heappop(self._env)
            self._lagged.append([lag, seq, fn])

    def _pop_lagged(self):
        fire = [e for e in self._lagged if e[0] <= 0]
        if fire:
            self._lagged = [e for e in self._lagged if e[0] > 0]
            fire.sort(key=lambda e: e[1])
            self.events += len(fire)
        return [e[2] for e in fire]

    def _vselect(self, timeout):
        self._iterations += 1
        if self._iterations > self._horizon:
            raise Livelock("more than {} loop iterations".format(self._horizon))
        self._due()
        if timeout == 0:
            # The loop is busy: events whose lag has run out arrive now
            events = self._pop_lagged()
            for entry in self._lagged:
                entry[0] -= 1
            return events
        # Idle
        if self._lagged:
            lowest = min(e[0] for e in self._lagged)
            for entry in self._lagged:
                entry[0] -= lowest
            events = self._pop_lagged()
            for entry in self._lagged:
                entry[0] -= 1
            return events
        if self._settlers:
            fut = self._settlers.pop(0)
            if not fut.done():
                fut.set_result(None)
            return []
        when = min(
            self._scheduled[0]._when if self._scheduled else float("inf"),
            self._env[0][0] if self._env else float("inf"),
        )
        if when == float("inf"):
            raise Quiescent("deadlock at t={}".format(self._vtime))
        if when > self._vtime:
            self._vtime = when
            if when > 1e6:
                self._clock_resolution = when * 1e-15
        self._due()
        events = self._pop_lagged()
        for entry in self._lagged:
            entry[0] -= 1
        return events


def run(main, horizon=200000, dressed="named"):
    """Run main(loop) on a fresh controlled loop. Returns (result, loop). Leftover tasks are cancelled."""
    loop = VLoop(horizon)
    loop.dressed = dressed
    asyncio.set_event_loop(loop)
    try:
        result = loop.run_until_complete(main(loop))
        return result, loop
    finally:
        loop.on_sent = None
        _teardown(loop)
        asyncio.set_event_loop(None)
        loop.close()


def _teardown(loop):
    errors = list(loop.errors)
    loop._settlers = []
    for _ in range(5):
        tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if not tasks:
            break
        for task in tasks:
            task.cancel()
        loop._lagged, loop._env = [], []
        try:
            loop.run_until_complete(asyncio.wait(tasks, timeout=1))
        except BaseException:  # pylint: disable=broad-except
            pass
    loop.errors = errors


def collect_garbage():
    """Make 'Task exception was never retrieved' reports deterministic"""
    gc.collect()
