"""The mailbox service between a scripted proxy and a model of its queues"""
import asyncio
import collections

from mc import wire
from mc.explore import Violation

from .world import check

from pyzwave.mailbox import MailboxService
from pyzwave.message import Message
from pyzwave.util import Listenable

PROXY = {0: 7, 1: 7, 2: 7, 3: 9}
PUSH, POP, WAITING, PING, ACK, NACK, FULL = range(7)
BEAT = 60
EPS = 1e-6


class Lost(Exception):
    """Any failure"""


class Item:
    """A queued frame"""

    def __init__(self, data, begun, now):
        self.data = data
        self.begun, self.ended = begun, now
        self.count = 0
        self.busy = False

    def window(self):
        """When the next heartbeat may be sent"""
        return max(self.begun + BEAT, self.ended), self.ended + BEAT


class Queue:
    """Model of one queue"""

    def __init__(self):
        self.items = []
        self.todo = collections.deque()    # [(arrived, kind, data)]
        self.current = None
        self.free = 0                      # when the last operation ended
        self.gone = []                     # [(time, data)] delivered right now


class Adapter(Listenable):
    """The adapter below the service: everything sent is compared with the model at once"""

    def __init__(self, loop, outcome, handles=(1, 2, 3)):
        super().__init__()
        self.loop = loop
        self.outcome = outcome             # outcome(kind) -> (delay, result or exception)
        self.queues = {h: Queue() for h in handles}
        self.woken = None
        self.sent = 0
        self.log = []
        self.problem = None
        self.configured = []
        self.service = MailboxService(self)

    # -- from the proxy
    def hear(self, data, node):
        """A message from a node"""
        self.speak("messageReceived", node, 0, Message.decode(data), None)

    def push(self, handle, data):
        """A frame for a sleeping node"""
        self.queues[handle].todo.append((self.loop.time(), PUSH, data))
        self.hear(wire.encode("Mailbox.Queue", {"last": 0, "operation": PUSH, "queueHandle": handle, "mailboxEntry": data}), PROXY[handle])

    def wake(self, handle):
        """A node woke up"""
        self.woken = handle
        self.queues[handle].todo.append((self.loop.time(), POP, None))
        self.hear(wire.encode("Mailbox.WakeupNotification", {"queueHandle": handle}), PROXY[handle])

    def ack(self, handle, unnamed=False):
        """The node wants the next one"""
        if unnamed:
            handle = self.woken
        self.queues[handle].todo.append((self.loop.time(), POP, None))
        self.hear(wire.encode("Mailbox.Queue", {"last": 0, "operation": ACK, "queueHandle": 0 if unnamed else handle, "mailboxEntry": b""}),
                  PROXY[handle])

    # -- from the service
    async def send(self, cmd, **_kwargs):
        """Something for the gateway itself"""
        self.configured.append(cmd.compose())
        delay, result = self.outcome("send")
        if delay:
            await asyncio.sleep(delay)
        if isinstance(result, BaseException):
            raise result
        return result

    async def sendToNode(self, nodeId, cmd, **_kwargs):
        """Compare and answer"""
        try:
            return await self.judge(nodeId, cmd)
        except Violation as error:
            # The service may catch it
            self.problem = self.problem or error
            raise

    async def judge(self, nodeId, cmd):
        """Compare and answer"""
        now = self.loop.time()
        data = cmd.compose()
        self.sent += 1
        self.log.append((now, nodeId, data.hex()))
        check(data[:2] == b"\x69\x04" and len(data) >= 4 and not data[2] & 0xF0, "not a queue message", "{}", data.hex())
        last, operation, handle, entry = bool(data[2] & 8), data[2] & 7, data[3], bytes(data[4:])
        queue = self.queues.get(handle)
        check(queue is not None, "wrong queue", "{} for {}", data.hex(), handle)
        check(nodeId == PROXY[handle], "wrong receiver", "{} sent to {}", data.hex(), nodeId)
        self.skip(queue)
        self.overdue(now)
        if self.expected(queue, last, operation, entry):
            return await self.operate(queue, now)
        return await self.beat(queue, now, last, operation, entry, handle)

    def skip(self, queue):
        """Duplicates at the head of the line are discarded without a word"""
        while queue.current is None and queue.todo:
            arrived, kind, data = queue.todo[0]
            if kind != PUSH or all(item.data != data for item in queue.items):
                return
            queue.todo.popleft()
            queue.free = max(queue.free, arrived)

    @staticmethod
    def expected(queue, last, operation, entry):
        """Is it what must come next"""
        if queue.current is not None or not queue.todo:
            return False
        _arrived, kind, data = queue.todo[0]
        if kind == PUSH:
            return (last, operation, entry) == (False, WAITING, data)
        if not queue.items:
            return (last, operation, entry) == (True, POP, b"")
        return (last, operation, entry) == (len(queue.items) == 1, POP, queue.items[0].data)

    async def operate(self, queue, now):
        """An answer to the proxy"""
        arrived, kind, data = queue.current = queue.todo.popleft()
        check(abs(now - max(arrived, queue.free)) < EPS, "late", "the operation of {} is at {}, the queue was free at {}", arrived, now,
              queue.free)
        try:
            delay, result = self.outcome("push" if kind == PUSH else "pop")
            if delay:
                await asyncio.sleep(delay)
            ended = self.loop.time()
            if result is True:
                if kind == PUSH:
                    queue.items.append(Item(data, now, ended))
                elif queue.items:
                    queue.gone.append((ended, queue.items.pop(0)))
        finally:
            queue.current = None
            queue.free = self.loop.time()
        if isinstance(result, BaseException):
            raise result
        return result

    async def beat(self, queue, now, last, operation, entry, handle):
        """A heartbeat"""
        items = [item for item in queue.items if item.data == entry]
        # At the very moment of the delivery either is fine
        gone = [item for when, item in queue.gone if when == now and item.data == entry and not item.busy and item.window()[1] <= now + EPS]
        check(operation in (WAITING, PING) and not last and (items or gone), "unexpected",
              "{} at {}: line {} current {} queued {}", self.log[-1], now, list(queue.todo)[:2], queue.current,
              [item.data.hex() for item in queue.items])
        if not items:
            return True
        item = items[0]
        begin, end = item.window()
        check(not item.busy and begin - EPS <= now <= end + EPS, "heartbeat time", "queue {} frame {}: heartbeat {} at {}, expected {} to {}", handle,
              entry.hex(), item.count + 1, now, begin, end)
        item.count += 1
        check(operation == (WAITING if item.count % 10 else PING), "heartbeat kind", "heartbeat {} is {}", item.count, operation)
        item.begun, item.busy = now, True
        try:
            delay, result = self.outcome("beat")
            if delay:
                await asyncio.sleep(delay)
        finally:
            item.busy, item.ended = False, self.loop.time()
        if isinstance(result, BaseException):
            raise result
        return result

    def overdue(self, now):
        """Every heartbeat that had to come did"""
        for handle, queue in self.queues.items():
            for item in queue.items:
                check(item.busy or now <= item.window()[1] + EPS, "heartbeat missing", "queue {} frame {}: heartbeat {} expected until {}, now {}", handle,
                      item.data.hex(), item.count + 1, item.window()[1], now)

    def idle(self):
        """Nothing is in progress"""
        return all(queue.current is None for queue in self.queues.values())

    def verify(self, where):
        """After everything settled"""
        if self.problem:
            raise self.problem
        now = self.loop.time()
        for handle, queue in self.queues.items():
            self.skip(queue)
            check(queue.current is not None or not queue.todo, "unanswered", "{}: {} of queue {} at {}", where, list(queue.todo)[:2], handle, now)
        self.overdue(now)

    async def finish(self, where):
        """Wait until the operations ended"""
        for _ in range(100):
            await self.loop.settle()
            if self.idle() and not any(q.todo for q in self.queues.values()):
                break
            self.verify(where)
            await asyncio.sleep(1)
        self.verify(where)

    async def drain(self, where):
        """Every node gets everything it is owed, and then there are no heartbeats"""
        await self.finish(where)
        self.outcome = lambda _kind: (0, True)
        for handle, queue in self.queues.items():
            for _ in range(len(queue.items) + 1):
                self.wake(handle)
                await self.loop.settle()
                self.verify(where)
            check(not queue.items, "harness", "not drained")
        # Those in progress are over as well
        before = self.sent
        await asyncio.sleep(2 * BEAT + 10)
        self.verify(where)
        check(self.sent == before, "after delivery", "{}: {}", where, self.log[before:before + 3])
