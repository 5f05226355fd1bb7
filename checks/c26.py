"""C26: one failing listener never affects the others"""
import asyncio
import itertools

from . import world
from .world import check

import pyzwave.commandclass  # pylint: disable=unused-import
from pyzwave.node import Node
from pyzwave.util import Listenable

LEVEL = "model_checking"
RULE = ("every list of up to four listeners (five of the main kinds when thorough) over {answering, answering nothing or something falsy, failing, "
        "cancelled, without the notification, unusable, registering others, speaking again, equal to all others, empty} x {at once, as coroutine, after some time}, asked and "
        "spoken to, with 0 to 3 arguments, repeatedly and overlapping; up to 1025 listeners. Calls, their order, arguments and answers are compared")


class Failure(Exception):
    """Something of the listener"""


class Recorder:
    """Calls of all listeners"""

    def __init__(self):
        self.calls = []


def make(kind, number, log, speaker):
    """A listener. Its answer is its number"""  # pylint: disable=too-many-return-statements
    answer = ("answer", number)

    class Listener:
        """Base"""

    def record(args):
        log.append((number, args))

    mode, _, what = kind.partition(" ")
    odd, mode = mode, "sync" if mode in ODD else mode
    delay = {"sync": None, "async": 0, "slow": 2, "slower": 3}.get(mode)

    def outcome():
        if what == "fail":
            raise Failure(number)
        if what == "cancel":
            raise asyncio.CancelledError()
        if what == "timeout":
            raise asyncio.TimeoutError()
        if what == "stop":
            raise StopIteration(number)
        if what == "odd":
            raise Odd()
        if what == "false":
            return False
        if what == "zero":
            return 0
        if what == "none":
            return None
        return answer

    if odd in ("equal", "unhashable"):
        Listener.__eq__ = lambda self, other: True
    if odd == "equal":
        Listener.__hash__ = lambda self: 1
    if odd == "empty":
        Listener.__len__ = lambda self: 0
    if mode == "missing":
        return Listener()
    if mode == "unset":
        Listener.notify = None
        return Listener()
    if mode == "broken":
        Listener.notify = property(lambda self: {}["no"])
        return Listener()
    if mode == "text":
        Listener.notify = "not a function"
        return Listener()
    if mode == "signature":
        Listener.notify = lambda self: record("called")
        return Listener()
    if mode == "asyncsignature":
        async def unusable(_self):
            record("called")
        Listener.notify = unusable
        return Listener()
    if mode == "adder":
        def adder(_self, *args):
            record(args)
            speaker.addListener(Listener2(log, number))
            return answer
        Listener.notify = adder
        return Listener()
    if mode == "nested":
        def nested(_self, *args):
            record(args)
            speaker.speak("other", number)
            return answer
        Listener.notify = nested
        return Listener()
    if mode == "asker":
        async def asker(_self, *args):
            record(args)
            await speaker.ask("other", number)
            return answer
        Listener.notify = asker
        return Listener()
    if mode == "sync":
        def notify(_self, *args):
            record(args)
            return outcome()
    else:
        async def notify(_self, *args):
            record(args)
            if delay:
                await asyncio.sleep(delay)
            return outcome()
    Listener.notify = notify
    return Listener()


class Odd(Exception):
    """Cannot even be printed"""

    def __str__(self):
        raise ValueError("no")

    __repr__ = __str__


class Listener2:
    """Registered during a notification"""

    def __init__(self, log, number):
        self.log, self.number = log, number

    def notify(self, *args):
        """The same notification"""
        self.log.append((("added", self.number), args))
        return ("added", self.number)


ODD = ("equal", "unhashable", "empty")
SYNC = ("sync", "adder", "nested") + ODD
SILENT = ("missing", "unset", "broken", "text", "signature", "asyncsignature")
KINDS = ["sync", "sync fail", "async", "async fail", "async cancel", "missing", "slow", "slow fail", "slower", "slow cancel", "sync false",
         "async zero", "sync none", "sync cancel", "sync stop", "async stop", "sync odd", "async odd", "async timeout", "sync timeout", "unset",
         "broken", "text", "signature", "asyncsignature", "adder", "nested", "asker",
         "equal", "unhashable", "empty"]
MAIN = KINDS[:10]


def answers(kinds):
    """The answers, in order of registration"""
    result = []
    for number, kind in enumerate(kinds):
        mode, _, what = kind.partition(" ")
        if mode in SILENT or what in ("fail", "cancel", "timeout", "stop", "odd", "none"):
            continue
        result.append({"false": False, "zero": 0}.get(what, ("answer", number)))
    return result


def called(kinds):
    """Who is called"""
    return [i for i, k in enumerate(kinds) if k.split(" ")[0] not in SILENT]


def speaker_of(which):
    """Somebody with listeners"""
    if which == "node":
        return Node(2, None, [])
    if which == "class":
        return Node(2, None, [0x20]).supported[0x20]
    return Listenable()


async def one(kinds, how, args, which, where):
    """One notification"""
    speaker, log = speaker_of(which), []
    for number, kind in enumerate(kinds):
        speaker.addListener(make(kind, number, log, speaker))
    if how == "ask":
        got = await speaker.ask("notify", *args)
    else:
        before = speaker.speak("notify", *args)
        at_once = [n for n, _args in log if not isinstance(n, tuple)]
        want = [i for i, k in enumerate(kinds) if k.split(" ")[0] in SYNC]
        check(at_once == want, "at once", "{}: called {} instead of {}", where, at_once, want)
        got = [r for r in await asyncio.gather(*before, return_exceptions=True) if not isinstance(r, BaseException)]
        await asyncio.sleep(0)
    compare(kinds, log, got, (speaker,) + tuple(args), where)
    ch_args = [a for _n, a in log if len(a) != len(args) + 1]
    check(not ch_args, "arguments", where)


def compare(kinds, log, got, args, where):
    """Calls and answers"""
    mine = [n for n, _args in log if not isinstance(n, tuple)]
    check(sorted(mine) == called(kinds), "calls", "{}: called {} instead of {}", where, mine, called(kinds))
    for modes in (SYNC, ("async", "slow", "slower", "asker")):
        part = [n for n in mine if kinds[n].split(" ")[0] in modes]
        check(part == sorted(part), "order", "{}: called in the order {}", where, mine)
    for number, received in log:
        check(len(received) == len(args) and all(a is b for a, b in zip(received, args)), "arguments", "{}: {} got {} instead of {}", where, number,
              received, args)
    added = [n for n, _args in log if isinstance(n, tuple)]
    check(len(added) == len(set(added)), "calls", "{}: called {}", where, added)
    got = [g for g in got if g is not None and not (isinstance(g, tuple) and g[0] == "added")]
    want = answers(kinds)
    check([(type(g), g) for g in got] == [(type(w), w) for w in want], "answers", "{}: got {} instead of {}", where, got, want)


def lists(ch, first, length, kinds):
    """All lists starting with first, the others of the kinds"""
    kinds = MAIN if kinds == "main" else KINDS

    async def main(_loop):
        for number, rest in enumerate(itertools.product(kinds, repeat=length - 1)):
            combination = (first,) + rest
            args = [object() for _ in range(number % 4)]
            await one(combination, "ask", args, ("node", "class", "plain", "plain")[number % 4], "asking {}".format(combination))
            await one(combination, "speak", args, "plain", "speaking to {}".format(combination))
            ch.case(2)

    world.run(main, horizon=10 ** 9)
    return first, length


def repeated(ch, first):
    """Several notifications, overlapping"""

    async def main(_loop):
        kinds = [k for k in MAIN if k != "missing"]
        for second in kinds:
            for delay in (0, 0.5, 2, 2.5, 4):
                speaker, log = Listenable(), []
                combination = (first, "sync", second, "async")
                for number, kind in enumerate(combination):
                    speaker.addListener(make(kind, number, log, speaker))

                class Other:
                    """Another notification"""

                    def __init__(self):
                        self.calls = []

                    async def other(self, *args):
                        """It"""
                        self.calls.append(args)
                        return "other"

                other = Other()
                speaker.addListener(other)
                tasks = []
                for value in range(3):
                    tasks.append(asyncio.ensure_future(speaker.ask("notify", value)))
                    tasks.append(asyncio.ensure_future(speaker.ask("other", value)))
                    if delay:
                        await asyncio.sleep(delay)
                results = await asyncio.gather(*tasks)
                for value in range(3):
                    mine = [(n, a) for n, a in log if a[1] == value]
                    compare(combination, mine, results[2 * value], (speaker, value), "{} every {} s".format(combination, delay))
                    check(results[2 * value + 1] == ["other"], "answers", "{}: other answered {}", combination, results[2 * value + 1])
                check(other.calls == [(speaker, v) for v in range(3)], "calls", "{}: other called {}", combination, other.calls)
                check(len(log) == 12, "calls", "{}: {}", combination, log)
                ch.case()

    world.run(main, horizon=10 ** 9)
    return first


def many(ch, count):
    """Many listeners, of every kind"""

    async def main(_loop):
        for kinds in (KINDS, MAIN, ["async"], ["sync"], ["sync fail", "sync", "slow cancel"]):
            for shift in range(min(len(kinds), 4)):
                combination = [kinds[(number + shift) % len(kinds)] for number in range(count)]
                for how in ("ask", "speak"):
                    await one(combination, how, [object()], "plain", "{} listeners".format(count))
                    ch.case()

    world.run(main, horizon=10 ** 9)
    return count


SCENARIOS = {"many": many, "lists": lists, "repeated": repeated}


def jobs(thorough):
    """By first listener"""
    result = []
    for length in (1, 2, 3):
        result += [("lists", {"first": k, "length": length, "kinds": "all"}, None) for k in KINDS]
    result += [("many", {"count": count}, None) for count in (9, 17, 33, 65, 129, 257, 1025)]
    result += [("lists", {"first": k, "length": 4, "kinds": "all" if thorough else "main"}, None) for k in KINDS]
    if thorough:
        result += [("lists", {"first": k, "length": 5, "kinds": "main"}, None) for k in MAIN]
    result += [("repeated", {"first": k}, None) for k in MAIN if k != "missing"]
    return result[::-1]
