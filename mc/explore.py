"""Stateless exploration of the real code: every nondeterministic decision is a ``choose`` call.

An execution is a pure function of its choice sequence. The explorer enumerates, depth first and without
repetition, every choice sequence whose number of *deviations* (non-zero answers at costed choice points) is
within the bound. A mismatch between the recorded and the replayed choice points is a hard error.
"""
import hashlib
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback

logging.disable(logging.CRITICAL)


class Violation(Exception):
    """The property does not hold on this execution. ``key`` identifies the failure mode."""

    def __init__(self, key, detail=""):
        super().__init__(key, detail)
        self.key = key
        self.detail = detail


class Divergence(Exception):
    """The execution is not a function of its choice sequence: the harness misses nondeterminism"""


class Hang(BaseException):
    """The execution never came back"""


class Pruned(Exception):
    """This choice sequence is not a behaviour of the environment (skipped, counted separately)"""


class Choices:
    """Answers choose() from a prefix, and with 0 after it"""

    def __init__(self, prefix, expected=None):
        self.prefix = prefix
        self.expected = expected or []
        self.points = []  # (n, chosen, label, costed)
        self.steps = 0
        self.cases = 0

    def choose(self, n, label="", free=False):
        """Pick one of n. 0 is the default answer; anything else is a deviation unless free"""
        i = len(self.points)
        picked = self.prefix[i] if i < len(self.prefix) else 0
        if i < len(self.expected):
            wanted = self.expected[i]
            if wanted[0] != n or wanted[2] != label:
                raise Divergence(
                    "choice point {} was {}/{} and is now {}/{}".format(i, wanted[0], wanted[2], n, label)
                )
        if picked >= n:
            raise Divergence("choice {} out of range {} at {}".format(picked, n, label))
        self.points.append((n, picked, label, not free))
        return picked

    def pick(self, options, label="", free=False):
        """Pick one of the options"""
        return options[self.choose(len(options), label, free)]

    def flag(self, label="", free=False):
        """Pick False (default) or True"""
        return bool(self.choose(2, label, free))

    def step(self, n=1):
        """Count n transitions of the system under test"""
        self.steps += n

    def case(self, n=1):
        """Count n more complete cases that were compared in this execution"""
        self.cases += n
        self.steps += n

    def trace(self):
        """Human readable choice sequence (defaults omitted)"""
        return ["{}={}/{}".format(label, picked, n) for n, picked, label, _ in self.points if picked or n > 1]


def _alarm(_signum, _frame):
    raise Hang()


def run_one(scenario, params, prefix, expected=None, limit=None):
    """Run one execution. Returns (choices, outcome, violation)"""
    choices = Choices(prefix, expected)
    violation, outcome = None, None
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    limit = limit or LIMIT
    # The limit is on the processor time, as the machine may be busy. Three times as much if it is blocked
    signal.setitimer(signal.ITIMER_REAL, 3 * limit)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        outcome = scenario(choices, **params)
    except Violation as error:
        violation = (error.key, str(error.detail))
    except (Divergence, Pruned):
        raise
    except Hang:
        violation = ("hang", "execution did not finish within {} s".format(limit))
    except KeyboardInterrupt:
        raise
    except BaseException as error:  # pylint: disable=broad-except
        frames = traceback.extract_tb(error.__traceback__)
        where = [f.name for f in frames if "/pyzwave/" in f.filename]
        violation = (
            "exception:{}".format(type(error).__name__),
            "{!r} in {}\n{}".format(error, where[-1:] or "harness", traceback.format_exc(limit=-6)),
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
    return choices, outcome, violation


def _fingerprint(value):
    return hashlib.blake2b(repr(value).encode(), digest_size=8).digest()


class Stats(dict):
    """Mergeable statistics"""

    @staticmethod
    def new():
        return Stats(
            executions=0, cases=0, transitions=0, nodes=0, pruned=0, capped=0, outcomes=set(), violations=[], samples=[],
            depth=0, unstable=0,
        )

    def merge(self, other):
        """Add another statistics object"""
        for key in ("executions", "cases", "transitions", "nodes", "pruned", "capped", "unstable"):
            self[key] += other[key]
        self["depth"] = max(self["depth"], other["depth"])
        self["outcomes"] |= other["outcomes"]
        self["violations"].extend(other["violations"])
        if len(self["samples"]) < 12:
            self["samples"].extend(other["samples"][: 12 - len(self["samples"])])


MAX_VIOLATIONS = 4
LIMIT = 60


def explore_job(scenario, params, bound, name, deadline=None, prefix=()):
    """Enumerate every execution of the job within the deviation bound"""
    stats = Stats.new()
    base = list(prefix)
    current, expected = list(base), []
    keys = set()
    while True:
        if deadline and time.monotonic() > deadline:
            stats["capped"] += 1
            break
        try:
            choices, outcome, violation = run_one(scenario, params, current, expected)
        except Pruned:
            raise Divergence("Pruned must be handled in the scenario") from None
        points = choices.points
        if len(points) < len(current):
            raise Divergence("execution has {} choice points, prefix {}".format(len(points), len(current)))
        stats["executions"] += 1
        stats["cases"] += max(1, choices.cases)
        stats["transitions"] += len(points) + choices.steps
        stats["nodes"] += len(points) - max(0, len(current) - 1)
        stats["depth"] = max(stats["depth"], len(points))
        if outcome == "pruned":
            stats["pruned"] += 1
        elif outcome is not None:
            stats["outcomes"].add(_fingerprint(outcome))
        if len(stats["samples"]) < 1 or (len(stats["samples"]) < 3 and choices.trace()):
            stats["samples"].append(
                {"scenario": name, "params": repr(params)[:200], "choices": choices.trace()[:40],
                 "outcome": repr(outcome)[:300]}
            )
        if violation and violation[0] not in keys:
            # The same schedule must fail every time
            again = run_one(scenario, params, [p[1] for p in points])
            if again[2] is None or again[2][0] != violation[0]:
                stats["unstable"] += 1
                raise Divergence("violation {} did not reproduce: {}".format(violation, again[2]))
            keys.add(violation[0])
            stats["violations"].append(
                {"scenario": name, "params": params, "choices": [p[1] for p in points],
                 "trace": choices.trace(), "key": violation[0], "detail": violation[1]}
            )
            if len(keys) >= MAX_VIOLATIONS:
                break
        # Next choice sequence
        i = len(points) - 1
        while i >= len(base):
            n, picked, _label, _costed = points[i]
            cost = sum(1 for p in points[:i] if p[1] and p[3])
            if picked + 1 < n and (bound is None or not points[i][3] or cost + 1 <= bound):
                break
            i -= 1
        if i < len(base):
            break
        current = [p[1] for p in points[:i]] + [points[i][1] + 1]
        expected = points[:i]
    return stats


_SCENARIOS = {}
_DEADLINE = None


def split(scenario, params, bound, depth):
    """The choice sequences of length depth (or complete shorter ones) within the bound, to share out the work"""
    result, todo = [], [[]]
    while todo:
        prefix = todo.pop()
        choices, _outcome, violation = run_one(scenario, params, prefix)
        points = choices.points
        if violation or len(prefix) >= depth or len(points) <= len(prefix):
            result.append(prefix)
            continue
        n, _picked, _label, costed = points[len(prefix)]
        cost = sum(1 for i, p in enumerate(prefix) if p and points[i][3])
        for choice in range(n):
            if not choice or not costed or bound is None or cost + 1 <= bound:
                todo.append(prefix + [choice])
    return result


def _work(job):
    name, params, bound, prefix = job
    try:
        return explore_job(_SCENARIOS[name], params, bound, name, _DEADLINE, prefix)
    except Divergence as error:
        return "DIVERGENCE in {} {}: {}".format(name, params, error)


def explore(scenarios, jobs, budget=None, workers=None, known=(), grace=float(os.environ.get("MC_GRACE", "20"))):
    """
    Explore all the jobs (name, params, bound[, number of choice points to share the work by]) on all cores.
    Returns merged Stats. Goes on for grace seconds only after a violation that is not known
    """
    global _SCENARIOS, _DEADLINE  # pylint: disable=global-statement
    _SCENARIOS = scenarios
    _DEADLINE = time.monotonic() + budget if budget else None
    jobs = [(job[0], job[1], job[2], prefix) for job in jobs
            for prefix in (split(scenarios[job[0]], job[1], job[2], job[3]) if len(job) > 3 else [[]])]
    total = Stats.new()
    perscenario = {}
    workers = workers or int(os.environ.get("MC_WORKERS", "8"))
    if workers == 1:
        results = ([(job, _work(job))] for job in jobs)
        pool = None
    else:
        pool = multiprocessing.get_context("fork").Pool(workers)
        size = max(1, min(16, len(jobs) // (workers * 64)))
        results = pool.imap_unordered(_workp, [jobs[i : i + size] for i in range(0, len(jobs), size)])
    errors = []
    until = None
    try:
        while True:
            try:
                if pool:
                    chunk = results.next(timeout=max(0.01, until - time.monotonic()) if until else None)
                else:
                    chunk = next(results)
            except (StopIteration, multiprocessing.TimeoutError):
                break
            for job, res in chunk:
                if isinstance(res, str):
                    errors.append(res)
                    continue
                total.merge(res)
                per = perscenario.setdefault(job[0], Stats.new())
                res = Stats(res)
                per.merge(res)
                if not until and any(v["key"] not in known for v in res["violations"]):
                    until = time.monotonic() + grace
            if until and time.monotonic() > until:
                total["capped"] += 1
                break
    finally:
        if pool:
            pool.terminate()
            pool.join()
    if errors and not total["violations"]:
        # A hard error of the check, never a verdict
        for error in errors[:5]:
            print("ERROR", error, file=sys.stderr)
        raise SystemExit(3)
    total["perscenario"] = perscenario
    total["jobs"] = len(jobs)
    return total


def _workp(chunk):
    return [(job, _work(job)) for job in chunk]
