"""Exhaustive enumeration: cases x choice sequences, with counters.

A check is a list of families.  A family enumerates a finite list of cases
(`cases(tier)`, simplest first) and `run(case, x)` checks one case completely.
Inside a case `x.explore(fn)` runs `fn(ch)` once for every sequence of answers
`ch.choose(n)` can give whose deviations from answer 0 stay within the bound
(stateless depth-first search, replaying the prefix).
"""
from __future__ import annotations

import os
import signal


class Violation(Exception):
    pass


class Stuck(BaseException):
    """The per-execution watchdog fired: the code under test does not terminate."""


WATCHDOG_S = 60.0


_alarms = 0


def _alarm(signum, frame):
    global _alarms
    _alarms += 1
    if _alarms > 4:  # the exception keeps being swallowed: give up on this process
        os._exit(77)
    raise Stuck("execution did not end within %.0f s" % WATCHDOG_S)


def install_watchdog():
    signal.signal(signal.SIGALRM, _alarm)


def arm():
    global _alarms
    _alarms = 0
    signal.setitimer(signal.ITIMER_REAL, WATCHDOG_S, 10.0)


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Chooser:
    __slots__ = ("prefix", "bound", "trace", "spent", "diverged", "labels")

    def __init__(self, prefix=(), bound=None):
        self.prefix = prefix
        self.bound = bound
        self.trace = []  # (n, choice, cost, spent_before)
        self.spent = 0
        self.diverged = False

    def choose(self, n, cost=0):
        """An integer in range(n); answers other than 0 cost `cost` deviations."""
        if n <= 1:
            return 0
        i = len(self.trace)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                self.diverged = True
                c = n - 1
        self.trace.append((n, c, cost, self.spent))
        if c:
            self.spent += cost
        return c

    def pick(self, options, cost=0):
        return options[self.choose(len(options), cost)]

    def flag(self, cost=0):
        return bool(self.choose(2, cost))

    def choices(self):
        return [t[1] for t in self.trace]


def next_prefix(ch):
    trace = ch.trace
    bound = ch.bound
    for i in range(len(trace) - 1, -1, -1):
        n, c, cost, spent = trace[i]
        if c + 1 < n and (bound is None or not cost or spent + cost <= bound):
            return [t[1] for t in trace[:i]] + [c + 1]
    return None


def stop():
    """Out of time (set by the driver): the rest of the space stays unexplored and is reported as capped."""
    return False


class Ctx:
    """Per-case context: exploration, assertions, counters."""

    def __init__(self, family="", idx=0, tier="quick", forced=None):
        self.family = family
        self.idx = idx
        self.tier = tier
        self.forced = forced  # replay: list of choices for explore()
        self.cur = None  # current chooser
        self.executions = 0
        self.transitions = 0
        self.validated = 0
        self.diverged = 0
        self.capped = 0
        self.max_dev = 0
        self.states = set()
        self.outcomes = set()
        self.sample = None
        self.log = None

    # -- exploration ------------------------------------------------------
    def explore(self, fn, bound=None, cap=None):
        if self.forced is not None:
            ch = Chooser(self.forced, bound)
            self.cur = ch
            arm()
            fn(ch)
            self.executions += 1
            return
        prefix = []
        done = 0
        while True:
            ch = Chooser(prefix, bound)
            self.cur = ch
            arm()
            fn(ch)
            self.executions += 1
            self.transitions += len(ch.trace)
            done += 1
            if ch.diverged:
                self.diverged += 1
            if ch.spent > self.max_dev:
                self.max_dev = ch.spent
            prefix = next_prefix(ch)
            if prefix is None:
                break
            if (cap is not None and done >= cap) or (done % 64 == 0 and stop()):
                self.capped += 1
                break
        self.cur = None

    # -- bookkeeping ------------------------------------------------------
    def state(self, *key):
        """Record a distinct canonical state (within this case)."""
        self.states.add(_h(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        """A complete observation that was compared with the reference model."""
        self.validated += 1
        h = _h(key)
        self.outcomes.add(h)
        self.states.add(h)

    # -- judging ----------------------------------------------------------
    def fail(self, msg, *detail):
        if detail:
            msg = msg + "".join("\n    " + str(d) for d in detail)
        raise Violation(msg)

    def check(self, cond, msg, *detail):
        if not cond:
            self.fail(msg, *detail)

    def eq(self, got, want, msg):
        if got != want:
            self.fail(msg, "got:      %s" % short(got), "expected: %s" % short(want))


def short(v, n=1500):
    r = repr(v)
    return r if len(r) <= n else r[:n] + "...(%d chars)" % len(r)


def _h(key):
    try:
        return hash(key)
    except TypeError:
        return hash(repr(key))


class Family:
    def __init__(self, name, cases, run, doc="", exhaustive=True):
        self.name = name
        self.cases = cases
        self.run = run
        self.doc = doc
        self.exhaustive = exhaustive


class Check:
    """A registry a check module fills: `C = Check('C01', ...)`, `@C.family(cases)`."""

    def __init__(self, pid, assumptions=(), findings=None):
        self.pid = pid
        self.families = []
        self.assumptions = list(assumptions)

    def family(self, name, cases, doc=""):
        def deco(fn):
            self.families.append(Family(name, cases, fn, doc or (fn.__doc__ or "").strip()))
            return fn

        return deco
