"""C01  the event calendar is chronological and loses or invents nothing.

Every history of the real event list (initialise, file up to F events with all
combinations of times, then up to S steps, each of which takes the next event
off and files at most one follow-up event, as the simulator does) is explored
depth first and compared with an ordered-list model after every operation.
"""
import itertools

import numpy as np

from mc import core
from mc.core import Violation

TIMES = (0.5, 1.0, 2.0)
DELAYS = (None, 0.0, 0.5, 1.0, 3.0)


class Model:
    """(time, newest first) ordered list of (time, kind)."""

    def __init__(self, items=()):
        self.items = list(items)

    def file(self, t, kind):
        i = 0
        while i < len(self.items) and self.items[i][0] < t:
            i += 1
        self.items.insert(i, (t, kind))  # newest first among equals

    def take(self):
        return self.items.pop(0)


class Real:
    def __init__(self, state=None):
        self.filem = core.fn("monte_carlo.filem")
        self.remove = core.fn("monte_carlo.remove")
        if state is None:
            self.mfa, self.ip, self.ev = core.fn("monte_carlo.initfl")()
            self.n = 0
        else:
            self.mfa, self.ip, self.n, self.ev = state[0], state[1], state[2], state[3].copy()

    def snap(self):
        return self.mfa, self.ip, self.n, self.ev.copy()

    def file(self, t, kind):
        at = np.array([t, float(kind)])
        self.n, self.mfa, self.ip = self.filem(self.mfa, at, self.n, self.ip, self.ev)

    def take(self):
        at = np.array([-1.0, -1.0])
        self.mfa, self.n, self.ip = self.remove(self.n, at, self.ev, self.ip)
        return float(at[0]), int(at[1])

    def listed(self):
        out, i = [], int(self.ip)
        while i != -1:
            if len(out) > 40:
                raise Violation("cycle", "the event list has become cyclic")
            out.append((float(self.ev[i + 1]), int(self.ev[i + 2])))
            i = int(self.ev[i])
        return out


def compare(real, model, hist):
    got = real.listed()
    if got != model.items or real.n != len(model.items):
        raise Violation(
            "list", "after %s the list holds %s (count %s), expected %s" % (hist, got, real.n, model.items)
        )


def explore(R, first, steps):
    """All continuations of one initial filing order."""
    real, model, hist = Real(), Model(), []
    for k, t in enumerate(first):
        kind = k % 4 + 1
        real.file(t, kind)
        model.file(t, kind)
        hist.append("file(%s,%s)" % (t, kind))
        R.transitions += 1
        compare(real, model, hist)
    seen = set()

    def go(rs, items, depth, hist):
        seen.add((tuple(items), depth))
        if depth == steps or not items:
            R.traces += 1
            R.outcome(len(items))
            return
        for d in DELAYS:
            real = Real(rs)
            model = Model(items)
            want = model.take()
            got = real.take()
            R.transitions += 1
            h = hist + ["take"]
            if got != want:
                raise Violation("order", "after %s the next event is %s, expected %s" % (h, got, want))
            if d is not None:
                real.file(want[0] + d, want[1])
                model.file(want[0] + d, want[1])
                R.transitions += 1
                h = h + ["file(%s,%s)" % (want[0] + d, want[1])]
            compare(real, model, h)
            go(real.snap(), model.items, depth + 1, h)

    go(real.snap(), model.items, 0, hist)
    R.states += len(seen)
    R.sample({"initial": list(first), "explored_depth": steps})


def chunk(R, firsts):
    steps = 6 if core.THOROUGH else 4
    for f in firsts:
        R.case(lambda r, c: explore(r, c, steps), f, limit=120, part="histories")


def drain(R, n):
    """Long histories: n periodic processes re-filed for many turns (all period
    assignments), the way the simulator itself uses the calendar."""
    for periods in itertools.product((1.0, 2.0, 3.5), repeat=n):

        def one(r, periods):
            real, model = Real(), Model()
            for k, p in enumerate(periods):
                real.file(p / 2, k + 1)
                model.file(p / 2, k + 1)
            now = 0.0
            for _ in range(200):
                got, want = real.take(), model.take()
                r.transitions += 1
                if got != want or got[0] < now:
                    raise Violation("order", "periodic processes %s: got %s, expected %s" % (periods, got, want))
                now = got[0]
                real.file(now + periods[got[1] - 1], got[1])
                model.file(now + periods[got[1] - 1], got[1])
                r.states += 1
            compare(real, model, "periodic processes")
            r.traces += 1

        R.case(one, list(periods), part="periodic")


def run(R):
    n = 5 if core.THOROUGH else 4
    firsts = [f for k in range(1, n + 1) for f in itertools.product(TIMES, repeat=k)]
    core.pmap(R, chunk, list(core.chunked(firsts, 4)))
    core.pmap(R, drain, range(1, 8 if core.THOROUGH else 7))
    return (
        {
            "initial_filings": "all orders of 1..%d events over times %s" % (n, list(TIMES)),
            "steps": "every take/file alternation of depth %d with delays %s" % (6 if core.THOROUGH else 4, list(DELAYS)),
            "periodic": "all assignments of 3 periods to 1..%d processes, 200 turns" % (7 if core.THOROUGH else 6),
        },
        ["the simulator files at most one event between two removals, so only such histories are explored"],
    )
