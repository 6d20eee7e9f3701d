"""C07  every unit's capacity is credited to the right areas.

Whole runs over all small ownership/location patterns: in every simulated hour
the capacity available in each area and the capacity each area holds for its
joint owners must be what the user's data say, for the states drawn.
"""
import itertools

import numpy as np

from mc import core, csvsys, ref, sim
from mc.core import Violation


def system(units, **kw):
    """3 areas: the last two are padding that is always short / always rich."""
    n = 4
    areas = [dict(peak=512.0), dict(peak=512.0), dict(peak=4096.0), dict(peak=1.0)]
    pad = [dict(area=3, caps=1 << 20)]
    units = [dict(u, own=None if u.get("own") is None else list(u["own"]) + [0] * (n - len(u["own"]))) for u in units]
    lines = [dict(a=i, b=i + 1, states=[(-100, 50, 50, 1.0)]) for i in range(n - 1)]
    return csvsys.Sys(areas, units + pad, lines=lines, **kw)


def one(R, case):
    units, kw = case
    S = system(units, **kw)
    years = S.mc["FIN"]
    got = sim.inputs(S)
    want = list(ref.hours(S, years))
    if len(got) != len(want):
        raise Violation("hours", "%d hours reached the transmission calculation, expected %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        for name, key, exp in (("capacity", "SYSCON", w.located), ("joint ownership", "TRNSFJ", w.joint)):
            if np.abs(g[key] - exp).max() > 1e-6:
                raise Violation(
                    name.split()[0],
                    "units %s: hour %d: %s of the areas is %s MW, expected %s (unit availabilities %s)"
                    % (units, w.hour, name, g[key].tolist(), exp.tolist(), w.pct.tolist()),
                )
    R.states += len(got)
    R.transitions += len(got)
    R.traces += 1
    R.outcome(tuple(np.round(want[-1].joint[:3], 3)))
    R.sample({"units": units, "options": kw})


def direct(R, case):
    """The accounting function itself, on all small shapes."""
    n, locs, rows = case
    f = core.fn("monte_carlo.sumcap")
    for avail in itertools.product((0.0, 30.0, 100.0), repeat=len(locs)):
        own = np.array(rows, float).T / 100.0
        cap, owned, loc, joint = f(np.array(avail), own, np.array(locs))
        wloc = [sum(a for a, l in zip(avail, locs) if l == i) for i in range(n)]
        wown = [sum(a * r[i] / 100.0 for a, r in zip(avail, rows)) for i in range(n)]
        if (
            np.abs(np.asarray(loc) - wloc).max() > 1e-9
            or np.abs(np.asarray(owned) - wown).max() > 1e-9
            or np.abs(np.asarray(joint) - np.subtract(wloc, wown)).max() > 1e-9
            or np.abs(np.asarray(cap) - np.array([[a * r[i] / 100.0 for a, r in zip(avail, rows)] for i in range(n)])).max()
            > 1e-9
        ):
            raise Violation("accounting", "units %s in areas %s owned %s: %s" % (avail, locs, rows, (owned, loc, joint)))
        R.states += 1
        R.transitions += 1
    R.traces += 1


def chunk(R, cases):
    for c in cases:
        if c[0] == "direct":
            R.case(direct, c[1], part="direct")
        else:
            R.case(one, c[1], limit=200, part="whole-run")


def run(R):
    owns = [None, (100, 0, 0), (0, 100, 0), (60, 40, 0), (25, 25, 50), (0, 0, 100), (80, 0, 0)]
    cases = []
    daily = dict(STEP=24, FREQ=24)
    for la, lb in itertools.product((0, 1), repeat=2):
        for oa, ob in itertools.product(owns, repeat=2):
            u = [
                dict(area=la, caps=(64, 96, 100, 40), dfor=0.3, fo=0.3, der=25, own=oa),
                dict(area=lb, caps=128, dfor=0.2, fo=0.4, der=12.5, own=ob),
            ]
            if core.THOROUGH or (la, lb) != (1, 1):
                cases.append(("run", (u, daily)))
    three = [
        dict(area=1, caps=64, fo=0.5, own=(50, 50, 0), b1=4, d1=2),
        dict(area=0, caps=32, fo=0.5, dfor=0.3, der=75, own=(10, 20, 70), b1=5, d1=3, b2=52, d2=1),
        dict(area=0, caps=16, fo=0.5),
        dict(area=2, caps=8, fo=0.5, own=(0, 99.5, 0.5)),
    ]
    for kw in (dict(STEP=1, FREQ=1), dict(STEP=1, FREQ=24), dict(STEP=24, FREQ=1), dict(STEP=24, FREQ=24, FIN=3)):
        cases.append(("run", (three, kw)))
        if core.THOROUGH:
            for p in itertools.permutations(three):
                cases.append(("run", (list(p), kw)))
    for n in (1, 2, 3):
        rows = [r for r in itertools.product((0, 25, 60, 100), repeat=n) if sum(r) <= 100]
        for k in (1, 2, 3):
            for locs in itertools.product(range(n), repeat=k):
                combos = itertools.product(rows, repeat=k)
                combos = list(combos)
                stride = max(1, len(combos) // (400 if not core.THOROUGH else 4000))
                for rs in combos[::stride]:
                    cases.append(("direct", (n, locs, rs)))
    runs = [[c] for c in cases if c[0] == "run"]
    core.pmap(R, chunk, runs + list(core.chunked([c for c in cases if c[0] == "direct"], 400)))
    return (
        {"ownership": "all pairs of 7 ownership rows x locations of two 3-state units, one year of daily draws; "
         "4 units with maintenance and seasons, 4 step/draw modes; 1..3 units x 1..3 areas directly"},
        [],
    )
