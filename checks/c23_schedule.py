"""C23  planned outages fixed by the user survive the maintenance scheduler.

Whole programs in which areas mix units with fixed outages and units left to
the scheduler.  Capacities are distinct powers of two, so the shortfall of each
day reveals which units are out; fixed units must be out in exactly their
weeks, whatever else is scheduled around them.  A few small inputs judge the
outages chosen by the scheduler itself.
"""
import itertools

import numpy as np

from mc import core, csvsys, sim
from mc.core import Violation

LOAD = 8192.0


def planned(u, week):
    if week > 52:
        return False
    b1, d1, b2, d2 = u
    return any(b > 0 and b <= week < b + d for b, d in ((b1, d1), (b2, d2)))


def outages(areas):
    """Which units are out in every week: {(area, unit): set of weeks}."""
    specs, units = [], []
    for i, (us, win, forb, lfrac) in enumerate(areas):
        specs.append(dict(peak=LOAD, win=win, forb=forb))
        for k, (pa, u) in enumerate(us):
            units.append(
                dict(area=i, caps=16.0 * (1 << k), pa=pa, b1=u[0], d1=u[1], b2=u[2], d2=u[3], fo=0.0, name="A%03d%d01" % (i, k))
            )
    # the yearly peak in one week leaves room for outages in all the others
    shape = np.full((len(areas), 8760), LOAD / 2)
    shape[:, 6 * 168 : 7 * 168] = LOAD
    S = csvsys.Sys(specs, units, shape=shape, STEP=24, FREQ=24, FIN=1)
    ev, _ = sim.observe(S)
    H = [e[2] for e in ev if e[0] == "H"]
    if len(H) != 365:
        raise Violation("days", "%d days simulated" % len(H))
    out = {}
    for d, m in enumerate(H):
        for i, (us, *_x) in enumerate(areas):
            avail = int(round((m[i] + shape[i, 24 * d]) / 16.0))
            for k in range(len(us)):
                if not (avail >> k) & 1:
                    out.setdefault((i, k), set()).add(d // 7 + 1)
    return out


def fixed(R, areas):
    out = outages(areas)
    for i, (us, *_x) in enumerate(areas):
        for k, (pa, u) in enumerate(us):
            if not pa:
                continue
            want = {w for w in range(1, 53) if planned(u, w)}
            got = out.get((i, k), set())
            R.states += 1
            if got != want:
                raise Violation(
                    "moved", "area with units (fixed?, outages) %s, window %s, forbidden %s: the fixed unit %d is out in weeks %s, "
                    "planned %s" % (us, areas[i][1], areas[i][2], k, sorted(got), sorted(want)))  # fmt: skip
    R.transitions += 1
    R.traces += 1
    R.outcome(sum(len(a[0]) for a in areas))


AUTO = {
    "two-units": ([(0, (0, 2, 0, 0)), (0, (0, 3, 0, 0))], (1, 52), (0, 0), 1),
    "four-units": ([(0, (0, 2, 0, 0))] * 4, (10, 30), (0, 0), 1),
    "one-unit": ([(0, (0, 2, 0, 0))], (10, 30), (0, 0), 1),
    "with-fixed": ([(1, (10, 2, 0, 0)), (0, (0, 3, 0, 0)), (1, (5, 1, 0, 0))], (20, 40), (0, 0), 1),
    "forbidden": ([(0, (0, 2, 0, 0)), (0, (0, 2, 0, 0))], (1, 52), (20, 30), 1),
    "two-outages": ([(0, (0, 2, 0, 3)), (1, (8, 1, 0, 0))], (1, 52), (25, 27), 1),
}


def auto(R, name):
    a = AUTO[name]
    out = outages([a])
    R.states += 1
    R.transitions += 1
    for k, (pa, u) in enumerate(a[0]):
        if pa:
            continue
        got = sorted(out.get((0, k), set()))
        if len(got) != u[1] + u[3] or any(not a[1][0] <= w <= a[1][1] or a[2][0] <= w <= a[2][1] for w in got):
            raise Violation(
                "auto-" + name, "units %s, window %s, forbidden %s: the scheduler put unit %d on outage in weeks %s, "
                "%d weeks inside the window are due" % (a[0], a[1], a[2], k, got, u[1] + u[3]))  # fmt: skip
    R.traces += 1


def many(R, case):
    """Areas with hundreds of units, most of them with fixed outages."""
    sizes, free = case
    areas = [dict(peak=LOAD * 8) for _ in sizes]
    units = []
    for i, n in enumerate(sizes):
        for k in range(n):
            u = dict(area=i, caps=1.0 + k % 3, fo=0.0)
            if k % 7 != 3:
                u.update(b1=1 + (5 * k + i) % 50, d1=1 + k % 3)
                if k % 4 == 0:
                    u.update(b2=1 + (3 * k + 20) % 49, d2=k % 5)
            if free and k % free == 1:
                u.update(pa=0, b1=0, d1=2, b2=0, d2=0)
            units.append(u)
    S = csvsys.Sys(areas, units, STEP=24, FREQ=24, FIN=1)
    ev, _ = sim.observe(S)
    H = [e[2] for e in ev if e[0] == "H"]
    if len(H) != 365:
        raise Violation("days", "%d days simulated" % len(H))
    for d, m in enumerate(H):
        week = d // 7 + 1
        for i in range(len(sizes)):
            mine = [u for u in S.units if u["area"] == i]
            # (units left to the scheduler may be out whenever it likes)
            most = sum(u["caps"][0] for u in mine if not (u["pa"] and planned((u["b1"], u["d1"], u["b2"], u["d2"]), week)))
            least = most - sum(u["caps"][0] for u in mine if not u["pa"])
            have = m[i] + LOAD * 8
            if not least - 1e-6 <= have <= most + 1e-6:
                raise Violation("many", "areas of %s units, area %d, day %d: %g MW available, planned outages leave %g to %g" % (sizes, i + 1, d + 1, have, least, most))
        R.states += 1
    R.transitions += 365
    R.traces += 1


def chunk(R, cases):
    for kind, c in cases:
        R.case({"fixed": fixed, "auto": auto, "many": many}[kind], c, limit=60, part=kind)
    R.sample({"case": cases[0]})


def run(R):
    F = [(1, p) for p in ((10, 2, 0, 0), (1, 1, 52, 1), (30, 4, 12, 3), (0, 0, 0, 0), (51, 2, 5, 1))]
    A = [(0, p) for p in ((0, 2, 0, 0), (0, 1, 0, 4), (0, 0, 0, 0), (0, 6, 0, 6))]
    wins = [((1, 52), (0, 0)), ((10, 30), (0, 0)), ((1, 52), (20, 30)), ((5, 50), (1, 4))]
    single = []
    for n in (1, 2, 3):
        for us in itertools.product(F + A, repeat=n):
            if any(u[0] for u in us):
                single.append(list(us))
    if not core.THOROUGH:
        single = [u for u in single if len(u) < 3] + [u for u in single if len(u) == 3 and sum(x[0] for x in u) in (1, 2)]
    areas = [(us, *wins[k % 4], 1) for k, us in enumerate(single)]
    if core.THOROUGH:
        areas = [(us, *w, 1) for us in single for w in wins]
    jobs = [[("fixed", [a])] for a in areas]
    # several areas with different mixes
    for k in range(0, len(areas) - 3, 3):
        jobs.append([("fixed", areas[k : k + 3])])
    jobs = [sum(c, []) for c in core.chunked(jobs, 12)]
    jobs.append([("auto", a) for a in AUTO])
    jobs = [[("many", c)] for c in (((620,), 0), ((499,), 0), ((501,), 9), ((30, 700, 5), 0), ((150, 151, 260), 13))] + jobs
    core.pmap(R, chunk, jobs)
    return (
        {"units": "all sequences of 1..3 units over 5 fixed and 4 automatic plans", "windows": 4, "areas": "1, 3", "many": "areas of up to 700 units"},
        ["automatic scheduling itself is judged on %d small inputs (recorded findings)" % len(AUTO)],
    )
