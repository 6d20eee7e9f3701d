"""C03  planned outages are in force in exactly their planned weeks, every year.

Every area has one perfectly reliable unit and a load far above it, so each
hour's recorded shortfall reveals which units are on planned outage.  All
(first week, length) windows and grids of two windows per unit are run through
the whole program, in hourly and daily mode, for several years.
"""
import itertools

import numpy as np

from mc import core, csvsys, sim
from mc.core import Violation

LOAD = 8192.0


def system(plans, cap=lambda i: 64.0 + i, **kw):
    """One area per plan (a list of units, each (b1, d1, b2, d2))."""
    areas, units = [], []
    for i, plan in enumerate(plans):
        areas.append(dict(peak=LOAD))
        for k, (b1, d1, b2, d2) in enumerate(plan):
            units.append(dict(area=i, caps=cap(i) * (1 << k), b1=b1, d1=d1, b2=b2, d2=d2, name="A%03d%d01" % (i, k)))
    return csvsys.Sys(areas, units, **kw)


def planned(plan, week):
    """Is a unit with this plan on outage in this week (1..52; 53: day 365)?"""
    b1, d1, b2, d2 = plan
    if week > 52:
        return False
    return any(b > 0 and b <= week < b + d for b, d in ((b1, d1), (b2, d2)))


def one(R, case):
    plans, step, freq, years = case
    S = system(plans, STEP=step, FREQ=freq, FIN=years)
    ev, _ = sim.observe(S)
    hours = [e for e in ev if e[0] == "H"]
    n = 8760 // step
    if len(hours) != n * years:
        raise Violation("hours", "%d hours simulated, expected %d" % (len(hours), n * years))
    table = np.array([e[2] for e in hours]).reshape(years, n, len(plans))
    want = np.zeros((n, len(plans)))
    for t in range(n):
        week = (t * step) // 168 + 1
        for i, plan in enumerate(plans):
            cap = sum((64.0 + i) * (1 << k) for k, u in enumerate(plan) if not planned(u, week))
            want[t, i] = cap - LOAD
    for y in range(years):
        bad = np.argwhere(np.abs(table[y] - want) > 0.01)
        if len(bad):
            t, i = bad[0]
            raise Violation(
                "week",
                "units with planned outages %s in %s: hour %d of year %d (week %d) has %g MW available, expected %g"
                % (plans[i], "hourly" if step == 1 else "daily", t * step, y + 1, t * step // 168 + 1,
                   table[y][t, i] + LOAD, want[t, i] + LOAD),  # fmt: skip
            )
    R.states += n * years
    R.transitions += len(hours)
    R.traces += len(plans)
    for p in plans:
        R.outcome(sum(planned(u, w) for u in p for w in range(1, 53)))
    R.sample({"plans": plans[:3], "mode": step, "years": years})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=240, part="step%d/freq%d" % (c[1], c[2]))


def run(R):
    single = [[(b, d, 0, 0)] for b in range(1, 53) for d in (0, 1, 2, 3, 7, 26, 52)]
    double = [
        [(b1, d1, b2, d2)]
        for b1, d1, b2, d2 in itertools.product((1, 2, 26, 51, 52), (1, 3), (1, 4, 27, 50, 52), (1, 5))
    ]
    second = [[(0, 0, b, d)] for b in (1, 2, 13, 51, 52) for d in (1, 4)]
    # several units in one area: together, apart, overlapping
    multi = [
        [(a, 2, 0, 0), (b, 3, 0, 0), (c, 1, 40, 2)]
        for a, b, c in itertools.product((1, 5, 51), (1, 6, 52), (5, 51))
    ]
    cases = []
    for step, freq, years in ((24, 1, 3), (24, 24, 2)):
        for c in core.chunked(single + double + second + multi, 40):
            cases.append((c, step, freq, years))
    hourly = [[(b, d, 0, 0)] for b in (1, 2, 13, 26, 51, 52) for d in (1, 2, 52)] + double[:10] + multi[:6]
    if core.THOROUGH:
        hourly = single + double + second + multi
    for k, c in enumerate(core.chunked(hourly, 9)):
        cases.append((c, 1, (1, 24)[k % 2], 2))
        if core.THOROUGH:
            cases.append((c, 1, (24, 1)[k % 2], 3))
    cases.sort(key=lambda c: -c[3] * len(c[0]) * (24 / c[1]))
    core.pmap(R, chunk, [[c] for c in cases])
    return (
        {
            "windows": "all first weeks 1..52 with lengths {0,1,2,3,7,26,52} (daily mode); grids of two windows; 3-unit areas",
            "years": "2..3",
            "modes": "hourly/daily statistics x hourly/daily draws",
        },
        ["planned outages are predetermined by the user (P/A = 1)"],
    )
