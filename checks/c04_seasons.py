"""C04  units run at the rating of the user's current season.

Perfectly reliable units with four distinct seasonal ratings and a load far
above them make the rating in force visible in every simulated hour.
"""
import itertools

import numpy as np

from mc import core, csvsys, sim
from mc.core import Violation

LOAD = 8192.0
CAPS = [(10, 20, 30, 40), (41, 31, 21, 11), (50, 50, 7, 50)]
PART = (9.75, 0.875, 9.375, 4.625)  # eight such units stand in the second area


def one(R, case):
    wk, step, freq, years, fo = case
    S = csvsys.Sys(
        [dict(peak=LOAD)] * 3,
        [dict(area=i, caps=c) for i, c in enumerate(CAPS)]
        # a unit that is always on partial outage: 40% of the seasonal rating
        + [dict(area=0, caps=(100, 200, 300, 400), dfor=1.0, der=60)]
        + [dict(area=1, caps=PART)] * 8,
        STEP=step,
        FREQ=freq,
        FIN=years,
        wk=wk,
    )
    ev, _ = sim.observe(S)
    hours = [e for e in ev if e[0] == "H"]
    n = 8760 // step
    if len(hours) != n * years:
        raise Violation("hours", "%d hours simulated, expected %d" % (len(hours), n * years))
    got = np.array([e[2] for e in hours]).reshape(years, n, 3)
    season = [sum((t * step) // 168 >= w for w in wk) for t in range(n)]
    caps = np.array([[CAPS[i][s] for i in range(3)] for s in range(4)], float)
    caps[:, 0] += 0.4 * np.array([100, 200, 300, 400])
    caps[:, 1] += 8 * np.array(PART)
    want = caps[season] - LOAD
    for y in range(years):
        bad = np.argwhere(np.abs(got[y] - want) > 1.001)
        if len(bad):
            t, i = bad[0]
            raise Violation(
                "season",
                "season ends %s: hour %d of year %d (week %d, season %d) has %g MW, expected %g"
                % (wk, t * step, y + 1, t * step // 168 + 1, season[t] + 1, got[y][t, i] + LOAD, want[t, i] + LOAD),
            )
    R.states += n * years
    R.transitions += len(hours)
    R.traces += 1
    R.outcome(wk)
    R.sample({"season_ends": wk, "mode": step, "years": years})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=200, part="step%d/freq%d" % (c[1], c[2]))


def run(R):
    grid = (1, 2, 12, 13, 14, 25, 26, 27, 39, 50, 51)
    if core.THOROUGH:
        grid = range(1, 52)
    cases = []
    for wk in itertools.combinations(grid, 3):
        cases.append((wk, 24, 24 if sum(wk) % 2 else 1, 2, 0))
    hourly = [(13, 26, 39), (1, 2, 3), (49, 50, 51), (12, 14, 50), (2, 26, 27), (5, 20, 44)]
    if core.THOROUGH:
        hourly = list(itertools.combinations((1, 2, 13, 14, 26, 39, 50, 51), 3))
    for wk in hourly:
        for freq in (1, 24):
            cases.append((wk, 1, freq, 2, 0))
    cases.sort(key=lambda c: c[1])
    core.pmap(R, chunk, list(core.chunked(cases, 6)) if not core.THOROUGH else list(core.chunked(cases, 40)))
    return (
        {"season_ends": "all increasing triples over %s (daily), %d triples (hourly)" % (list(grid), len(hourly)), "years": 2},
        ["season ends increase strictly and lie in weeks 1..51"],
    )
