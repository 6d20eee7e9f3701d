"""C02  every hour (day) of every year is simulated once, in order, and the
simulation ends with one report.

A one-area system that always loses all of its load makes the hour being
simulated visible in the statistics (the load names the hour).  Every
combination of statistics mode, draw mode, season layout, forecast tiers and
stopping rule is run for several years on the real program.
"""
import itertools
import re

import numpy as np

from mc import core, csvsys, sim
from mc.core import Violation

PEAK = 16384.0


def shape(kind):
    """Hourly loads; every hour has a load of its own."""
    h = np.arange(8760)
    if kind == 0:  # rising through the year, daily peak in the last hour
        s = h + 10.0
    elif kind == 1:  # falling, daily peak in the first hour
        s = 8770.0 - h
    else:  # daily peak moves around the clock
        s = (h // 24) * 24 + ((h % 24) * 7 + h // 24) % 24 + 10.0
    s = s.astype(float)
    s[4000 if kind == 2 else int(np.argmax(s))] = PEAK
    return s


def one(R, case):
    step, freq, fin, wk, kind, lfu, cvt = case
    s = shape(kind)
    S = csvsys.Sys(
        [dict(peak=PEAK, lfu=lfu)],
        [dict(area=0, caps=8, fo=1.0)],
        shape=[s],
        STEP=step,
        FREQ=freq,
        FIN=fin,
        wk=wk,
        CVT=cvt,
    )
    ev, out = sim.observe(S)
    tiers = 5 if lfu else 1
    if step == 1:
        hours = np.arange(8760)
    else:
        hours = s.reshape(365, 24).argmax(1) + 24 * np.arange(365)
    peaks = set((s.reshape(365, 24).argmax(1) + 24 * np.arange(365)).tolist())
    want = []
    # with identical years the estimate has converged after the 5th year
    last = min(fin, 5) if cvt else fin
    mult = [1 + 2.5 * lfu / 100, 1 + lfu / 100, 1, 1 - lfu / 100, 1 - 2.5 * lfu / 100] if lfu else [1]
    for y in range(last):
        for h in hours:
            for t in range(tiers):
                want.append(("H", t, -s[h] * mult[t]))
                if int(h) in peaks:
                    want.append(("P", t, -s[h] * mult[t]))
        want.append(("Y", 8760.0 * (y + 1)))
    got = [(e[0], e[1], e[2][0]) if e[0] != "Y" else e for e in ev]
    R.transitions += len(got)
    R.states += len(hours) * last
    for i, (g, w) in enumerate(itertools.zip_longest(got, want)):
        bad = g is None or w is None or g[0] != w[0] or g[1] != w[1]
        if not bad and g[0] != "Y":
            bad = abs(g[2] - w[2]) > 1.001
        if bad:
            raise Violation(
                "sequence",
                "observation %d of the run is %s, expected %s (previous %s)" % (i, g, w, got[i - 1] if i else None),
            )
    reps = re.findall(r"FINAL RESULTS AFTER *(\d+) *REPLICATIONS", out)
    if reps != [str(last)]:
        raise Violation("report", "final reports after %s replications, expected exactly one after %d" % (reps, last))
    R.traces += 1
    R.outcome("%d years, %d observations" % (last, len(got)))
    R.sample({"config": case, "years": last, "observations": len(got)})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=120, part="step%d" % c[0])


def run(R):
    WK = [(13, 26, 39), (1, 2, 3), (10, 20, 51)]
    cases = []
    for step, freq, wk, kind in itertools.product((1, 24), (1, 24), WK, (0, 1, 2)):
        fin = 3 if step == 24 else 2
        cases.append((step, freq, fin, wk, kind, 0, 0.0))
    for step, freq, kind in itertools.product((1, 24), (1, 24), (0, 2)):
        cases.append((step, freq, 2 if step == 24 else 1, WK[0], kind, 4, 0.0))
    for freq, fin in itertools.product((1, 24), (1, 4, 5, 6, 9)):
        cases.append((24, freq, fin, WK[0], 2, 0, 0.05))
    for freq, fin in itertools.product((1, 24), (5, 6)) if not core.THOROUGH else itertools.product((1, 24), (1, 4, 5, 6, 9)):
        cases.append((1, freq, fin, WK[0], 0, 0, 0.05))
    if core.THOROUGH:
        for step, freq, kind, fin in itertools.product((1, 24), (1, 24), (0, 1, 2), (1, 4, 6)):
            for w1, w2, w3 in ((1, 2, 3), (1, 26, 51), (49, 50, 51), (17, 30, 44), (26, 27, 28)):
                cases.append((step, freq, fin, (w1, w2, w3), kind, 0, 0.0))
    cases.sort(key=lambda c: -c[2] * (24 / c[0]))
    core.pmap(R, chunk, [[c] for c in cases])
    return (
        {"configurations": len(cases), "years_per_run": "1..9", "hours_per_year": 8760},
        ["CVT=0 in these runs never converges early because FINISH is below five years"],
    )
