"""C25  the capacity and reserve reported for an area are those at its own peak.

Every day of the year is made the peak day of an area, under several season
layouts, ownership tables and contract sets (including contracts that move the
peak to another day); the summary printed by a whole run of the program is
parsed and compared with the user's data.
"""
import numpy as np

from mc import annual, core, csvsys, ref, sim
from mc.core import Violation

OWN = [None, (100, 0), (60, 40), (0, 100), (35.5, 64.5)]


def system(days, wk, own, contracts, peaks=(600.0, 900.0), rival=95):
    n = len(days)
    shape = np.zeros((n, 8760))
    for i, d in enumerate(days):
        shape[i] = 70 - (np.arange(8760) // 24 * (i + 3) % 7) + np.arange(8760) % 24 / 16
        # the second highest day is far away and must not be taken instead
        shape[i, ((d + 180) % 365) * 24 + 9] = rival
        shape[i, d * 24 + 18] = 100
    areas = [dict(peak=p) for p in peaks[:n]]
    units = [
        dict(area=0, caps=(1000, 2000, 4000, 8000), own=own[0] and list(own[0]) + [0] * (n - 2)),
        dict(area=n - 1, caps=(1110, 2230, 4470, 1950), own=own[1] and list(own[1]) + [0] * (n - 2)),
        dict(area=0, caps=(10, 30, 20, 50)),
        # planned outages and outage rates do not change what is installed
        dict(area=n - 1, caps=(3, 1, 7, 5), pa=1, b1=1, d1=26, b2=30, d2=22, fo=0.5, dfor=0.25, der=40),
    ]
    lines = [dict(a=i, b=i + 1, states=[(-5.0, 9999, 9999, 1.0)]) for i in range(n - 1)]
    return csvsys.Sys(areas, units, lines, contracts, shape=shape, wk=wk, STEP=24, FREQ=24, FIN=1)


def one(R, case):
    days, wk, own, contracts, peaks = case[:5]
    S = system(*case)
    n = len(days)
    # the user's load plus net firm exports decides the peak day
    net = ref.loads(S) + np.repeat(ref.exports(S), 24, axis=1)
    caps = np.array([u["caps"] for u in S.units], float)
    share = ref.shares(S)
    want = []
    for i in range(n):
        top = np.sort(net[i])[-2:]
        if top[1] - top[0] < 1e-6:
            raise core.HarnessError("tied peak in %s" % (case,))
        d = int(net[i].argmax()) // 24
        season = sum(d // 7 + 1 > w for w in wk)
        want.append(float(share[i] @ caps[:, season] - ref.exports(S)[i, d]))
    out, _ = sim.run(S)
    R.states += n
    R.transitions += 1
    rows = [r for r in annual.parse_final(out)[1]]
    what = "peak days %s, season ends %s, ownership %s, contracts %s" % ([d + 1 for d in days], wk, own, contracts)
    if [r[0].strip("'") for r in rows] != ["A%d" % (i + 1) for i in range(n)] + ["ERCOT"]:
        raise Violation("rows", "%s: summary %s" % (what, rows))
    pk = list(peaks[:n])
    for r, p, c in zip(rows, pk + [sum(pk)], want + [sum(want)]):
        for name, tok, v, dec in (("peak", r[1], p, 0), ("capacity", r[2], c, 0), ("reserve", r[3], (c - p) / p * 100, 1)):
            if not annual.close(tok, v, dec):
                raise Violation("reserve", "%s: %s of %s is printed as %s, expected %.6g (summary %s)" % (what, name, r[0], tok, v, r))
    R.traces += 1
    R.outcome(tuple(round(w) for w in want))
    R.sample({"peak_days": list(days), "seasons": wk, "capacities": want})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=60, part="%d areas" % len(c[0]))


def cases():
    wks = [(13, 26, 39), (1, 2, 51), (10, 20, 30), (26, 39, 50)]
    pk = (600.0, 900.0, 750.0)
    for wk in wks[: 4 if core.THOROUGH else 2]:
        for d in range(365):
            yield (d, (d * 7 + 3) % 365), wk, (None, None), (), pk
    wk = (13, 26, 39)
    edge = (0, 6, 7, 90, 91, 181, 182, 272, 273, 363, 364)
    for d in edge:
        for e in edge:
            for own in [(a, b) for a in OWN for b in OWN] if core.THOROUGH else [((60, 40), None), ((0, 100), (35.5, 64.5))]:
                yield (d, e), wk, own, (), pk
    # days that come within a fraction of 1 MW of the peak, before and after it
    for d in range(0, 365, 1 if core.THOROUGH else 8):
        for rival in (99.9, 99.97, 99.9999):
            yield (d, (d * 7 + 3) % 365), wk, (None, None), (), pk, rival
    # contracts that cover, start after, or end before the peak days
    for d in edge:
        for a, b in ((0, 1), (1, 0)):
            for beg, end in ((1, 365), (d + 1, d + 1), (max(d, 1), max(d, 1)), (min(d + 2, 365), 365)):
                yield (d, (d + 100) % 365), wk, ((60, 40), None), ((a, b, beg, end, 17),), pk
                yield (d, (d + 100) % 365, (d + 200) % 365), wk, ((60, 40), None), ((a, b, beg, end, 17), (2, a, 1, 200, 5), (b, a, 50, 300, 9)), pk
                # large enough to move the peak
                yield (d, (d + 100) % 365), wk, ((60, 40), None), ((a, b, (d + 40) % 360 + 1, (d + 40) % 360 + 1, 400),), pk


def run(R):
    cs = list(cases())
    core.pmap(R, chunk, core.chunked(cs, len(cs) // 48 + 1))
    return (
        {"peak_days": "all 365 for the first area, paired with another day for the second", "season_layouts": 4 if core.THOROUGH else 2,
         "rivals": "another day within 0.6, 0.2 and 0.0006 MW of the peak", "ownership_and_contracts": "at the days around the season ends", "descriptions": len(cs)},
        ["the peak is that of the load including firm exports; it is unique"],
    )  # fmt: skip
