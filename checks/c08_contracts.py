"""C08  firm contracts are honoured on exactly their days.

All small sets of contracts are run through the whole program for a year (and
two); the scheduled net export of every area in every simulated hour must be
the sum of the contracts in force that day.
"""
import itertools

import numpy as np

from mc import core, csvsys, ref, sim
from mc.core import Violation


def one(R, case):
    contracts, kw, n = case if len(case) == 3 else case + (4,)
    S = csvsys.Sys(
        [dict(peak=64.0)] * (n - 1) + [dict(peak=4096.0)],
        [dict(area=i, caps=c) for i, c in enumerate((256, 128, 96, 80, 112, 144, 160, 176)[: n - 1] + (16,))],
        lines=[dict(a=i, b=i + 1, states=[(-100, 50, 50, 1.0)]) for i in range(n - 1)],
        contracts=contracts,
        **kw,
    )
    got = sim.inputs(S, loss=False)
    years = S.mc["FIN"]
    want = list(ref.hours(S, years))
    if len(got) != len(want):
        raise Violation("hours", "%d hours reached the transmission calculation, expected %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        if np.abs(g["TRNSFR"] - w.export).max() > 1e-6:
            raise Violation(
                "contract",
                "contracts (from, to, first day, last day, MW) %s: on day %d (hour %d of year %d) the net exports are %s, "
                "expected %s" % (contracts, w.day + 1, w.hour, w.year + 1, g["TRNSFR"].tolist(), w.export.tolist()),
            )
        if np.abs(g["CAPREQ"] - w.load[:, 0]).max() > 1e-6:
            raise Violation(
                "load",
                "contracts %s: the loads of hour %d are %s, expected %s"
                % (contracts, w.hour, g["CAPREQ"].tolist(), w.load[:, 0].tolist()),
            )
    R.states += len(got)
    R.transitions += len(got)
    R.traces += 1
    R.outcome(len({tuple(w.export) for w in want}))
    R.sample({"contracts": contracts, "options": kw})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=200, part="%d contracts" % len(c[0]))


def run(R):
    days = [(1, 365), (1, 1), (365, 365), (2, 7), (7, 8), (100, 264), (364, 365)]
    pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
    daily = dict(STEP=24, FREQ=24, FIN=2)
    cases = [((), daily)]
    single = [(a, b, d0, d1, 8.0 + a) for a, b in pairs for d0, d1 in days]
    cases += [((c,), daily) for c in single]
    # two contracts: same pair, opposite, chained, disjoint; all day relations
    second = [(0, 1, 3, 9, 4.0), (1, 0, 5, 120, 2.5), (1, 2, 1, 365, 1.0), (2, 0, 200, 300, 16.0), (3, 0, 7, 7, 5.0)]
    cases += [((c, s), daily) for c in single[:21] for s in second]
    cases += [((s, t, u), daily) for s, t, u in itertools.permutations(second, 3)]
    if core.THOROUGH:
        cases += [((c, s), daily) for c in single[21:] for s in second]
        cases += [(p, daily) for p in itertools.permutations(second, 4)]
        cases += [((c,), dict(STEP=24, FREQ=1)) for c in
                  [(0, 1, d0, d1, 8.0) for d0 in range(1, 366, 9) for d1 in range(d0, 366, 17)]]  # fmt: skip
    many = tuple((i % 3, (i + 1 + i // 3 % 2) % 3, 1 + 5 * i, 60 + 9 * i, 1.0 + i) for i in range(12))
    for kw in (dict(STEP=1, FREQ=1), dict(STEP=1, FREQ=24), daily):
        cases += [(many, kw), (tuple(single[3:9]), kw), (tuple(second), kw)]
    # a contract between every two of many areas
    for n in (8, 9):
        every = tuple((a, b, 1 + 3 * a + 11 * b, 200 + 13 * a + 5 * b, 1.0 + 0.5 * a + 0.125 * b) for a in range(n) for b in range(n) if a != b)
        cases += [(every, dict(STEP=24, FREQ=24), n), (every[::-1], dict(STEP=24, FREQ=24), n)]
    cases.sort(key=lambda c: c[1]["STEP"])
    core.pmap(R, chunk, list(core.chunked(cases, 4)))
    return (
        {"contracts": "all single contracts over 6 area pairs x 7 day ranges; 105 pairs; all ordered triples of 5; sets of 5, 6 and 12; one between every two of 8 and 9 areas",
         "runs": "1..2 years, hourly and daily draws"},
        [],
    )
