"""C17  the roll-up of the years.

A breadth-first exploration of histories of simulated years: every sequence of
annual results over a small alphabet is rolled up by the real annual event; all
accumulators and histograms are compared with an exact reference after every
year, and the statistics of the year just ended must start again from zero.
"""
import copy
import os

import numpy as np

from mc import annual, core
from mc.core import Violation

LETTERS = 8


def step(d, k, n, T, year, mw=1):
    y = annual.letter(k, n, T)
    for q in y:
        if q[0] == "MGN":
            y[q] = y[q] * mw
    for (w, c, t, lvl), v in y.items():
        d[w + c + t + lvl][...] = v
    d["CLOCK"] = 8760.0 * year
    out = core.fn("monte_carlo.year")(**d)
    for name, v in zip(("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB"), out):
        d[name] = v
    # the yearly event just consumed would have freed its entry
    return y


def check(d, ref, hist):
    for name, want in ref.expected().items():
        got = np.asarray(d[name], float)
        want = np.asarray(want, float)
        if got.shape != want.shape:
            got = got.reshape(want.shape)
        if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
            raise Violation("rollup", "after the years %s: %s is %s, expected %s" % (hist, name, got.tolist(), want.tolist()))
    for w in annual.WHAT:
        for c in "GT":
            for t in "HP":
                for lvl in "AP":
                    if np.any(d[w + c + t + lvl]):
                        raise Violation("reset", "after the years %s: %s of the next year starts at %s" % (
                            hist, w + c + t + lvl, np.asarray(d[w + c + t + lvl]).tolist()))  # fmt: skip


def explore(R, case):
    n, T, indx, ioj, first, depth = case
    base = annual.load(n, T)
    base["INDX"], base["IOJ"] = indx, ioj
    ev = {k: copy.deepcopy(base[k]) for k in ("EVNTS", "IPOINT", "MFA", "NUMINQ")}
    keep = ("SUSTAT", "NAMA", "LT", "BB", "ZB", "LSFLG")

    def rec(d, hist, years):
        for k in range(LETTERS):
            if not hist and k != first:
                continue
            e = copy.deepcopy(d)
            e.update(copy.deepcopy(ev))  # the event list is not what is explored here
            if os.path.exists("output.txt"):
                os.remove("output.txt")
            before = {x: np.array(e[x]) for x in keep}
            y = step(e, k, n, T, len(hist) + 1)
            R.transitions += 1
            R.states += 1
            h = hist + [k]
            ref = annual.Ref(n, T)
            ref.years = years + [y]
            check(e, ref, h)
            for x in keep:
                if not np.array_equal(np.asarray(e[x]), before[x]):
                    raise Violation("side", "rolling up the years %s changed %s" % (h, x))
            text = open("output.txt").read() if os.path.exists("output.txt") else ""
            if ioj:
                bad = annual.compare_rows(text, ref.rows([y], indx, True, False))
                if bad:
                    raise Violation("table", "annual table after the years %s: %s" % (h, bad))
            elif text.strip():
                raise Violation("table", "a table was printed although none was asked for: %r" % text[:200])
            if len(h) < depth:
                rec(e, h, years + [y])
            else:
                R.traces += 1
                R.outcome("histories of %d years" % depth)

    rec(base, [], [])
    R.sample({"areas": n, "tiers": T, "peaks_only": indx, "annual_tables": ioj, "first_year": first})


def periodic(R, case):
    """Hundreds of years: the years a, b, a, b, ... of sizes up to millions of MWh."""
    n, T, a, b, mw = case
    d = annual.load(n, T)
    d["IOJ"] = 0
    ev = {k: copy.deepcopy(d[k]) for k in ("EVNTS", "IPOINT", "MFA", "NUMINQ")}
    ref = annual.Ref(n, T)
    for i in range(YEARS):
        d.update(copy.deepcopy(ev))
        ref.years.append(step(d, (a, b)[i % 2], n, T, i + 1, mw))
        R.states += 1
        R.transitions += 1
        if i + 1 in (2, 99, 129, YEARS):
            check(d, ref, "%d x (%d, %d) times %d MWh" % (i + 1, a, b, mw))
    R.traces += 1
    R.outcome("%d years" % YEARS)


YEARS = 300


def chunk(R, cases):
    for c in cases:
        if len(c) == 5:
            R.case(periodic, c, limit=240, part="long histories")
            continue
        R.case(explore, c, limit=240, part="%d areas, %d tiers, INDX %d, tables %d" % c[:4])


def run(R):
    cases = []
    for n in (1, 2, 3):
        for T in (1, 5):
            for indx in (0, 1):
                for ioj in (0, 1):
                    depth = 2 if ioj or (indx and n != 2) else 3
                    if core.THOROUGH:
                        depth = 3 if ioj else 4
                    for k in range(LETTERS):
                        cases.append((n, T, indx, ioj, k, depth))
    core.pmap(R, chunk, [[c] for c in cases])
    core.pmap(R, chunk, [[(n, T, a, b, mw) for b in range(LETTERS)] for n, T in ((1, 1), (2, 5)) for a in range(LETTERS) for mw in (1, 7001)])
    return (
        {"annual_results": "%d letters" % LETTERS, "depth": "2..3 years (thorough: 3..4)", "areas": "1..3", "tiers": "1, 5", "long": "%d years alternating between any two letters, energies times 1 and 7001" % YEARS},
        [],
    )
