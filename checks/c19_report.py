"""C19  the final report.

Every history of annual results (see C17) ends in a final report printed by
the real annual event; statistics table, summary and probability distributions
are parsed and compared with exact values computed from the history.
"""
import copy
import os

import numpy as np

from mc import annual, core
from mc.core import Violation

LETTERS = 8


def explore(R, case):
    n, T, indx, first, depth = case
    base = annual.load(n, T)
    base["INDX"], base["IOJ"] = indx, 0
    ev = {k: copy.deepcopy(base[k]) for k in ("EVNTS", "IPOINT", "MFA", "NUMINQ")}
    sus = np.array(base["SUSTAT"], float)
    peaks, inst = [1000.0 * (i + 1) for i in range(n)], [700.0 * (i + 2) for i in range(n)]
    names = ["A%d" % (i + 1) for i in range(n)]
    yearly = core.fn("monte_carlo.year")

    def rec(d, hist, years):
        for k in range(LETTERS):
            if not hist and k != first:
                continue
            y = annual.letter(k, n, T)
            h = hist + [k]
            for final in (True, False):
                if not final and len(h) >= depth:
                    continue
                e = copy.deepcopy(d)
                e.update(copy.deepcopy(ev))
                for f in ("output.txt",):
                    if os.path.exists(f):
                        os.remove(f)
                for (w, c, t, lvl), v in y.items():
                    e[w + c + t + lvl][...] = v
                e["CLOCK"] = 8760.0 * len(h)
                if final:
                    e["FINISH"] = e["CLOCK"]
                out = yearly(**e)
                for name, v in zip(("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB"), out):
                    e[name] = v
                R.transitions += 1
                if final:
                    ref = annual.Ref(n, T)
                    ref.years = years + [y]
                    text = open("output.txt").read()
                    if text.count("FINAL RESULTS") != 1:
                        raise Violation("count", "%d final reports after %s" % (text.count("FINAL RESULTS"), h))
                    bad = annual.compare_final(text, ref, indx, names, peaks, inst)
                    R.states += 1
                    R.traces += 1
                    R.outcome("loss" if any(np.any(v) for yy in ref.years for v in yy.values()) else "no loss")
                    if bad:
                        raise Violation("report", "final report after the years %s (%d areas, %d tiers, peaks only %d): %s" % (h, n, T, indx, bad))
                elif e["RFLAG"] != 1:
                    rec(e, h, years + [y])

    rec(base, [], [])
    R.sample({"areas": n, "tiers": T, "peaks_only": indx, "first_year": first, "depth": depth})


def chunk(R, cases):
    for c in cases:
        R.case(explore, c, limit=240, part="%d areas, %d tiers, peaks only %d" % c[:3])


def run(R):
    cases = []
    for n in (1, 2, 3):
        for T in (1, 5):
            for indx in (0, 1):
                depth = 3 if n == 2 else 2
                if core.THOROUGH:
                    depth = 4 if n == 2 else 3
                for k in range(LETTERS):
                    cases.append((n, T, indx, k, depth))
    # many areas: one year
    cases += [(n, T, indx, k, 1) for n in (9, 10, 24) for T in (1, 5) for indx in (0, 1) for k in range(LETTERS)]
    core.pmap(R, chunk, [[c] for c in cases])
    return (
        {"annual_results": LETTERS, "depth": "3 years (2 areas), 2 years (1, 3 areas), 1 year (9, 10, 24 areas)", "tiers": "1, 5", "modes": "hourly, peaks only"},
        ["printed numbers are compared to the printed precision"],
    )
