"""C15  which hours, forecast tiers and areas count as a loss of load.

Whole program runs.  The transmission calculation is the environment: every
sequence of answers it can give over the forecast tiers of an hour (no loss, a
loss here or there, a loss below 1 MW, several areas) is enumerated, for load
levels that put every tier on each side of "no area short", "some short" and
"all short", for hourly and for daily-peak runs.  What reaches the statistics
is compared with the decision rule.
"""
import itertools

import numpy as np

from mc import core, csvsys, ref, sim
from mc.core import Violation

# answers of the transmission calculation: (loss flag, unserved per area)
ANS = [
    (0, (-5.0, -5.0, -5.0)),
    (1, (5.0, -1.0, 0.0)),
    (1, (-1.0, 7.5, -3.0)),
    (1, (3.5, 4.0, 2.0)),
    (1, (0.5, -20.0, 0.25)),  # below 1 MW: not a loss
    (1, (120.0, -120.0, 1.0)),
    (1, (6.0 - 1e-12, 1.0 - 1e-12, -1.0 + 1e-12)),  # whole MW but for round-off
]


def system(n, caps, lfu, peaks, step, years, sel):
    areas = [dict(peak=p, lfu=f) for p, f in zip(peaks, lfu)]
    units = [dict(area=i, caps=c) for i, c in enumerate(caps)]
    lines = [dict(a=i, b=i + 1, states=[(-2.0, 50, 50, 1.0)]) for i in range(n - 1)]
    # three kinds of day: the pool's peak in the first, a middle and the last hour
    day = np.full((n, 24), 128.0)
    rows = np.zeros((n, 365, 24))
    for d in range(365):
        x = day.copy()
        if sel == "sharp":
            h = (0, 11, 23)[d % 3]
            x[:] = 96.0
            x[:, h] = 128.0
        elif sel == "whole":  # loads in whole MW, as they stand in the load file
            x = np.array([[peaks[i] - (d * 24 + h) * (7 + 4 * i) % (peaks[i] - 40) for h in range(24)] for i in range(n)])
        rows[:, d] = x
    if sel == "whole":
        for i in range(n):
            rows[i, 0, 0] = peaks[i]
    return csvsys.Sys(areas, units, lines, shape=rows.reshape(n, 8760), STEP=step, FREQ=1, FIN=years, IN=99, CVT=1e-9)


def one(R, case):
    n, caps, lfu, peaks, step, years, sel, base = case
    S = system(n, caps, lfu, peaks, step, years, sel)
    NT = ref.tiers(S).shape[1]
    seqs = list(itertools.product(range(len(ANS)), repeat=min(NT, 4)))
    got, want = [], []

    def answer(hour_index, tier):
        s = seqs[(base + hour_index) % len(seqs)]
        return ANS[s[min(tier, len(s) - 1)]]


    def tr(call, a):
        c = float(a["CLOCK"])
        # index of the simulated hour: the event clock is the number of the hour
        idx = int((c - step) // step)
        load = np.asarray(a["CAPREQ"], float)[:n].tolist()
        tier = tiers_of(load)
        f, u = answer(idx, tier)
        got.append(("T", idx, tier))
        return f, np.zeros(len(a["LNSTAT"])), np.array(u[:n])

    def tiers_of(load):
        # the tier is recognised by the load it asks for
        best = min(range(NT), key=lambda t: np.abs(T[:, t] * cur["load"] - load).max())
        return best

    T = ref.tiers(S)
    cur = {"load": np.array(peaks, float) * 1.0}

    def h(call, a):
        got.append(("H", int(a["NST"]), [float(x) for x in a["MARGIN"]]))
        return call()

    def p(call, a):
        got.append(("P", int(a["NST"]), [float(x) for x in a["MARGIN"]]))
        return call()

    # expected
    exp = []
    L = []
    for i, r in enumerate(ref.hours(S, years)):
        L.append(r.load[:, NT // 2] if NT > 1 else r.load[:, 0])
        for t in range(NT):
            m = np.trunc(np.round(r.located - r.load[:, t], 6))
            if (m >= 0).all():
                break
            if not (m < 0).all():
                f, u = answer(i, t)
                exp.append(("T", i, t))
                if not f:
                    break
                m = np.trunc(np.round(-np.array(u[:n]), 6))
                if (m >= 0).all():
                    break
            exp.append(("H", t, m.tolist()))
            if r.peak:
                exp.append(("P", t, m.tolist()))

    orig = tr

    def tr2(call, a):
        idx = int((float(a["CLOCK"]) - step) // step)
        if not 0 <= idx < len(L):
            raise Violation("clock", "the transmission calculation was asked at clock %s" % a["CLOCK"])
        cur["load"] = L[idx]
        return orig(call, a)

    sim.run(
        S,
        {core.fn("monte_carlo.transm"): tr2, core.fn("monte_carlo.hrstat"): h, core.fn("monte_carlo.pkstat"): p},
    )
    R.states += len(L)
    R.transitions += len(exp)
    norm = [(e[0], e[1], [x + 0.0 for x in e[2]]) if e[0] != "T" else e for e in got]
    exp = [(e[0], e[1], [x + 0.0 for x in e[2]]) if e[0] != "T" else e for e in exp]
    if norm != exp:
        k = next((i for i, (a, b) in enumerate(zip(norm, exp)) if a != b), min(len(norm), len(exp)))
        raise Violation(
            "decision",
            "%d areas, capacity %s, peaks %s, uncertainty %s, step %d: event %d is %s, expected %s (after %s); %d events, expected %d"
            % (n, caps, peaks, lfu, step, k, norm[k : k + 2], exp[k : k + 2], exp[max(0, k - 3) : k], len(norm), len(exp)),
        )
    for e in exp:
        R.outcome("%s tier %d" % (e[0], e[2] if e[0] == "T" else e[1]))
    R.traces += 1
    R.sample({"areas": n, "caps": caps, "lfu": lfu, "peaks": peaks, "step": step, "events": len(exp)})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=240, part="%d areas, step %d" % (c[0], c[4]))


def run(R):
    cases = []
    # capacity is 100 in every area; the peak decides how many tiers are short
    lv = (64.0, 80.0, 96.0, 100.0, 100.5, 101.0, 112.0, 130.0)
    for peaks in itertools.product(lv, repeat=2):
        for lfu in ((0, 0), (10, 4), (0, 10)):
            if not core.THOROUGH and lfu != (10, 4) and lv.index(peaks[0]) % 2:
                continue
            cases.append((2, (100, 100), lfu, peaks, 1, 1, "sharp" if lfu[0] else "flat", 0))
    # every sequence of answers at daily peaks
    for peaks in ((64.0, 130.0), (96.0, 112.0), (112.0, 80.0), (90.0, 90.0)):
        for lfu in ((10, 4), (10, 12)):
            cases.append((2, (100, 100), lfu, peaks, 24, 4, "sharp", 0))
    for peaks in ((96.0, 112.0, 64.0), (112.0, 80.0, 130.0), (130.0, 130.0, 90.0), (130.0, 130.0, 130.0)):
        cases.append((3, (100, 100, 100), (10, 5, 8), peaks, 1, 1, "flat", 0))
    for peak in (90.0, 100.0, 100.9, 101.0, 130.0):
        for lfu in (0, 10):
            cases.append((1, (100,), (lfu,), (peak,), 1, 1, "sharp", 0))
    for peaks in ((190.0, 187.0), (153.0, 196.0), (179.0, 123.0)):
        for lfu in ((0, 0), (10, 0)):
            cases.append((2, (100, 101), lfu, peaks, 1, 1, "whole", 0))
    if core.THOROUGH:
        for p in range(103, 199):
            cases.append((2, (100, 101), (0, 0), (float(p), 250.0 - p / 2), 1, 1, "whole", p))
        for peaks in itertools.product((80.0, 96.0, 112.0, 130.0), repeat=3):
            cases.append((3, (100, 100, 100), (10, 5, 8), peaks, 1, 1, "sharp", 0))
            cases.append((3, (100, 100, 100), (10, 5, 8), peaks, 24, 4, "sharp", 7))
    core.pmap(R, chunk, [[c] for c in cases])
    return (
        {"answers": "%d answers of the dispatch, every sequence over the first four tiers" % len(ANS), "runs": len(cases),
         "areas": "1..3", "modes": "hourly and daily-peak", "load_levels": list(lv)},
        ["the dispatch is replaced by an enumerated environment (its own correctness: C11, C12)"],
    )  # fmt: skip
