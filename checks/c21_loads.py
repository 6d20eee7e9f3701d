"""C21  the load of every hour, and the hour of every daily peak.

Whole programs on load shapes that enumerate: every pair of peak hours of two
areas, every subset of tied peak hours, blocks of the load file in any order
(up to 12 areas), scales of shape and peak, and forecast-uncertainty vectors.
The load asked for in every hour and forecast tier is compared with shape x
peak x multiplier, and daily-peak runs must visit the pool's peak hour.  The
weekly peaks printed before maintenance planning are those of the net loads.
"""
import itertools

import numpy as np

from mc import core, csvsys, ref, sim
from mc.core import Violation


def system(shape, peaks, lfu, **kw):
    n = len(peaks)
    # the first area is short in every hour, the others never
    return csvsys.Sys(
        [dict(peak=p, lfu=f) for p, f in zip(peaks, lfu)],
        [dict(area=i, caps=1.0 if i == 0 else 1000000.0) for i in range(n)],
        [dict(a=i, b=i + 1, states=[(-2.0, 50, 50, 1.0)]) for i in range(n - 1)],
        shape=shape,
        **kw,
    )


def compare(R, S, what):
    got = sim.inputs(S, loss=True)
    T = ref.tiers(S).shape[1]
    want = list(ref.hours(S, S.mc["FIN"]))
    if len(got) != len(want) * T:
        raise Violation("hours", "%s: %d dispatches, expected %d hours x %d tiers" % (what, len(got), len(want), T))
    for k, w in enumerate(want):
        for t in range(T):
            g = got[k * T + t]
            if S.mc["STEP"] == 24 and int(g["JHOUR"]) % 8760 != w.hour:
                raise Violation("peak", "%s: day %d is studied at hour %d, the pool's peak is at hour %d" % (
                    what, w.day + 1, int(g["JHOUR"]) - 24 * w.day, w.hour - 24 * w.day))  # fmt: skip
            if np.abs(g["CAPREQ"] - w.load[:, t]).max() > 1e-6 * (1 + np.abs(w.load[:, t]).max()):
                raise Violation(
                    "load", "%s: day %d hour %d tier %d: loads %s, expected %s"
                    % (what, w.day + 1, w.hour % 24, t, g["CAPREQ"].tolist(), w.load[:, t].tolist()))  # fmt: skip
    R.states += len(want) * T
    R.transitions += len(got)
    R.traces += 1


def weekly(R, case):
    """The weekly peaks printed before the maintenance is planned."""
    _, n, base, contracts, plan = case
    rows = np.zeros((n, 365, 24))
    for i in range(n):
        k = 0
        for w in range(52):
            days = 8 if w == 51 else 7
            d, h = (base + w * (3 + i)) % days, (base + w * 5 + 7 * i) % 24
            for x in range(days):
                rows[i, 7 * w + x] = 20 + (np.arange(24) * 5 + x + w) % 11
            rows[i, 7 * w + d, h] = 60 + (w * (7 + i) + k) % 37
    if base == 7:
        rows[:, 364, 23] = 110.0
    S = csvsys.Sys(
        [dict(peak=float(rows[i].max()) * (1.5 + i)) for i in range(n)],
        [dict(area=i, caps=100.0, **({"b1": 2 + i, "d1": 3} if plan else {})) for i in range(n) for _ in range(2)],
        [dict(a=i, b=i + 1, states=[(-2.0, 50, 50, 1.0)]) for i in range(n - 1)],
        contracts, shape=rows.reshape(n, 8760), M=1,
    )  # fmt: skip

    def stop(call, a):
        raise sim.Stop()

    out, _ = sim.run(S, {core.fn("monte_carlo.contrl"): stop})
    net = ref.loads(S) + np.repeat(ref.exports(S), 24, axis=1)
    parts = out.split("WEEKLY PEAK LOAD BEFORE MAINTENANCE SCHEDULING")[1:]
    if len(parts) != n:
        raise Violation("weekly", "weekly peaks printed for %d areas of %d" % (len(parts), n))
    for i, p in enumerate(parts):
        got = [float(x) for x in p.split()[:52]]
        day = net[i].reshape(365, 24).max(axis=1)
        want = [day[7 * w : 7 * w + (8 if w == 51 else 7)].max() for w in range(52)]
        for w in range(52):
            if abs(got[w] - want[w]) > 1e-4:
                raise Violation("weekly", "area %d, contracts %s: peak of week %d printed as %s, it is %.4f" % (i + 1, contracts, w + 1, got[w], want[w]))
    R.states += 52 * n
    R.transitions += 1
    R.traces += 1


def one(R, case):
    kind = case[0]
    if kind == "weekly":
        weekly(R, case)
        R.outcome(kind)
        R.sample({"case": case})
        return
    if kind == "pair":
        _, tops, base = case
        pairs = (list(itertools.product(range(24), repeat=2)) * 2)[base : base + 365]
        sh = np.full((2, 365, 24), 10.0)
        for d, (a, b) in enumerate(pairs):
            sh[0, d, a] = tops[0]
            sh[1, d, b] = tops[1]
        S = system(sh.reshape(2, 8760), tops, (0, 0), STEP=24, FREQ=24)
        compare(R, S, "peak hours of two areas %s" % (tops,))
    elif kind == "ties":
        _, n, hrs = case
        subs = [s for k in range(1, len(hrs) + 1) for s in itertools.combinations(hrs, k)]
        sh = np.full((n, 365, 24), 16.0)
        for d in range(365):
            s = subs[d % len(subs)]
            for i in range(n):
                # the areas may peak elsewhere, only the sum ties
                sh[i, d, list(s)] = 64.0
            if n > 1 and d >= len(subs):
                sh[0, d, s[-1]] += 32.0
                sh[1, d, s[-1]] -= 32.0
        S = system(sh.reshape(n, 8760), [float(sh[i].max()) for i in range(n)], [0] * n, STEP=24, FREQ=24)
        compare(R, S, "tied peak hours %s, %d areas" % (hrs, n))
    elif kind == "close":
        # the day's two highest totals differ by little, and each area's own
        # loads (or whole-MW loads) favour the lower one
        _, n, delta = case
        hs = list(itertools.permutations((0, 1, 7, 12, 22, 23), 2))
        sh = np.full((n, 365, 24), 5.25)
        for d in range(365):
            a, b = hs[d % len(hs)]
            sh[:, d, a] = 10.9
            sh[1:, d, b] = 10.0
            sh[0, d, b] = 10.9 * n - delta - 10.0 * (n - 1)
            if d >= 2 * len(hs):
                sh[:, d] *= 3.0
        S = system(sh.reshape(n, 8760), [float(sh[i].max()) for i in range(n)], [0] * n, STEP=24, FREQ=24)
        compare(R, S, "totals of two hours of the day differ by %g MW, %d areas" % (delta, n))
    elif kind == "scale":
        _, n, scale, peaks, order, step = case
        sh = np.zeros((n, 8760))
        h = np.arange(8760)
        for i in range(n):
            sh[i] = 20 + (h * (7 + 2 * i)) % 53
            sh[i, (0, 8759, 4321, 24, 100)[i % 5]] = 90
        S = system(sh * scale, peaks, [0] * n, STEP=step, FREQ=24, order=order)
        compare(R, S, "%d areas, shape scaled by %s, peaks %s, load file in order %s" % (n, scale, peaks, order))
    else:
        _, lfu, step = case
        n = len(lfu)
        sh = np.zeros((n, 8760))
        h = np.arange(8760)
        for i in range(n):
            sh[i] = 8 + (h * (5 + 2 * i)) % 56
            sh[i, 700] = 64
        S = system(sh, [6400.0, 128.0, 512.0][:n], lfu, STEP=step, FREQ=24)
        compare(R, S, "forecast uncertainty %s percent" % (lfu,))
    R.outcome(kind)
    R.sample({"case": case})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=240, part=c[0])


def run(R):
    cases = []
    for tops in ((64.0, 32.0), (32.0, 64.0), (64.0, 64.0), (256.0, 11.0)):
        for base in (0, 300):
            cases.append(("pair", tops, base))
    for n in (2, 3):
        for hrs in ((0, 1, 11, 22, 23), (5, 6, 7), (0, 12, 23), (23, 22)):
            cases.append(("ties", n, hrs))
    for n in (2, 3, 4):
        for delta in (0.5, 0.01, 1e-4):
            cases.append(("close", n, delta))
    for n, order in ((2, (0, 1)), (2, (1, 0)), (3, (2, 0, 1)), (9, tuple(range(8, -1, -1))), (10, tuple(range(9, -1, -1))),
                     (12, (11, 0, 1, 9, 10, 2, 3, 4, 5, 6, 7, 8)), (12, tuple(range(12)))):  # fmt: skip
        for scale in (1.0, 0.37, 3000.0):
            peaks = [(1000.0, 1234.5, 64.0, 99999.0, 0.5)[i % 5] for i in range(n)]
            cases.append(("scale", n, scale, peaks, order, 24))
            if n <= 3 and scale != 1.0:
                cases.append(("scale", n, scale, peaks, order, 1))
    lf = (0, 3.5, 10, 26, 39)
    for v in itertools.product(lf, repeat=2):
        cases.append(("lfu", v, 24))
    for v in itertools.product((0, 8, 1), repeat=3) if core.THOROUGH else ((0, 0, 8), (5, 0, 8), (0, 6, 0), (1, 2, 3)):
        cases.append(("lfu", v, 24))
    cases.append(("lfu", (4, 2), 1))
    cases.append(("lfu", (0, 0, 0), 1))
    if core.THOROUGH:
        for o in itertools.permutations(range(4)):
            cases.append(("scale", 4, 2.5, [100.0, 200.0, 300.0, 400.0], o, 24))
        for base in range(0, 576, 24):
            cases.append(("pair", (64.0, 63.0), base))
    for n in (1, 2, 3):
        for base in range(8):
            for con in ([], [(0, 1, 20, 200, 33.5), (1, 0, 180, 365, 12.0)], [(1, 0, 1, 1, 70.0), (0, 1, 365, 365, 90.0)]):
                if n > 1 or not con:
                    cases.append(("weekly", n, base, con, base % 2))
    cases.sort(key=lambda c: 0 if c[-1] == 1 else 1)
    core.pmap(R, chunk, [[c] for c in cases])
    return ({"peak_hours": "all 24x24 pairs", "ties": "all subsets of 5 hours", "areas": "2..12", "weekly_peaks": "8 positions in the week x contracts, 1..3 areas", "uncertainty": "vectors over 5 values up to 39 percent"}, [])
