"""C26  the drawn line states decide the limits and admittances in use.

Whole runs.  The drawing of line states is the environment: every assignment of
states to the lines, and every pair of consecutive assignments, is drawn at
some time.  One area is short by far more than the lines can carry, so the
recorded loss reveals the transfer capability, which the reference computes
from the user's line table (parallel lines share the flow by admittance).
"""
import itertools

import numpy as np

from mc import core, csvsys, sim
from mc.core import Violation

DEFICIT = 5000.0


def table(k, shape):
    """Six states (admittance, forward, backward, probability) of line k."""
    base = {
        "caps": [(-100.0, 100 + 7 * s + 50 * k, 300 - 11 * s - 30 * k, 1 / 6) for s in range(6)],
        "adms": [(-(40.0 + 30 * s + 25 * k), 200 + 20 * k, 260 - 20 * k, 1 / 6) for s in range(6)],
        "both": [(-(30.0 + 17 * s * (k + 1)), 80 + 13 * s + 40 * k, 210 + 9 * k - 17 * s, 1 / 6) for s in range(6)],
        "down": [(-1000.0, 150 - 40 * s, 40 * s + 35, 0.25) for s in range(3)] + [(0.0, 0.0, 0.0, 0.25)] + [(-1000.0, 77, 99, 0.0)] * 2,
        "more": [(-(40.0 + 9 * s), 30 + 25 * s + 5 * k, 20 + 31 * s + 4 * k, 1 / 6) for s in range(6)],
        "weak": [(-(0.5 + 0.3 * s * (k + 1)), 60 + 17 * s + 10 * k, 95 - 9 * s + 4 * k, 1 / 6) for s in range(6)],
        "strong": [(-(2e4 + 3e3 * s + 500 * k), 100.5 + 9 * s + 20 * k, 85.25 + 6 * s, 1 / 6) for s in range(6)],
        "few": [(-50.0, 120 + 10 * k, 90, 0.5), (-25.0, 60, 45 + 5 * k, 0.5)],
    }  # fmt: skip
    return base[shape]


def euler(n):
    """A cyclic walk over all ordered pairs of n letters (de Bruijn sequence of order 2)."""
    edges = {a: list(range(n)) for a in range(n)}
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if edges[v]:
            stack.append(edges[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def capability(lines, st, ab):
    """Most that can be sent over parallel lines in states st (0..5)."""
    rows = [l["states"][s] for l, s in zip(lines, st)]
    ys = np.array([abs(r[0]) for r in rows])
    caps = np.array([(r[1] if d == ab else r[2]) for r, d in zip(rows, [l["a"] == 0 for l in lines])], float)
    if len(rows) == 1 and ys[0] == 0:
        return 0.0, 1.0  # a line that is out carries (practically) nothing
    up = ys > 0
    t = float((caps[up] / ys[up]).min() * ys[up].sum()) if up.any() else 0.0
    return t - 1e-9, t + 1e-9


def one(R, case):
    nl, shape, flip, ab, step, sharing, seq = case
    lines = []
    for k in range(nl):
        a, b = (1, 0) if flip >> k & 1 else (0, 1)
        lines.append(dict(a=a, b=b, states=table(k, shape)))
    years = -(-len(seq) // 365) if step == 24 else 1
    needy, giver = (1, 0) if ab else (0, 1)
    areas = [dict(peak=6000.0), dict(peak=6000.0)]
    units = [dict(area=needy, caps=6000.0 - DEFICIT), dict(area=giver, caps=20000.0)]
    S = csvsys.Sys(areas, units, lines, STEP=step, FREQ=step, FIN=years, LS=0 if sharing else 1, MAXE=10**6)
    draws, got = [], []

    def draw(call, a):
        call()
        s = seq[len(draws) % len(seq)]
        draws.append(s)
        return np.array([x + 1 for x in s], dtype=np.int32)

    def rec(call, a):
        got.append((len(draws), [float(x) for x in a["MARGIN"]]))
        if step == 1 and len(draws) > len(seq):
            raise sim.Stop()
        return call()

    sim.run(S, {core.fn("monte_carlo.lstate"): draw, core.fn("monte_carlo.pkstat" if step == 24 else "monte_carlo.hrstat"): rec})
    R.transitions += len(draws)
    if len(got) < len(seq):
        raise Violation("visits", "%d losses recorded for %d hours" % (len(got), len(seq)))
    last = 0
    for i, (d, m) in enumerate(got):
        if d != last + 1:
            raise Violation("visits", "loss %d was recorded after draw %d" % (i, d))
        last = d
        s = draws[d - 1]
        lo, hi = capability(lines, s, bool(ab))
        loss = -m[needy]
        R.states += 1
        if not (DEFICIT - hi - 1.001 <= loss <= DEFICIT - lo + 0.001):
            raise Violation(
                "limits",
                "%d line(s) %s from area %d to %d in states %s (before: %s), %s: %g MW short although the lines can carry %g of %g MW"
                % (nl, [l["states"][x][:3] for l, x in zip(lines, s)], giver + 1, needy + 1, [x + 1 for x in s],
                   [x + 1 for x in draws[d - 2]] if d > 1 else None, "sharing" if sharing else "no sharing", loss, hi, DEFICIT))  # fmt: skip
        R.outcome(round(loss, -1))
    R.traces += 1
    R.sample({"lines": nl, "table": shape, "reversed": flip, "states": len(set(draws))})


def derated(R, case):
    """Rating multipliers of a line scale its limits, for one call only."""
    nl, shape, flip, ab, sharing = case
    tr = core.fn("monte_carlo.transm")
    lines = [dict(a=(flip >> k & 1), b=1 - (flip >> k & 1), states=table(k, shape) + [(0.0,) * 4] * (6 - len(table(k, shape)))) for k in range(nl)]
    blpa = np.array([[x for s in l["states"] for x in s[:3]] for l in lines])
    lp = np.array([[k, l["a"], l["b"]] for k, l in enumerate(lines)])
    bn = np.zeros((2, 5))
    bn[:, 0], bn[:, 3:] = range(2), 99999
    bb, zb, lt, blp0 = np.zeros((2, 2)), np.zeros((2, 2)), np.zeros(2, int), np.zeros(nl)
    turn = 0
    needy, giver = (1, 0) if ab else (0, 1)
    load = np.full(2, 6000.0)
    cap = np.zeros(2)
    cap[needy], cap[giver] = 6000 - DEFICIT, 20000.0
    pool = (1.0, 0.5, 0.25) if nl < 3 else (1.0, 0.5)
    for st in itertools.product((0, 1) if nl > 1 else (0, 1, 2), repeat=nl):
        for mult in itertools.product(pool, repeat=2 * nl):
            m = np.array(mult).reshape(nl, 2)
            keep = blpa.copy()
            loss, flow, sadj = tr(
                int(turn % 3 == 2), 0, 5.0, 5, 0, bn, blpa, blp0, bb, lt, zb, lp, 0, m.copy(), np.array(st) + 1, 0 if sharing else 1,
                np.zeros(2), np.zeros(2), cap.copy(), load.copy(), np.ones(1), np.ones(1))  # fmt: skip
            turn += 1
            R.states += 1
            R.transitions += 1
            if not np.array_equal(keep, blpa):
                raise Violation("data", "the line table was changed")
            L2 = [dict(l, states=[(s[0], s[1] * m[k, 0], s[2] * m[k, 1], s[3]) for s in l["states"]]) for k, l in enumerate(lines)]
            lo, hi = capability(L2, st, bool(ab))
            un = float(np.asarray(sadj)[needy])
            if not (DEFICIT - hi - 1e-4 <= un <= DEFICIT - lo + 1e-4):
                raise Violation("derating", "line table %s, states %s, rating multipliers %s: %g MW short, the lines can carry %g of %g MW" % (
                    [l["states"] for l in lines], st, mult, un, hi, DEFICIT))  # fmt: skip
    R.traces += 1


def zzdd(R, case):
    """A derating the user asked for while a unit is out (recorded finding)."""
    which, pct = case
    units = [dict(area=1, caps=1000.0), dict(area=0, caps=20000.0), dict(area=0, caps=10.0, b1=1, d1=52), dict(area=0, caps=10.0)]
    if which == "two":
        units[3].update(b1=1, d1=52)
    S = csvsys.Sys([dict(peak=6000.0)] * 2, units, [dict(a=0, b=1, states=[(-100.0, 200.0, 300.0, 1.0)])],
                   derate=[(0, [2] if which != "two" else [2, 3], pct, pct)], STEP=24, FREQ=24, FIN=1, MAXE=10**6)  # fmt: skip
    got = []

    def rec(call, a):
        got.append([float(x) for x in a["MARGIN"]])
        return call()

    sim.run(S, {core.fn("monte_carlo.pkstat"): rec})
    R.states += len(got)
    R.transitions += len(got)
    want = -(5000.0 - 200 * pct / 100.0)
    if any(abs(m[1] - want) > 1.001 for m in got[:364]):
        raise Violation("zzdd-" + which, "a line limit of 200 MW is to be multiplied by %g%% while its unit(s) are out: margin %g, expected %g" % (pct, got[0][1], want))
    R.traces += 1


KIND = {"run": one, "derated": derated, "zzdd": zzdd}


def chunk(R, cases):
    for kind, c in cases:
        R.case(KIND[kind], c, limit=200, part=kind)


def run(R):
    cs = []
    for shape in ("caps", "adms", "both", "down", "few", "more", "weak", "strong"):
        for nl in (1, 2, 3):
            ns = {"down": 4, "few": 2}.get(shape, 6)
            if shape == "down" and nl > 1 or shape in ("weak", "strong") and nl > 2 and not core.THOROUGH:
                continue
            letters = list(itertools.product(range(ns), repeat=nl))
            if len(letters) > 40:
                # every assignment; every pair of states of the single lines in sequence
                seq = letters + [letters[(i * 37 + 11) % len(letters)] for i in range(365)]
                if core.THOROUGH:
                    seq = [letters[i] for i in euler(len(letters))][: 365 * 20]
            else:
                seq = [letters[i] for i in euler(len(letters))]
            for flip in range(2**nl) if nl < 3 or core.THOROUGH else (0, 5):
                for ab in (1, 0):
                    for sharing in (0, 1):
                        cs.append(("run", (nl, shape, flip, ab, 24, sharing, seq)))
            cs.append(("run", (nl, shape, 1, 1, 1, 0, seq[:1500])))
            if shape != "down":
                for flip in range(2**nl):
                    for ab in (1, 0):
                        cs.append(("derated", (nl, "few" if shape == "few" else shape, flip, ab, nl % 2)))
    for which in ("one", "two"):
        for pct in (50,):
            cs.append(("zzdd", (which, pct)))
    core.pmap(R, chunk, core.chunked(cs, 3))
    return (
        {"lines": "1..3 parallel lines, 8 tables of up to 6 states, every orientation", "states": "every assignment; every ordered pair of assignments for up to 36 assignments",
         "multipliers": "grids of 3 (2) rating multipliers per direction"},
        ["a line listed with zero admittance and capacity counts as able to carry at most 1 MW (single line only)",
         "line deratings tied to units are not implemented (recorded finding)"],
    )  # fmt: skip
