"""C12  the two-pass emergency assistance between areas.

The transmission calculation is run on every point of grids over margins, firm
exports, line states, line and area limits, reference area and loss-sharing
mode, in long histories that share the network's stored state the way the
simulation does.  The oracle enumerates all optimal first-pass dispatches and
all vertices of the second-pass polytope.
"""
import itertools

import numpy as np

from mc import core, netref
from mc.core import Violation

CAP0 = np.array([400.0, 500.0, 600.0, 450.0])


def one(R, case):
    n, lines, caps, states, margins, cons, al, nr, nls, mw, adm = case
    caps = [c * mw for c in caps]
    lines = [(a, b, y * adm) for a, b, y in lines]
    CAP, eps = CAP0 * mw, max(mw, 1)
    tr = core.fn("monte_carlo.transm")
    L = len(lines)
    lp = np.array([[k, a, b] for k, (a, b, y) in enumerate(lines)], dtype=int).reshape(-1, 3)
    # six states per line: full, half, weak, out, reversed limits, full
    kinds = [(1, 1, 1), (0.5, 0.5, 0.5), (1, 0.25, 1), (0, 0, 0), (1, 1, 0.25), (1, 1, 1)]
    blpa = np.array([[x for k in kinds for x in (-y * k[0], c * k[1], c * k[2])] for (_, _, y), c in zip(lines, caps)]).reshape(-1, 18)
    bn = np.zeros((n, 5))
    bn[:, 0] = range(n)
    al = np.broadcast_to(np.asarray(al, float) * mw, n)
    bn[:, 3:] = al[:, None]
    bb, zb, lt, blp0 = np.zeros((n, n)), np.zeros((n, n)), np.zeros(n, int), np.zeros(L)
    turn = 0
    for st in states:
        k = [kinds[s - 1] for s in st]
        N = netref.Net(n, [(a, b, y * x[0]) for (a, b, y), x in zip(lines, k)])
        f = np.array([c * x[1] for c, x in zip(caps, k)])
        g = np.array([c * x[2] for c, x in zip(caps, k)])
        for con in cons:
            con = np.array(con, float) * mw
            for mg in margins:
                mg = np.array(mg, float) * mw
                if (mg >= 0).all() or (mg < 0).all():
                    continue
                keep = blpa.copy()
                with core.time_limit(8):
                    loss, flow, sadj = tr(
                        int(turn % 3 != 0), 0, 5.0, 5, 0, bn, blpa, blp0, bb, lt, zb, lp, nr, np.ones((L, 2)),
                        np.array(st, dtype=int), nls, con / 2, con / 2, CAP[:n] + mg, CAP[:n].copy(), np.ones(1), np.ones(1),
                    )  # fmt: skip
                turn += 1
                sadj = np.asarray(sadj, float)
                R.states += 1
                R.transitions += 1
                what = "%d areas, lines %s, capacities %s, states %s, area limit %s, ref %d, %s: margins %s, firm exports %s" % (
                    n, lines, caps, st, al.tolist(), nr, "no sharing" if nls else "sharing", mg.tolist(), con.tolist())  # fmt: skip
                if not np.array_equal(keep, blpa):
                    raise Violation("data", what + ": the line data were changed")
                if np.abs(bn[:, 3:] - al[:, None]).max() > 1e-6 * eps:
                    raise Violation("restore", what + ": the area limits were changed to %s" % bn[:, 3:].tolist())
                ok, want = netref.accept(N, n, mg, con, f, g, al, CAP[:n], nls, loss, sadj, eps)
                if ok is None:
                    R.outcome("ambiguous first pass")
                    R.skipped += 1
                    # still: total unserved can never undercut the free optimum
                    continue
                if not ok:
                    raise Violation(
                        "assistance", "%s: loss %s, unserved %s, expected %s" % (what, loss, sadj.tolist(), want[:3])
                    )
                R.outcome("loss" if loss else "no loss")
    R.traces += 1
    R.sample({"areas": n, "lines": lines, "caps": caps, "no_sharing": nls})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=240, part="%d areas/%d lines" % (c[0], len(c[1])))


PAIR = [(0, 1, 1.0)]
CHAIN = [(0, 1, 1.0), (2, 1, 2.0)]
TRI = [(0, 1, 1.0), (1, 2, 1.0), (0, 2, 1.0)]
STAR4 = [(0, 2, 1.0), (2, 1, 1.0), (3, 2, 2.0)]
RING4 = [(0, 1, 1.0), (1, 2, 1.0), (2, 3, 1.0), (3, 0, 2.0)]


def run(R):
    cases = []

    def add(n, lines, capsets, states, margins, cons, als, split=1, mw=1, adm=1):
        for caps in capsets:
            for al in als:
                for nr in range(n):
                    for nls in (0, 1):
                        for st in core.chunked(states, split):
                            cases.append((n, lines, caps, st, margins, cons, al, nr, nls, mw, adm))

    m2 = list(itertools.product((-70, -45.5, -3, 0, 20.25, 100), repeat=2))
    c2 = [(0, 0), (60, -60), (-50, 50), (90, -30), (-20, -20), (15, 15)]
    m3 = list(itertools.product((-70, -45, 0, 100), repeat=3))
    c3 = [(0, 0, 0), (60, -60, 0), (-50, 20, 30), (90, -30, -60)]
    add(2, PAIR, [(100,), (30,), (60,)], [(s,) for s in (1, 2, 3, 4, 5)], m2, c2, (1000, 45), 5)
    add(3, CHAIN, [(100, 100), (40, 55)], [(1, 1), (2, 1), (1, 3), (5, 1), (4, 1)], m3, c3, (1000, 45))
    s3 = [(1, 1, 1), (1, 4, 1), (4, 1, 1), (2, 1, 1), (4, 4, 1), (3, 1, 5)]
    add(3, TRI, [(100,) * 3, (15, 70, 40)], s3, m3, c3, (1000, 45))
    # limits that differ from area to area, and exports that leave a part of them
    c4 = [(20, -20), (-15, 15), (30, -10)]
    add(2, PAIR, [(100,), (60,)], [(s,) for s in (1, 4)], m2, c4, (45, (45, 1000), (1000, 45), (25, 60)), 2)
    c5 = [(20, -20, 0), (-10, -10, 20), (15, 10, -25)]
    add(3, CHAIN, [(100, 100)], [(1, 1), (1, 2)], m3, c5, ((45, 1000, 1000), (1000, 45, 60), (30, 80, 45)))
    add(3, TRI, [(100,) * 3, (15, 70, 40)], [(1, 1, 1), (1, 4, 1)], m3, c5, ((45, 1000, 1000), (1000, 60, 45), (30, 80, 45)))
    # areas that no line connects
    add(2, [], [()], [()], m2, c2, (1000, 45))
    add(3, [], [()], [()], m3, c3, (1000,))
    for l in ([(0, 1, 1.0)], [(1, 2, 1.0)], [(2, 0, 2.0)]):
        add(3, l, [(100,), (40,)], [(1,), (2,), (4,)], m3, c3, (1000, 45), 2)
    # other magnitudes: small and large systems, admittances in other units
    for mw, adm in ((0.05, 1), (30, 1), (1, 150), (1, 0.02)):
        add(2, PAIR, [(60,)], [(1,), (2,), (5,)], m2, c2, (1000, 45), 3, mw, adm)
        add(3, CHAIN, [(40, 55)], [(1, 1), (2, 1)], m3, c3, (1000,), 2, mw, adm)
        add(3, TRI, [(15, 70, 40)], [(1, 1, 1), (2, 1, 1)], m3, c3, (1000,), 2, mw, adm)
    # four areas
    m4 = list(itertools.product((-70, 15, 100), repeat=4))
    add(4, STAR4, [(15, 70, 40)], [(1, 1, 1), (4, 1, 2)], m4, [(0, 0, 0, 0), (10, 10, -30, 10), (-5, 20, -5, -10)], (1000,))
    add(4, RING4, [(65, 70, 80, 60)], [(1, 1, 1, 1), (1, 4, 1, 1)], m4, [(0, 0, 0, 0), (-10, 20, -15, 5)], (1000,))
    if core.THOROUGH:
        s3 = list(itertools.product((1, 2, 3, 4, 5), repeat=3))
        add(3, TRI, [(15, 70, 40), (30, 30, 30)], s3, m3, c3 + [(-30, -30, 60), (10, 10, 10)], (1000, 45))
        m4 = list(itertools.product((-70, 15, 100), repeat=4))
        add(4, RING4, [(15, 70, 40, 30)], [(1, 1, 1, 1), (1, 4, 1, 1), (2, 1, 3, 5)], m4,
            [(0, 0, 0, 0), (60, -60, 0, 0), (-50, 20, 30, 0)], (1000, 45))  # fmt: skip
    core.pmap(R, chunk, [[c] for c in cases])
    return (
        {"margins": "{-70..100}^areas", "firm_exports": "4..6 vectors", "line_states": "full, half, one-way reduced (both ways), out",
         "networks": "pair, chain, triangle, star and ring of 4, networks without all lines; all reference areas, area limits (equal and per area), sharing and no sharing",
         "magnitudes": "all MW values x 0.05..30, admittances x 0.02..150",
         "histories": "all margin/export/state points of a case run through one shared network state"},
        ["where the first pass has several optimal dispatches at different vertices and no vertex explains the result, the point is counted as ambiguous and not judged"],
    )
