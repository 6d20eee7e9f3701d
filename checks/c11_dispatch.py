"""C11  one network dispatch is feasible and curtails as little as possible.

The network solver is run on every point of grids over topology, line state,
reference area, injections, line limits (also direction dependent), area limits
and loss-sharing mode.  The reference enumerates every vertex of the dispatch
polytope, so it needs no solver.
"""
import itertools

import numpy as np

from mc import core, netref
from mc.core import Violation

EPS = 1e-6

RADIAL = [(0, 1, 1.0), (1, 2, 2.0)]
TRIANGLE = [(0, 1, 1.0), (1, 2, 1.0), (0, 2, 1.0)]
SKEWED = [(0, 1, 2.0), (1, 2, 3.0), (2, 0, 1.0), (0, 1, 1.0)]  # parallel lines
STAR4 = [(0, 1, 1.0), (2, 0, 1.0), (0, 3, 2.0)]
RING4 = [(0, 1, 1.0), (1, 2, 1.0), (2, 3, 1.0), (3, 0, 2.0)]
MESH4 = [(0, 1, 1.0), (1, 2, 1.0), (2, 3, 1.0), (3, 0, 2.0), (0, 2, 0.5)]
BIG = ("chain", "binary", "comb", "stars", "triangles")
PAIR = [(0, 1, 1.0)]
TWO2 = [(0, 1, 1.0), (3, 2, 2.0)]
PAIR2 = [(0, 1, 1.0), (1, 0, 2.0)]
RING5 = [(0, 1, 1.0), (1, 2, 1.0), (3, 2, 2.0), (3, 4, 1.0), (4, 0, 1.0)]
STAR5 = [(2, 0, 1.0), (2, 1, 1.0), (3, 2, 1.0), (4, 2, 2.0)]
LENS5 = [(0, 1, 1.0), (1, 4, 1.0), (0, 2, 1.0), (2, 4, 2.0), (3, 0, 1.0), (4, 3, 1.0)]
PATH6 = [(0, 1, 1.0), (2, 1, 1.0), (2, 3, 2.0), (4, 3, 1.0), (4, 5, 1.0)]
TREE7 = [(0, 3, 1.0), (1, 3, 2.0), (3, 4, 1.0), (4, 2, 1.0), (4, 5, 1.0), (6, 5, 1.0)]
LOD = np.array([100.0, 200.0, 300.0, 150.0, 250.0, 120.0, 180.0])


def solve(n, lines, state, inj, lod, fwd, bwd, al, nr, nls):
    tm1, tm2 = core.fn("monte_carlo.tm1"), core.fn("monte_carlo.tm2")
    lp = np.array([[k, a, b] for k, (a, b, _) in enumerate(lines)], dtype=int).reshape(-1, 3)
    blp = np.array([[-float(y), f, g] for (_, _, y), f, g in zip(lines, fwd, bwd)]).reshape(-1, 3)
    bn = np.zeros((n, 5))
    bn[:, 0] = range(n)
    bn[:, 1] = lod
    bn[:, 2] = inj
    bn[:, 3], bn[:, 4] = al  # imports, exports
    blp0, bb, lt, zb = tm1(bn, lp, blp, nr)
    keep = np.array(bb), np.array(zb)
    blp[:, 0] *= np.array(state)
    out = tm2(bn, lp, blp, blp0, bb, zb, lt, nr, nls, np.zeros((n, 6)), 0, 0, 0, 0, np.ones(1), np.ones(1))
    drift = max(np.abs(bb - keep[0]).max(), np.abs(zb - keep[1]).max())
    return bn, np.asarray(out[0], float), drift


def limits(al, n):
    """Limits on the imports and on the exports of every area."""
    imp, exp = al if isinstance(al, tuple) else (al, al)
    return np.broadcast_to(np.asarray(imp, float), n), np.broadcast_to(np.asarray(exp, float), n)


def one(R, case):
    n, lines, state, levels, fwd, bwd, al, nr, nls, mw, adm = case
    EPS = 1e-6 * max(mw, 1)
    levels, fwd, bwd = ([x * mw for x in v] for v in (levels, fwd, bwd))
    al = tuple(np.asarray(x, float) * mw for x in al) if isinstance(al, tuple) else al * mw
    lines = [(a, b, y * adm) for a, b, y in lines]
    N = netref.Net(n, [(a, b, y * s) for (a, b, y), s in zip(lines, state)])
    f = np.array([c if s else 0.0 for c, s in zip(fwd, state)], float)
    g = np.array([c if s else 0.0 for c, s in zip(bwd, state)], float)
    lod = LOD[:n] * mw
    imp, exp = limits(al, n)
    for inj in itertools.product(levels, repeat=n):
        inj = np.array(inj, float)
        if nls:
            lo, hi = np.minimum(inj, 0), np.maximum(inj, 0)
        else:
            lo, hi = -lod, lod + inj
        best, _, _ = N.optimum(inj, lo, hi, f, g, imp, exp)
        judge(R, N, n, lines, state, fwd, bwd, al, nr, nls, mw, adm, inj, lo, hi, f, g, imp, exp, lod, best)
    R.traces += 1
    R.sample({"areas": n, "lines": lines, "line_states": state, "no_sharing": nls})


def judge(R, N, n, lines, state, fwd, bwd, al, nr, nls, mw, adm, inj, lo, hi, f, g, imp, exp, lod, best):
    EPS = 1e-6 * max(mw, 1)
    what = "%d areas, lines %s at %s, limits %s/%s, area limit %s, reference %d, %s, injections %s" % (
        n, lines, state, fwd, bwd, al, nr, "no sharing" if nls else "sharing", inj.tolist())  # fmt: skip
    R.states += 1
    R.transitions += 1
    with core.time_limit(8 if n < 10 else 120):
        bn, flow, drift = solve(n, lines, state, inj, lod, f, g, (imp, exp), nr, nls)
    net, cur = bn[:, 1], bn[:, 2]
    short = np.maximum(0, net - inj)
    if np.isnan(net).any() or np.isnan(flow).any():
        raise Violation("nan", what + ": NaN in the dispatch")
    if any(abs(net[i].sum()) > EPS for i in N.islands):
        raise Violation("balance", "%s: net injections %s do not balance" % (what, net.tolist()))
    if np.abs(N.flows(net) - flow).max(initial=0) > EPS:
        raise Violation("flow", "%s: flows %s, but DC flow gives %s" % (what, flow.tolist(), N.flows(net).tolist()))
    if (flow > f + EPS).any() or (-flow > g + EPS).any():
        raise Violation("line-limit", "%s: flows %s exceed the limits" % (what, flow.tolist()))
    if (net > exp + EPS).any() or (-net > imp + EPS).any():
        raise Violation("area-limit", "%s: net injections %s exceed the area limit" % (what, net.tolist()))
    if (net < lo - EPS).any() or (net > hi + EPS).any():
        raise Violation("range", "%s: net injections %s outside [%s, %s]" % (what, net.tolist(), lo.tolist(), hi.tolist()))
    if abs(short.sum() - best) > EPS:
        raise Violation("optimum", "%s: curtails %g, the optimum is %g" % (what, short.sum(), best))
    if np.abs(cur - short).max() > EPS:
        raise Violation("curtailment", "%s: reports curtailments %s for a dispatch short by %s" % (what, cur.tolist(), short.tolist()))
    if drift > 1e-7 * max(adm, 1 / adm):
        raise Violation("drift", "%s: the stored network matrices changed by %g" % (what, drift))
    R.outcome("curtails" if best > EPS else "serves all")


def bigtree(kind, n):
    """A tree of n areas: the lines alternate in direction and in admittance."""
    lines = []
    for k in range(1, n):
        a = {"chain": k - 1, "binary": (k - 1) // 2, "comb": k - 1 if k % 2 else max(k - 2, 0), "stars": k - k % 5 if k % 5 else k - 5}[kind]
        lines.append((a, k, 1.0 + k % 3) if k % 2 else (k, a, 1.0 + k % 3))
    return lines


def big(R, case):
    """Large networks: trees (the reference is a maximum flow) and many separate
    small networks (the reference is the sum of theirs)."""
    kind, n, word, nr, nls = case
    lod = np.array([100.0 + 10 * (i % 8) for i in range(n)])
    inj = np.array([word[i % len(word)] + i % 3 for i in range(n)], float)
    lines = bigtree(kind, n) if kind != "triangles" else [
        (3 * t + a, 3 * t + b, y * (1 + t % 2)) for t in range(n // 3) for a, b, y in TRIANGLE]  # fmt: skip
    f = np.array([15.0 + 11 * (k % 5) for k in range(len(lines))])
    g = np.array([30.0 + 13 * (k % 4) - 9 * (k % 3) for k in range(len(lines))])
    al = 35.0 if n % 2 else 1000.0
    imp = exp = np.full(n, al)
    if nls:
        lo, hi = np.minimum(inj, 0), np.maximum(inj, 0)
    else:
        lo, hi = -lod, lod + inj
    N = netref.Net(n, lines, bases=False)
    if kind == "triangles":
        best = 0.0
        for t in range(n // 3):
            k = slice(3 * t, 3 * t + 3)
            best += netref.Net(3, [(a - 3 * t, b - 3 * t, y) for a, b, y in lines[k]]).optimum(
                inj[k], lo[k], hi[k], f[k], g[k], imp[k], exp[k])[0]  # fmt: skip
    else:
        best = netref.tree_optimum(n, lines, inj, f, g, imp, exp)
    judge(R, N, n, lines, (1,) * len(lines), list(f), list(g), al, nr, nls, 1, 1, inj, lo, hi, f, g, imp, exp, lod, best)
    R.traces += 1
    R.sample({"large": kind, "areas": n, "lines": len(lines), "no_sharing": nls})


def chunk(R, cases):
    for c in cases:
        if c[0] in BIG:
            R.case(big, c, limit=240, part="%s of %d areas" % (c[0], c[1]))
        else:
            R.case(one, c, limit=240, part="%d areas/%d lines" % (c[0], len(c[1])))


def family(n, lines, states, levels, limits, als, mw=1, adm=1, refs=None):
    for st in states:
        for fwd, bwd in limits:
            for al in als:
                for nr in range(n) if refs is None else refs:
                    # (with loss sharing imports and exports always have the same limit)
                    for nls in (1,) if isinstance(al, tuple) and al[0] != al[1] else (0, 1):
                        yield (n, lines, st, levels, fwd, bwd, al, nr, nls, mw, adm)


def run(R):
    full = lambda k: list(itertools.product((1.0, 0.5, 0.0), repeat=k))  # noqa: E731
    n1 = lambda k: [(1.0,) * k] + [tuple(x if i == j else 1.0 for j in range(k)) for i in range(k) for x in (0.0, 0.5)]  # noqa: E731
    three, four = (-60, 0, 50), (-60, 10, 50)
    big = (999,) * 6
    cases = []
    cases += family(2, PAIR, full(1), (-60, -20, 0, 30, 50), [((100,), (100,)), ((20,), (20,)), ((20,), (5,)), ((5,), (100,))], (1000, 15))
    cases += family(2, PAIR2, full(2), (-60, -20, 0, 30, 50), [((100, 100), (100, 100)), ((20, 7), (5, 30))], (1000, 15))
    cases += family(3, RADIAL, full(2), three, [((100, 100), (100, 100)), ((20, 35), (10, 15))], (1000, 25))
    cases += family(3, TRIANGLE, full(3), three, [((20,) * 3, (20,) * 3), ((10, 100, 30), (30, 15, 8))], (1000, 25))
    cases += family(3, TRIANGLE, n1(3), (-60, -30, 0, 50), [(big[:3], big[:3])], (1000, 25))
    cases += family(3, SKEWED, n1(4), (-60, 10, 50), [((10, 100, 30, 5), (25, 9, 30, 40))], (1000, 35))
    cases += family(4, STAR4, n1(3), three, [((15, 25, 100), (30, 10, 20))], (1000,))
    cases += family(4, RING4, [(1.0,) * 4, (1, 0, 1, 1), (1, 1, 0, 0.5), (0, 1, 0, 1)], three, [((15, 25, 100, 40), (30, 10, 20, 40))], (1000, 45))
    # limits that differ from area to area and between imports and exports
    d2 = (((15, 1000), (15, 1000)), ((1000, 15), (1000, 15)), (1000, 25), (25, 1000), ((10, 40), (40, 10)), ((25, 1000), (25, 1000)))
    cases += family(2, PAIR, [(1.0,), (0.5,)], (-60, -20, 0, 30, 50), [((100,), (100,)), ((20,), (5,))], d2)
    d3 = (((25, 1000, 1000), (25, 1000, 1000)), ((1000, 25, 40), (1000, 25, 40)), (1000, 30), (30, 1000), ((10, 40, 30), (45, 15, 1000)))
    cases += family(3, RADIAL, [(1.0, 1.0), (1.0, 0.0)], three, [((100, 100), (100, 100))], d3)
    cases += family(3, TRIANGLE, [(1.0,) * 3, (1.0, 0.5, 1.0)], (-60, -30, 0, 50), [(big[:3], big[:3]), ((20,) * 3, (20,) * 3)], d3)
    # areas that no line connects
    cases += family(2, [], [()], (-60, -20, 0, 30, 50), [((), ())], (1000, 15))
    cases += family(3, [], [()], three, [((), ())], (1000,))
    for l in ([(0, 1, 1.0)], [(2, 1, 2.0)], [(2, 0, 1.0)]):
        cases += family(3, l, full(1), three, [((100,), (100,)), ((20,), (5,))], (1000, 25))
    cases += family(4, TWO2, [(1, 1), (1, 0), (0.5, 1)], three, [((100, 20), (100, 35))], (1000, 45))
    cases += family(4, TRIANGLE, [(1, 1, 1), (0.5, 1, 1), (1, 0, 1)], three, [((20, 35, 100), (20, 10, 15))], (1000,))
    # other magnitudes: small and large systems, admittances in other units
    for mw, adm in ((0.1, 1), (0.02, 30), (40, 1), (1, 120), (1, 0.01), (25, 400)):
        cases += family(2, PAIR, [(1.0,), (0.5,)], (-60, -20, 0, 30, 50), [((100,), (100,)), ((20,), (5,))], (1000, 15), mw, adm)
        cases += family(3, TRIANGLE, [(1.0,) * 3, (1.0, 0.0, 1.0)], three, [((20,) * 3, (20,) * 3)], (1000, 25), mw, adm)
        cases += family(4, STAR4, [(1.0, 1.0, 0.5)], three, [((15, 25, 100), (30, 10, 20))], (1000,), mw, adm)
    # more areas
    two = (-60, 50)
    cases += family(5, RING5, [(1,) * 5, (1, 0.5, 1, 1, 1), (1, 1, 0, 1, 1)], two, [((30, 15, 45, 100, 20), (20, 30, 35, 25, 10))], (1000, 45))
    cases += family(5, STAR5, [(1,) * 4, (1, 0, 1, 0.5)], (-60, 10, 50), [((30, 15, 45, 100), (20, 30, 35, 25))], (1000,))
    cases += family(5, LENS5, [(1,) * 6], two, [((30, 15, 45, 100, 20, 60), (20, 30, 35, 25, 10, 60))], (1000,))
    cases += family(6, PATH6, [(1,) * 5, (1, 1, 0, 1, 1)], two, [((30, 15, 45, 100, 20), (20, 70, 35, 25, 10))], (1000,), refs=(0, 3, 5))
    cases += family(7, TREE7, [(1,) * 6], two, [((30, 15, 45, 100, 20, 60), (20, 30, 85, 25, 10, 60))], (1000,), refs=(0, 4, 6))
    if core.THOROUGH:
        cases += family(3, SKEWED, full(4), (-60, 10, 50), [((10, 100, 30, 5), (10, 100, 30, 5)), ((10, 100, 30, 5), (25, 9, 30, 40))], (1000, 35))
        cases += family(3, TRIANGLE, full(3), (-60, -30, 0, 25, 50), [((10, 100, 30), (30, 15, 8)), ((20,) * 3, (20,) * 3)], (1000, 25))
        cases += family(4, RING4, full(4), three, [((15, 25, 100, 40), (30, 10, 20, 40))], (1000, 45))
        cases += family(4, MESH4, n1(5), three, [((15, 25, 100, 40, 10), (30, 10, 20, 40, 10))], (1000, 45))
    words = [w for w in itertools.product((-60, 10, 50), repeat=3) if min(w) < 0 < max(w)]
    sizes = (15, 24, 33)
    large = [(k, n, w, nr, nls) for k in BIG for n in sizes for w in (words if core.THOROUGH else words[::4]) for nr in (n // 2, 0)[: 1 + core.THOROUGH] for nls in (0, 1)]
    large.sort(key=lambda c: -c[1])
    core.pmap(R, chunk, [[c] for c in large] + list(core.chunked(cases, 6)))
    return (
        {"networks": "pair, double pair, chain, triangle, triangle with parallel line, star and ring of 4, ring, star and mesh of 5, trees of 6 and 7, networks without all lines; chains, binary trees, combs, star chains and separate triangles of 15, 24 and 33 areas, injections a periodic word of 3 levels",
         "line_states": "all of {full, half admittance, out}^lines (single outages for the larger networks), outages may split the network",
         "injections": "grids {-60..50}^areas", "limits": "symmetric and direction-dependent line limits, equal and separate import and export limits per area", "magnitudes": "all MW values x 0.02..40, admittances x 0.01..400",
         "reference_areas": "all (three for 6 and 7 areas)", "modes": "sharing and no sharing"},
        ["several dispatches may be optimal: any feasible dispatch with the minimum total curtailment is accepted"],
    )
