"""C24  names and card order tie every input to the right area, unit and line.

One deterministic system (so that nothing depends on the random streams) is
described in every order of its areas, units, lines, contracts and ownership
rows and under several naming schemes.  Every description is run through the
whole program; everything the program is asked and answers must be the same
once the areas are mapped back.
"""
import itertools

import numpy as np

from mc import core, csvsys, sim
from mc.core import Violation

NAMES = [
    ("A1", "A2", "A3", "A4"),
    ("A10", "A1", "A11", "A2"),
    ("Z", "ZZ", "ZZZ", "AA"),
    ("N", "S", "E", "W"),
    ("C3", "C1", "C2", "C4"),
    # long names that differ in their last characters only, names that differ in case only
    ("Region-of-the-North-2", "Region-of-the-North-1", "Region-of-the-North-02", "Region-of-the-North-3"),
    ("b", "B", "bb", "BB"),
]
UNITS = ["U%03d", "U%03d", "%d", "Pumped-Storage-Plant-No-%d", "1%03d", "Combined-Cycle-%03d", "G%03d"]


def base(n, sharing, step):
    """The system, described with areas by their position."""
    days = np.arange(365)
    shape = np.zeros((n, 8760))
    prof = np.array([2.0, 2, 3, 3, 4, 4, 6, 6, 8, 10, 9, 8, 8, 7, 7, 7, 9, 12, 14, 16, 12, 8, 5, 3])
    for i in range(n):
        # a different area is the needy one on different days
        lvl = 40 + 35 * ((days + i) % (n + 1) == 0) + (days * (i + 3)) % 11
        shape[i] = (lvl[:, None] + np.roll(prof, i)[None, :]).reshape(-1)
    peaks = [240.0, 130.0, 310.0, 95.0][:n]
    units = []
    for i in range(n):
        own = None
        if i == 0:
            own = [60, 40] + [0] * (n - 2)
        if i == 2:
            own = [25, 0, 75] + [0] * (n - 3)
        units.append(dict(area=i, caps=tuple((x - 0.12 * sharing) * peaks[i] for x in (0.7, 0.68, 0.72, 0.71))))
        units.append(dict(area=i, caps=tuple(x * peaks[i] for x in (0.2, 0.22, 0.18, 0.21)), pa=1, b1=30 - 4 * i, d1=3, b2=45, d2=i, own=own))
    lines = []
    for i in range(n - 1):
        lines.append(dict(a=i, b=i + 1, states=[(-100.0 - 30 * i, 30 + 7 * i, 41 - 5 * i, 1.0)]))
    contracts = [(0, n - 1, 3, 90, 4), (n - 1, 0, 60, 200, 9), (1, 0, 100, 300, 5)][: 3 if n > 2 else 2]
    areas = [dict(peak=peaks[i], lfu=0, flow=[60, 45, 80, 33][i] if not sharing else 99999) for i in range(n)]
    if sharing:
        for l in lines:
            l["states"] = [(l["states"][0][0], 2000, 2000, 1.0)]
    return areas, units, lines, contracts, shape, dict(LS=0 if sharing else 1, STEP=step, FREQ=step)


def describe(sysd, pa, pu, pl, pc, po, names, flip):
    """The same system in another order: pa[k] is the k-th area of the card."""
    areas, units, lines, contracts, shape, mc = sysd
    inv = {a: k for k, a in enumerate(pa)}
    A = [dict(areas[a], name=names[k]) for k, a in enumerate(pa)]
    U = []
    for u in pu:
        d = dict(units[u], area=inv[units[u]["area"]], name=UNITS[[x[: len(names)] for x in NAMES].index(names)] % ((u * 37 + 11) % 1000))
        if d.get("own") is not None:
            d["own"] = [d["own"][a] for a in pa]
        U.append(d)
    L = []
    for l in pl:
        d = lines[l]
        a, b, st = inv[d["a"]], inv[d["b"]], d["states"]
        if l in flip:
            a, b, st = b, a, [(s[0], s[2], s[1], s[3]) for s in st]
        L.append(dict(a=a, b=b, states=st))
    C = [(inv[contracts[c][0]], inv[contracts[c][1]]) + contracts[c][2:] for c in pc]
    return csvsys.Sys(A, U, L, C, shape=shape[list(pa)], **mc)


def watch(S, pa):
    """(what the network calculation is asked, what is recorded), in the base order of the areas."""
    back = np.argsort(pa)
    asked, ev = [], []
    tr = core.fn("monte_carlo.transm")

    def spy(call, a):
        asked.append([float(a["CLOCK"])] + [float(x) for k in ("TRNSFR", "TRNSFJ", "SYSCON", "CAPREQ") for x in np.asarray(a[k])[back]])
        return call()

    def h(call, a):
        ev.append((int(a["NST"]), [float(x) for x in np.asarray(a["MARGIN"])[back]]))
        return call()

    out, _ = sim.run(S, {tr: spy, core.fn("monte_carlo.hrstat"): h, core.fn("monte_carlo.pkstat"): h})
    return np.array(asked), ev, out


def summary(out, names, pa):
    """Summary rows of the final report by base area."""
    rows = {}
    part = out[out.rindex("SUMMARY OF RESULTS") :].split("PROBABILITY DISTRIBUTIONS")[0]
    for line in part.split("\n"):
        t = line.replace("'", " ").split()
        if t and t[0] in names and t[0] not in rows:
            rows[t[0]] = t[1:]
    miss = [x for x in names if x not in rows]
    if miss:
        raise Violation("label", "the summary has no row for the areas %s:\n%s" % (miss, part[:800]))
    return [rows[names[list(pa).index(a)]] for a in range(len(pa))]


_REF = {}


def reference(n, sharing, step):
    key = n, sharing, step
    if key not in _REF:
        s = base(n, sharing, step)
        ident = tuple(range(n))
        S = describe(s, ident, range(2 * n), range(n - 1), range(len(s[3])), (), NAMES[0], ())
        a, ev, out = watch(S, ident)
        _REF[key] = a, ev, summary(out, NAMES[0][:n], ident)
    return _REF[key]


def one(R, case):
    n, sharing, step, pa, pu, pl, pc, ni, flip = case
    a0, ev0, sum0 = reference(n, sharing, step)
    s = base(n, sharing, step)
    names = NAMES[ni][:n]
    S = describe(s, pa, pu, pl, pc, (), names, flip)
    a, ev, out = watch(S, pa)
    R.states += len(a) + 1
    R.transitions += len(a) + 1
    what = "areas listed %s under the names %s, units %s, lines %s%s, contracts %s, %s" % (
        list(pa), list(names), list(pu), list(pl), " (reversed %s)" % list(flip) if flip else "", list(pc), "sharing" if sharing else "no sharing")  # fmt: skip
    if a.shape != a0.shape:
        raise Violation("hours", "%s: %d shortages, %d in the original order" % (what, len(a), len(a0)))
    d = np.abs(a - a0).max(axis=1)
    if d.max() > 1e-6:
        k = int(d.argmax())
        raise Violation("inputs", "%s: at time %g transfers/ownership/load/capacity by area are %s, in the original order %s" % (
            what, a[k][0], a[k][1:].tolist(), a0[k][1:].tolist()))  # fmt: skip
    short = (a[:, 1 + 2 * n : 1 + 3 * n] - a[:, 1 : 1 + n] - a[:, 1 + n : 1 + 2 * n] < a[:, 1 + 3 * n :]).sum(axis=1) if len(a) else 0
    R.outcome("up to %d areas short" % np.max(short))
    if len(ev) != len(ev0):
        raise Violation("losses", "%s: %d losses recorded, %d in the original order" % (what, len(ev), len(ev0)))
    for k, (x, y) in enumerate(zip(ev, ev0)):
        if x[0] != y[0] or np.abs(np.minimum(x[1], 0) - np.minimum(y[1], 0)).max() > 1.001:
            raise Violation("losses", "%s: loss %d is %s, in the original order %s" % (what, k, x, y))
    sm = summary(out, names, pa)
    if [len(x) for x in sm] != [len(x) for x in sum0]:
        raise Violation("summary", "%s: the summary is %s, in the original order %s" % (what, sm, sum0))
    for x, y in zip(sm, sum0):
        for u, v in zip(x, y):
            if abs(float(u) - float(v)) > 0.06 * max(1.0, 0.02 * abs(float(v))):
                raise Violation("summary", "%s: the summary is %s, in the original order %s" % (what, sm, sum0))
    R.traces += 1
    R.outcome((n, sharing, step, len(ev)))
    R.sample({"areas": list(pa), "names": list(names), "losses": len(ev)})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=200, part="%d areas" % c[0])


def cases():
    for sharing in (0, 1):
        for n in (2, 3) + ((4,) if core.THOROUGH else ()):
            nu, nl = 2 * n, n - 1
            nc = 3 if n > 2 else 2
            iu, il, ic = tuple(range(nu)), tuple(range(nl)), tuple(range(nc))
            ia = tuple(range(n))
            for k, pa in enumerate(itertools.permutations(range(n))):
                for ni in range(len(NAMES)):
                    yield n, sharing, 24, pa, iu, il, ic, ni, ()
                yield n, sharing, 24, pa, tuple(np.roll(iu, k + 1)), il[::-1], ic[::-1], k % len(NAMES), il[k % 2 :: 2]
            us = list(itertools.permutations(iu))
            for pu in us[:: 1 if n == 2 else (3 if core.THOROUGH else 12) * (1 if n < 4 else 100)]:
                yield n, sharing, 24, ia, tuple(pu), il, ic, 0, ()
            for pl in itertools.permutations(il):
                for m in range(2**nl):
                    yield n, sharing, 24, ia, iu, pl, ic, 0, tuple(x for x in il if m >> x & 1)
            for pc in itertools.permutations(ic):
                yield n, sharing, 24, ia, iu, il, pc, 0, ()
            yield n, sharing, 1, ia[::-1], iu[::-1], il[::-1], ic[::-1], 1, il[:1]


def run(R):
    cs = list(cases())
    core.pmap(R, chunk, core.chunked(cs, max(1, len(cs) // 32 + 1)))
    return (
        {"descriptions": len(cs), "areas": "2..3 (thorough 4)", "orders": "all area, line and contract orders, line directions, unit orders (every 12th of 720 for 3 areas; thorough every 3rd)", "names": len(NAMES)},
        ["row k of the area card is area k of the load file", "the dispatch of the system is unique (one needy area at a time, or sharing without limits)"],
    )
