"""C10  network matrices follow every topology and every line outage.

All connected networks up to 4 areas (5 in the thorough tier) and up to 5
lines, every reference area and every combination of line derating and outage:
the admittance matrix and its inverse must be those of the network, and
updating them for outages must agree with building them afresh.
"""
import itertools

import numpy as np

from mc import core
from mc.core import Violation


def laplacian(n, lines):
    m = np.zeros((n, n))
    for a, b, y in lines:
        m[a, a] += y
        m[b, b] += y
        m[a, b] -= y
        m[b, a] -= y
    return m


def connected(n, lines):
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for a, b, y in lines:
            if y != 0:
                for p, q in ((a, b), (b, a)):
                    if p == i and q not in seen:
                        seen.add(q)
                        todo.append(q)
    return len(seen) == n


def arrays(n, lines):
    lp = np.array([[k, a, b] for k, (a, b, _) in enumerate(lines)], dtype=int).reshape(-1, 3)
    blp = np.array([[-float(y), 10.0, 10.0] for _, _, y in lines]).reshape(-1, 3)
    bn = np.zeros((n, 5))
    bn[:, 0] = range(n)
    return lp, blp, bn


def base(R, case):
    """B matrix, its reduction, its inverse, angles and flows of one network."""
    n, lines = case
    tm1 = core.fn("monte_carlo.tm1")
    theta, thetac, flo = (core.fn("monte_carlo." + x) for x in ("theta", "thetac", "flo"))
    full = core.fn("monte_carlo.admitb")
    lp, blp, bn = arrays(n, lines)
    want = -laplacian(n, lines)
    bb = np.asarray(full(lp, blp))
    what = "%d areas, lines %s" % (n, lines)
    if np.abs(bb - want).max() > 1e-9:
        raise Violation("B", "%s: admittance matrix %s, expected %s" % (what, bb.tolist(), want.tolist()))
    for nr in range(n):
        blp0, red, lt, zb = tm1(bn, lp, blp, nr)
        order = [i for i in range(n) if i != nr] + [nr]
        x = n - 1
        R.states += 1
        R.transitions += 1
        if list(np.asarray(lt)) != order:
            raise Violation("order", "%s, reference %d: node order %s" % (what, nr, list(lt)))
        if np.abs(red[:x, :x] - want[np.ix_(order[:x], order[:x])]).max(initial=0) > 1e-9:
            raise Violation("reduced", "%s, reference %d: reduced matrix is wrong" % (what, nr))
        if np.abs(red[:x, :x] @ zb[:x, :x] - np.eye(x)).max(initial=0) > 1e-6:
            raise Violation("inverse", "%s, reference %d: impedance matrix is not the inverse" % (what, nr))
        if not np.array_equal(np.asarray(blp0), blp[:, 0]):
            raise Violation("admittances", "%s: base admittances %s" % (what, blp0))
        for inj in itertools.product((-30.0, 0.0, 50.0), repeat=n - 1):
            p = np.array(list(inj) + [-sum(inj)])  # in node order
            angles = thetac(theta(zb, p), lt)
            sflow, flow = flo(lp, blp, angles)
            R.states += 1
            R.transitions += 3
            out = np.zeros(n)
            for (a, b, _), f in zip(lines, flow):
                out[a] += f
                out[b] -= f
            q = np.zeros(n)
            q[order] = p
            if np.abs(out - q).max() > 1e-6:
                raise Violation("kirchhoff", "%s, ref %d, injections %s: flows %s" % (what, nr, q.tolist(), flow.tolist()))
            if np.abs(np.abs(np.asarray(sflow)) - np.abs(q)).max() > 1e-6:
                raise Violation("areaflow", "%s: area flows %s for injections %s" % (what, sflow.tolist(), q.tolist()))
            ang = np.linalg.lstsq(laplacian(n, lines), q, rcond=None)[0]
            wf = np.array([y * (ang[a] - ang[b]) for a, b, y in lines])
            if np.abs(wf - flow).max() > 1e-6:
                raise Violation("flows", "%s, injections %s: flows %s, expected %s" % (what, q.tolist(), flow.tolist(), wf.tolist()))
    R.traces += 1


def outages(R, case):
    """All outage states of a network, by updating the matrices in place."""
    n, lines = case
    tm1 = core.fn("monte_carlo.tm1")
    za, zr = core.fn("monte_carlo.ximpa"), core.fn("monte_carlo.ximpar")
    aa, ar = core.fn("monte_carlo.admitm"), core.fn("monte_carlo.admref")
    lp, blp, bn = arrays(n, lines)
    x = n - 1
    for nr in range(n):
        order = [i for i in range(n) if i != nr] + [nr]
        pos = {a: i for i, a in enumerate(order)}
        for f in itertools.product((1.0, 0.5, 0.0, 2.0), repeat=len(lines)):
            now = [(a, b, y * k) for (a, b, y), k in zip(lines, f)]
            _, bb, lt, zb = tm1(bn, lp, blp, nr)
            bb, zb = np.array(bb), np.array(zb)
            z = zb[:x, :x].copy()
            ok = True
            for k, (a, b, y) in enumerate(lines):
                d = (f[k] - 1.0) * -y  # change of the (negative) admittance
                if d == 0:
                    continue
                # connected after each single update? (an inverse exists)
                part = [(p, q, w * (f[j] if j <= k else 1.0)) for j, (p, q, w) in enumerate(lines)]
                if not connected(n, part):
                    ok = False
                    break
                if nr in (a, b):
                    i = pos[b if a == nr else a]
                    z = zr(z, -1.0 / d, i)
                    ar(bb, i, d)
                else:
                    z = za(z, -1.0 / d, pos[a], pos[b])
                    aa(bb, pos[a], pos[b], d)
                R.transitions += 2
            if not ok:
                R.skipped += 1
                continue
            R.states += 1
            want = -laplacian(n, now)[np.ix_(order[:x], order[:x])]
            what = "%d areas, lines %s at %s, reference %d" % (n, lines, f, nr)
            if np.abs(bb[:x, :x] - want).max(initial=0) > 1e-9:
                raise Violation("update-B", "%s: updated admittance matrix is wrong" % what)
            if np.abs(want @ z - np.eye(x)).max(initial=0) > 1e-6:
                raise Violation("update-Z", "%s: updated impedance matrix is not the inverse" % what)
    R.traces += 1


def angles(n, now, net):
    lap = laplacian(n, now)
    th = np.linalg.pinv(lap) @ net
    return np.array([y * (th[a] - th[b]) for a, b, y in now])


def history(R, case):
    """Dispatches one after the other on the same stored matrices, with every
    line state followed by every other."""
    n, lines, nr, nls, factors = case
    tm1, tm2 = core.fn("monte_carlo.tm1"), core.fn("monte_carlo.tm2")
    lp, blp, bn = arrays(n, lines)
    blp[:, 1:] = 1e6
    lod = np.full(n, 50.0)
    blp0, bb, lt, zb = tm1(bn, lp, blp, nr)
    keep = np.array(bb), np.array(zb)
    inj = np.array([20.0, -12.0, -8.0, 6.0][:n])
    states = [f for f in itertools.product(factors, repeat=len(lines))]
    # every state directly after every other: with the base state in between the
    # matrices have to be restored, so neighbours in two orders suffice
    for seq in (states, states[::-1], [s for k in range(len(states) // 2) for s in (states[k], states[-1 - k])]):
        for f in seq:
            now = [(a, b, y * k) for (a, b, y), k in zip(lines, f)]
            w = blp.copy()
            w[:, 0] *= np.array(f)
            b = bn.copy()
            b[:, 1], b[:, 2], b[:, 3:] = lod, inj, 1e6
            with core.time_limit(8):
                flow = np.asarray(tm2(b, lp, w, blp0, bb, zb, lt, nr, nls, np.zeros((n, 6)), 0, 0, 0, 0, np.ones(1), np.ones(1))[0], float)
            R.states += 1
            R.transitions += 1
            what = "%d areas, lines %s at %s, reference %d, %s" % (n, lines, f, nr, "no sharing" if nls else "sharing")
            net = b[:, 1] if not connected(n, now) else None
            real = np.zeros(n)
            for (p, q, _), x in zip(now, flow):
                real[p] += x
                real[q] -= x
            if np.isnan(flow).any() or np.abs(angles(n, now, real) - flow).max(initial=0) > 1e-5:
                raise Violation("flows", "%s: the flows %s do not follow the admittances" % (what, flow.tolist()))
            if net is None and nls:
                # the surplus 6+20 (or 20) covers the deficits as far as it goes
                want = inj.copy()
                up, dn = inj[inj > 0].sum(), -inj[inj < 0].sum()
                want[inj > 0] *= min(1, dn / up)
                want[inj < 0] *= min(1, up / dn)
                if np.abs(real - want).max(initial=0) > 1e-5:
                    raise Violation("flows", "%s: the flows %s bring %s to the areas, planned is %s" % (what, flow.tolist(), real.tolist(), want.tolist()))
            if np.abs(bb - keep[0]).max() > 1e-7 or np.abs(zb - keep[1]).max() > 1e-7:
                raise Violation("restored", "%s: the stored matrices were left changed" % what)
            R.outcome("split" if not connected(n, now) else "whole")
    R.traces += 1


def nets(nmax, lmax):
    ys = (1.0, 3.0, 100.0)
    for n in range(2, nmax + 1):
        pairs = [(a, b) for a in range(n) for b in range(n) if a < b]
        for k in range(0, lmax + 1):
            for c in itertools.combinations_with_replacement(pairs, k):
                l = [
                    (a, b, ys[(i + a) % 3]) if (i + b) % 2 else (b, a, ys[(i + b) % 3]) for i, (a, b) in enumerate(c)
                ]
                yield n, l


def chunk(R, cases):
    for kind, c in cases:
        R.case({"base": base, "out": outages, "hist": history}[kind], c, limit=240, part=kind)


def run(R):
    cases = []
    for n, l in nets(5 if core.THOROUGH else 4, 6 if core.THOROUGH else 5):
        if connected(n, l):
            cases.append(("base", (n, l)))
        if len(l) <= (5 if core.THOROUGH else 4) - (not connected(n, l)) and n <= 4:
            if connected(n, l):
                cases.append(("out", (n, l)))
            fs = (1.0, 0.97, 0.5, 0.0, 2.0) if core.THOROUGH else (1.0, 0.97, 0.0)
            for nr in range(n):
                cases.append(("hist", (n, l, nr, 1 - (nr + len(l)) % 2 * (n < 4), fs)))
    core.pmap(R, chunk, list(core.chunked(cases, 5)))
    R.sample({"networks": len(cases), "disconnecting_outage_states_skipped": R.skipped})
    return (
        {"networks": "all connected multigraphs of 2..4 areas and up to 5 lines, all reference areas, 3^(n-1) injections",
         "outages": "all line states {1, 0.5, 0, 2}^lines (up to 4 lines) that keep the network connected",
         "histories": "dispatches on the same matrices: line states {1, 0.97, 0}^lines in three orders; also with areas that no line connects"},
        ["outages that split the network are decided end to end by C12"],
    )
