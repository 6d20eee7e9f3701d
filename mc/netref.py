"""Reference model of the transmission problem, by brute force.

A network: n areas, lines (from, to, y) with susceptance y >= 0 (0: the line is
out, which may split the network into islands).  A dispatch is a vector of net
injections p that sums to 0 in every island; line flows follow from p by the
DC power-flow equations.  The optimum of the curtailment problem is found by
enumerating *all* vertices of the feasible polytope (cell by cell for the
piecewise-linear cost), which needs no solver at all.
"""
import itertools

import numpy as np


class Net:
    def __init__(self, n, lines, bases=True):
        self.n = n
        self.ft = [(a, b) for a, b, _ in lines]
        self.y = np.array([float(y) for _, _, y in lines])
        L = len(lines)
        lap = np.zeros((n, n))
        for (a, b), y in zip(self.ft, self.y):
            lap[a, a] += y
            lap[b, b] += y
            lap[a, b] -= y
            lap[b, a] -= y
        # islands of the network (lines of zero susceptance are out)
        comp = list(range(n))
        for (a, b), y in zip(self.ft, self.y):
            if y != 0 and comp[a] != comp[b]:
                old, new = comp[a], comp[b]
                comp = [new if c == old else c for c in comp]
        self.islands = [[i for i in range(n) if comp[i] == c] for c in sorted(set(comp))]
        z = np.zeros((n, n))
        d = n - len(self.islands)
        E = np.zeros((n, d))  # nets as a function of the reduced coordinates
        col = 0
        for isl in self.islands:
            last, rest = isl[-1], isl[:-1]
            if rest:
                z[np.ix_(rest, rest)] = np.linalg.inv(lap[np.ix_(rest, rest)])
            for i in rest:
                E[i, col] = 1.0
                E[last, col] = -1.0
                col += 1
        self.ptdf = np.zeros((L, n))
        for k, (a, b) in enumerate(self.ft):
            self.ptdf[k] = self.y[k] * (z[a] - z[b])
        self.E = E
        self.normals = np.vstack([E, self.ptdf @ E])  # n nets then L flows
        self.bases = []
        for sub in itertools.combinations(range(n + L), d) if bases else ():
            m = self.normals[list(sub)]
            if d == 0 or abs(np.linalg.det(m)) > 1e-9:
                self.bases.append((sub, np.linalg.inv(m)))

    def flows(self, p):
        return self.ptdf @ np.asarray(p, float)

    def optimum(self, inj, lo, hi, fwd, bwd, alo, ahi):
        """min sum(max(0, p - inj)) s.t. lo<=p<=hi, -alo<=p<=ahi, -bwd<=f<=fwd.

        Returns (optimal cost, number of feasible vertices, list of optimal p).
        """
        n = self.n
        inj, lo, hi = (np.asarray(v, float) for v in (inj, lo, hi))
        fwd, bwd, alo, ahi = (np.asarray(v, float) for v in (fwd, bwd, alo, ahi))
        l2 = np.maximum(lo, -alo)
        h2 = np.minimum(hi, ahi)
        opts = []
        for i in range(n):
            o = {l2[i], h2[i]}
            if l2[i] < inj[i] < h2[i]:
                o.add(inj[i])
            opts.append(sorted(o))
        for k in range(len(self.y)):
            opts.append(sorted({fwd[k], -bwd[k]}))
        pts = []
        for sub, inv in self.bases:
            rhs = np.array(list(itertools.product(*[opts[s] for s in sub])))
            pts.append(rhs @ inv.T)
        q = np.vstack(pts)
        p = q @ self.E.T
        f = p @ self.ptdf.T
        eps = 1e-7
        ok = (
            (p >= l2 - eps).all(1)
            & (p <= h2 + eps).all(1)
            & (f <= fwd + eps).all(1)
            & (f >= -bwd - eps).all(1)
        )
        p = p[ok]
        if len(p) == 0:
            return None, 0, p
        c = np.maximum(0, p - inj).sum(1)
        best = c.min()
        return best, len(p), p[c <= best + 1e-9]


def tree_optimum(n, lines, inj, fwd, bwd, imp, exp):
    """The least total curtailment of a network without loops: what the maximum
    flow from the areas with a surplus to those with a deficit leaves short."""
    S, T = n, n + 1
    cap = [dict() for _ in range(n + 2)]

    def arc(a, b, c):
        cap[a][b] = cap[a].get(b, 0.0) + c
        cap[b].setdefault(a, 0.0)

    for i in range(n):
        if inj[i] > 0:
            arc(S, i, min(inj[i], exp[i]))
        elif inj[i] < 0:
            arc(i, T, min(-inj[i], imp[i]))
    for (a, b, y), f, g in zip(lines, fwd, bwd):
        if y:
            arc(a, b, f)
            arc(b, a, g)
    total = 0.0
    while True:
        via, todo = {S: None}, [S]
        for a in todo:
            for b, c in cap[a].items():
                if c > 1e-9 and b not in via:
                    via[b] = a
                    todo.append(b)
        if T not in via:
            return sum(-x for x in inj if x < 0) - total
        path, b = [], T
        while via[b] is not None:
            path.append((via[b], b))
            b = via[b]
        step = min(cap[a][b] for a, b in path)
        for a, b in path:
            cap[a][b] -= step
            cap[b][a] += step
        total += step


EPS = 1e-5


def first_pass(N, n, margin, con, f, g, al, others=False):
    """All optimal dispatches that carry the firm exports."""
    inj = np.maximum(con, np.minimum(margin, 0))
    sn, sp = -inj[inj <= 0].sum(), inj[inj > 0].sum()
    p = inj.copy()
    if sn <= sp:
        if sp > 0:
            p[inj > 0] *= sn / sp
    else:
        p[inj <= 0] *= sp / sn
    fl = N.flows(p)
    room = min((f - fl).min(initial=np.inf), (g + fl).min(initial=np.inf), (al - np.abs(p)).min())
    inside = all(abs(p[i].sum()) < 1e-9 for i in N.islands)
    if inside and room > 1e-6 and (not others or abs(sn - sp) < 1e-9):
        return [p], True
    # exactly on a limit, round-off may decide either way
    edge = [p] if inside and room > -1e-6 else []
    _, _, opt = N.optimum(inj, np.minimum(inj, 0), np.maximum(inj, 0), f, g, np.broadcast_to(al, n), np.broadcast_to(al, n))
    return edge + list(opt), False


def accept(N, n, margin, con, f, g, al, load, nls, loss, sadj, mw=1, others=False):
    """Is (loss, sadj) a correct answer?  Returns (ok, what was expected).

    others: there are areas elsewhere, which may need an optimised pass although these do not.
    """
    EPS = 1e-5 * mw
    firsts, exact = first_pass(N, n, margin, con, f, g, al, others)
    firsts = [p for i, p in enumerate(firsts) if not any(np.abs(p - q).max() < 1e-7 * mw for q in firsts[:i])]
    want = []
    if len(firsts) > 1:
        # any point between optimal vertices is optimal too
        exact = False
    for p1 in firsts:
        s1 = margin - p1
        if (s1 >= -EPS).all():
            want.append("no loss")
            if not loss:
                return True, want
            if (s1 >= EPS).all() and not others:
                continue
        if nls:
            inj = margin - p1
            fl = N.flows(p1)
            fw, bw = np.maximum(f - fl, 0), np.maximum(g + fl, 0)
            ahi, alo = np.maximum(al - p1, 0), np.maximum(al + p1, 0)
            lo, hi = np.minimum(inj, 0), np.maximum(inj, 0)
        else:
            inj, fw, bw = margin, f, g
            ahi = alo = np.broadcast_to(np.asarray(al, float), n)
            lo, hi = -load, load + inj
        best, _, _ = N.optimum(inj, lo, hi, fw, bw, alo, ahi)
        want.append("unserved %g" % best)
        if loss:
            un, p2 = np.maximum(sadj, 0), sadj + inj
            fl2 = N.flows(p2)
            if (
                abs(un.sum() - best) < 1e-4 * mw
                and (p2 <= hi + EPS).all()
                and (p2 >= lo - EPS).all()
                and (fl2 <= fw + EPS).all()
                and (-fl2 <= bw + EPS).all()
                and (p2 <= ahi + EPS).all()
                and (p2 >= -alo - EPS).all()
                and all(abs(p2[i].sum()) < EPS for i in N.islands)
            ):
                return True, want
    if len(firsts) > 1:
        return None, want  # a mixture of the optimal vertices may have been used
    return False, want


def accept_islands(parts, margin, con, f, g, al, load, loss, sadj):
    """accept() for a large network made of separate small ones (losses not shared).

    parts: (areas, lines, network of these areas) of every separate part.
    """
    skip = False
    for areas, lines, N in parts:
        n = len(areas)
        ok, want = accept(N, n, margin[areas], con[areas], f[lines], g[lines], al[areas], load[areas], 1, loss, sadj[areas], others=True)
        if ok is None:
            skip = True
        elif not ok:
            return False, ["areas %s" % [a + 1 for a in areas]] + want
    return (None if skip else True), ["as expected"]
