"""C13  the linear program is solved to optimality.

All small linear programs over coefficient/right-hand-side/cost grids that have
a bounded optimum; the reference enumerates every basis.
"""
import itertools

import numpy as np

from mc import core
from mc.core import Violation


def best(A, b, c):
    m, n = A.shape
    opt = None
    for B in itertools.combinations(range(n), m):
        M = A[:, B]
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        x = np.linalg.solve(M, b)
        if (x < -1e-9).any():
            continue
        v = c[list(B)] @ x
        if opt is None or v < opt:
            opt = v
    return opt


def solve(A, b, c):
    """Drive the real solver: an artificial variable per row, two phases."""
    linp = core.fn("monte_carlo.linp")
    m, n = A.shape
    aa = np.zeros((m, n + m))
    aa[:, :n] = A
    aa[:, n:] = np.eye(m)
    cost = np.zeros((2, n + m))
    cost[0, n:] = 1
    cost[1, :n] = c
    basis = np.arange(n, n + m)
    rhs = b.astype(float).copy()
    linp(m, n + m, aa, np.zeros(n + m), cost, basis, rhs, 0, n)
    x = np.zeros(n + m)
    x[basis] = rhs
    return x


def one(R, case):
    A, costs, rhss = case
    m, n = A.shape
    for b in rhss:
        b = np.array(b, float)
        for c in costs:
            c = np.array(list(c) + [0.0] * (n - len(c)))
            opt = best(A, b, c)
            if opt is None:
                R.skipped += 1
                continue
            R.states += 1
            R.transitions += 1
            x = solve(A, b, c)
            what = "min %s x, A x = b with A=%s b=%s" % (c.tolist(), A.tolist(), b.tolist())
            if np.abs(x[n:]).max() > 1e-6 or x.min() < -1e-6 or np.abs(A @ x[:n] - b).max() > 1e-6:
                raise Violation("infeasible", "%s: the answer %s is infeasible" % (what, x.tolist()))
            if abs(c @ x[:n] - opt) > 1e-6:
                raise Violation("optimum", "%s: the answer costs %g, the optimum is %g" % (what, c @ x[:n], opt))
            R.outcome(round(float(opt), 3))
    R.traces += 1


def grid():
    """2 unknowns, 2 rows of either sense (or equality) and a bounding row."""
    for coef in itertools.product((-1, 0, 1, 2), repeat=4):
        for sg in itertools.product((1, -1, 0), repeat=2):
            A = np.zeros((3, 5))
            A[0, :2], A[1, :2], A[2, :2] = coef[:2], coef[2:], 1
            A[0, 2], A[1, 3], A[2, 4] = sg[0], sg[1], 1
            if np.linalg.matrix_rank(A) == 3:
                yield A
    # 3 unknowns with box rows (degenerate corners)
    rows = list(itertools.product((-1, 0, 1), repeat=3))
    for r1, r2 in itertools.combinations(rows, 2):
        A = np.zeros((4, 7))
        A[0, :3], A[1, :3], A[2, :3] = r1, r2, 1
        A[3, :2] = 1
        A[0, 3], A[1, 4], A[2, 5], A[3, 6] = 1, -1, 1, 1
        yield A


def scaled():
    """The same programs with rows and columns of very different size."""
    for A in itertools.islice(grid(), 0, None, 7 if core.THOROUGH else 23):
        n = A.shape[1]
        for k in (5e-4, 300.0):
            for r in range(2):
                B = A.copy()
                B[r] *= k
                yield B, r, k


def chunk(R, cases):
    for A, row, k in cases:
        two = A.shape[0] == 3
        costs = ((1, 1), (-1, 0), (0, 1), (-1, 2), (1, -2)) if two else ((1, 1, 1), (-1, -1, 1), (0, -1, 0))
        if two:
            rhss = [list(r) + [4] for r in itertools.product((0, 1, 3), repeat=2)]
        else:
            rhss = [list(r) + [4, 3] for r in itertools.product((0, 1, 2) if core.THOROUGH else (0, 2), repeat=2)]
        if row is not None:
            rhss = [[x * (k if i == row else 1) for i, x in enumerate(b)] for b in rhss]
        R.case(one, (A, costs, rhss), limit=120, part="%dx%d" % A.shape)


def run(R):
    core.pmap(R, chunk, list(core.chunked(itertools.chain(((A, None, 1) for A in grid()), scaled()), 40)))
    R.sample({"skipped_infeasible": R.skipped})
    return (
        {"programs": "2 unknowns: coefficients {-1,0,1,2}^4, row senses {<=,>=,=}^2, rhs {0,1,3}^2, 5 costs; "
         "3 unknowns: all pairs of rows over {-1,0,1}^3, 3 costs; every 23rd (thorough: 7th) with a row scaled by 0.0005 or 300"},
        ["only programs with a finite optimum (the curtailment program always has one)"],
    )
