"""C14  matrix factorisation and inversion are exact for every matrix pattern.

All 0/+-1(/2) matrices up to 3x3 and all permutation-scaled patterns up to 6x6
are factorised and inverted by the real routines; products with the original
must give the identity, and singular matrices must not yield NaN factors.
"""
import itertools

import numpy as np

from mc import core
from mc.core import Violation


def check(R, M, d=None):
    fa, di, co = (core.fn("monte_carlo." + n) for n in ("dgefa", "dgedi", "dgeco"))
    n = len(M)
    d = np.linalg.det(M) if d is None else d
    A = M.copy()
    info, piv = fa(A, n)
    R.states += 1
    R.transitions += 1
    if abs(d) < 1e-9:
        R.outcome("singular")
        # L U must still reproduce the matrix
        if np.isnan(A).any():
            raise Violation("singular", "factorising the singular matrix %s gave NaN" % M.tolist())
        return
    R.outcome(n)
    if info != 0:
        raise Violation("flag", "regular matrix %s was flagged singular (%s)" % (M.tolist(), info))
    B = M.copy()
    p2 = co(B, n)
    if np.abs(A - B).max() > 1e-12 or list(np.asarray(piv)) != list(np.asarray(p2)):
        raise Violation("factors", "the two factorisations of %s differ" % M.tolist())
    di(B, n, p2)
    R.transitions += 2
    if np.isnan(B).any() or np.abs(B @ M - np.eye(n)).max() > 1e-7 * max(1, np.abs(B).max()):
        raise Violation("inverse", "the inverse of %s is wrong: %s" % (M.tolist(), B.tolist()))


def block(R, case):
    kind, n, arg = case
    if kind == "grid":
        for rest in itertools.product((-1.0, 0.0, 1.0, 2.0) if n < 3 else (-1.0, 0.0, 1.0), repeat=n * n - len(arg)):
            check(R, np.array(list(arg) + list(rest)).reshape(n, n))
    elif kind == "dense":
        # full, banded and triangular patterns
        for k, p, q in itertools.product(range(1, 9), (5, 7, 11, 13), range(4)):
            M = np.array([[(k * i * i + 3 * i * j + (k + 2) * j + q) % p - p // 2 for j in range(n)] for i in range(n)], float)
            for low, up in ((n, n), (1, n), (n, 1), (2, 1), (n, 0)):
                B = np.triu(np.tril(M, up), -low) + (np.eye(n) * (p if up == 0 else 0))
                check(R, B * arg, round(np.linalg.det(B)))
    else:
        # permutation patterns, with every single extra entry and scaling
        for perm in itertools.permutations(range(n)):
            for i, j in itertools.product(range(n), repeat=2):
                M = np.zeros((n, n))
                for r, c in enumerate(perm):
                    M[r, c] = (arg, 1.0, -2.0, 0.25)[r % 4]
                M[i, j] += 3.0
                check(R, M)
    R.traces += 1


def chunk(R, cases):
    for c in cases:
        R.case(block, c, limit=240, part=c[0])


def run(R):
    cases = [("grid", 1, ()), ("grid", 2, ())]
    cases += [("grid", 3, p) for p in itertools.product((-1.0, 0.0, 1.0), repeat=3)]
    cases += [("perm", n, s) for n in ((3, 4, 5, 6) if core.THOROUGH else (3, 4, 5)) for s in (1.0, 1e-3, 50.0)]
    cases += [("dense", n, s) for n in (range(4, 16) if core.THOROUGH else (4, 5, 6, 7, 8, 10, 12)) for s in (1.0, 1e-3, 50.0)]
    core.pmap(R, chunk, [[c] for c in cases])
    R.sample({"matrix": "all 3x3 over {-1,0,1}"})
    return ({"matrices": "all 1x1, 2x2 over {-1,0,1,2}; all 3x3 over {-1,0,1}; permutation patterns to 5x5 with one extra entry; full, banded and triangular integer patterns from 4x4 to 12x12"}, [])
