"""C16  how one loss of load enters the statistics of the year.

Every margin vector over a small alphabet is recorded, in every forecast tier,
in histories of several losses, by the hourly and by the peak recorder; all
counters are compared after every step with a reference that starts from zero.
"""
import itertools

import numpy as np

from mc import core
from mc.core import Violation

HN = ["LOLGHA", "LOLGHP", "LOLTHA", "LOLTHP", "MGNGHA", "MGNGHP", "MGNTHA", "MGNTHP"]
PN = [x.replace("H", "P", 1) for x in HN]


def fresh(n, names, kind):
    return {k: np.zeros((n, 5) if k.endswith("A") else 5, dtype=kind) for k in names}


def record(ref, names, tier, m):
    lg, lgp, lt, ltp, mg, mgp, mt, mtp = (ref[k] for k in names)
    tot = sum(m)
    (ltp if tot >= 0 else lgp)[tier] += 1
    la, ma, mp = (lt, mt, mtp) if tot >= 0 else (lg, mg, mgp)
    for j, x in enumerate(m):
        if x < 0:
            la[j, tier] += 1
            ma[j, tier] += -x
            mp[tier] += -x


def history(R, n, hist, kind, order):
    hr, pk = core.fn("monte_carlo.hrstat"), core.fn("monte_carlo.pkstat")
    H, P = fresh(n, HN, kind), fresh(n, PN, kind)
    rh, rp = fresh(n, HN, float), fresh(n, PN, float)
    ls, rls = np.zeros(n, dtype=kind), np.zeros(n)
    for which, tier, m in hist:
        M = np.array(m, dtype=int)
        if which == "h":
            hr(NST=tier, MARGIN=M, LSFLG=ls, **H)
            record(rh, HN, tier, m)
            rls += np.array(m) < 0
        else:
            pk(NST=tier, MARGIN=M, **P)
            record(rp, PN, tier, m)
        R.transitions += 1
        if not np.array_equal(M, m):
            raise Violation("margin", "recording %s changed the margins to %s" % (m, M.tolist()))
        for name, got, want in [(k, H[k], rh[k]) for k in HN] + [(k, P[k], rp[k]) for k in PN] + [("LSFLG", ls, rls)]:
            if not np.array_equal(got, want):
                raise Violation(
                    "statistics", "after the losses %s: %s is %s, expected %s" % (hist, name, got.tolist(), want.tolist())
                )
    R.states += 1
    R.traces += 1


def chunk(R, cases):
    for c in cases:
        R.case(lambda R, c: history(R, *c), c, part="%d areas" % c[0])
        R.outcome("%d areas" % c[0] if not c[1] else "pool %s" % ("deficit" if sum(c[1][-1][2]) < 0 else "surplus" if sum(c[1][-1][2]) > 0 else "even"))


def cases():
    # one loss, every margin vector
    alpha = {1: range(-4, 5), 2: range(-4, 5), 3: (-7, -2, -1, 0, 1, 2, 9), 4: (-5, -1, 0, 1, 4), 5: (-3, 0, 2)}
    if core.THOROUGH:
        alpha = {1: range(-50, 51), 2: range(-12, 13), 3: range(-5, 6), 4: (-7, -2, -1, 0, 1, 2, 9), 5: (-5, -1, 0, 1, 4), 6: (-3, 0, 2)}
    for n, a in alpha.items():
        for m in itertools.product(a, repeat=n):
            for w in "hp":
                for tier in range(5) if n <= 2 else ((sum(m) + n) % 5,):
                    yield n, [(w, tier, m)], (int if tier % 2 else float), 0
    # histories of losses over both recorders and several tiers
    ms = [(-3, 1), (2, -1), (-1, -1), (-1, 1), (0, -4)]
    ops = [(w, t, m) for w in "hp" for t in (0, 2, 4) for m in ms]
    for h in itertools.product(ops, repeat=3 if core.THOROUGH else 2):
        yield 2, list(h), float, 0
    for h in itertools.product([("h", t, m) for t in (0, 1) for m in ms], repeat=4):
        yield 2, list(h), float, 0


def run(R):
    core.pmap(R, chunk, core.chunked(cases(), 600))
    return (
        {"margins": "every vector over the listed alphabets, 1..5 areas", "tiers": 5, "histories": "depth 2 over 30 operations, depth 4 over 10"},
        ["a loss with total margin exactly 0 is charged to transmission: the pool is not short"],
    )
