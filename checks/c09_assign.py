"""C09  surplus and deficit are balanced fairly before any network limit.

The balancing step is run on every grid point: all injection vectors, load
vectors, node orders and both loss-sharing modes.
"""
import itertools

import numpy as np

from mc import core
from mc.core import Violation


def one(R, case):
    n, lod, lt, nls, mw = case
    f = core.fn("monte_carlo.assign")
    levels = (-70.0, -30.0, 0.0, 20.0, 50.0) if n < 5 else (-70.0, -30.0, 0.0, 50.0)
    levels = [x * mw for x in levels]
    lod = np.array(lod, float) * mw
    lt = np.array(lt)
    for inj in itertools.product(levels, repeat=n):
        inj = np.array(inj)
        keep, lkeep = inj.copy(), lod.copy()
        net, cur = f(inj, lod, lt, n, nls)
        net, cur = np.asarray(net, float), np.asarray(cur, float)
        R.states += 1
        R.transitions += 1
        sp, sn = inj[inj > 0].sum(), -inj[inj <= 0].sum()
        what = "surpluses/deficits %s, loads %s (node order %s), %s" % (
            keep.tolist(), lod.tolist(), lt.tolist(), "no sharing" if nls else "sharing")  # fmt: skip
        if not np.array_equal(inj, keep) or not np.array_equal(lod, lkeep):
            raise Violation("inputs", what + ": the inputs were changed")
        if abs(net.sum()) > 1e-6 * max(mw, 1):
            raise Violation("balance", "%s: net injections %s do not balance" % (what, net.tolist()))
        if sn <= sp:
            # enough surplus: deficits are met in full, surpluses used pro rata
            want = np.where(inj > 0, inj * (sn / sp if sp else 1), inj)
            wcur = np.zeros(n)
        elif nls:
            want = np.where(inj > 0, inj, inj * sp / sn)
            wcur = np.zeros(n)
            wcur[lt] = np.where(inj > 0, 0, want - inj)
        else:
            wcur = lod * (sn - sp) / lod.sum()
            want = inj + wcur[lt]
        if np.abs(net - want).max() > 1e-9 * max(mw, 1):
            raise Violation("shares", "%s: net injections %s, expected %s" % (what, net.tolist(), want.tolist()))
        if np.abs(cur - wcur).max() > 1e-9 * max(mw, 1):
            raise Violation("curtailment", "%s: curtailments %s, expected %s" % (what, cur.tolist(), wcur.tolist()))
        R.outcome((np.sign(sp - sn), nls))
    R.traces += 1
    R.sample({"areas": n, "loads": lod, "order": lt, "no_sharing": nls})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=200, part="%d areas" % c[0])


def run(R):
    cases = []
    for n in (1, 2, 3, 4) + ((5,) if core.THOROUGH else ()):
        for lod in ([100.0, 200.0, 300.0, 150.0, 50.0][:n], [80.0, 80.0, 80.0, 80.0, 80.0][:n], [500.0, 1.0, 0.0, 20.0, 7.0][:n]):
            for lt in itertools.permutations(range(n)):
                for nls in (0, 1):
                    for mw in (1, 0.01, 300) if n < 4 or lt[0] == 2 else (1,):
                        cases.append((n, lod, lt, nls, mw))
    core.pmap(R, chunk, list(core.chunked(cases, 4)))
    return ({"injections": "{-70,-30,0,20,50}^n for n=1..4", "loads": 3, "orders": "all node orders", "modes": 2, "magnitudes": "all MW values also x 0.01 and x 300"}, [])
