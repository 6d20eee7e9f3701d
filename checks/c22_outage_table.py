"""C22  the capacity outage table of an area's units.

Every multiset order of up to 4 (thorough 5) units over an alphabet of
capacities, deratings and outage rates is convolved by the real code; the
cumulative outage probabilities are compared with a brute-force enumeration of
all unit states.
"""
import collections
import itertools

import numpy as np

from mc import core
from mc.core import Violation

# capacity, derating fraction, P(derated), P(full outage)
UNITS = [
    (100, 0.0, 0.0, 0.1),
    (100, 0.5, 0.2, 0.1),
    (47, 0.3, 0.05, 0.02),
    (250, 0.0, 0.0, 0.05),
    (250, 0.5, 0.0, 0.05),
    (30, 1.0, 0.1, 0.2),
    (10, 0.9, 0.3, 0.0),
    (50, 0.05, 0.2, 0.0),
]


def rounded(x):
    k = int(x + 5.5)
    return k - k % 10


def brute(units):
    d = {0: 1.0}
    for c, der, p2, p3 in units:
        kt = rounded(c)
        kp = rounded(kt * der)
        n = collections.defaultdict(float)
        for o, p in d.items():
            n[o] += p * (1 - p2 - p3)
            n[o + kp] += p * p2
            n[o + kt] += p * p3
        d = n
    return d


def one(R, units):
    f = core.fn("data_processing.pmlolp")
    caps = np.array([u[0] for u in units], float)
    rd = np.array([[u[2], u[3], u[1]] for u in units], float).reshape(-1, 3)
    keep = caps.copy(), rd.copy()
    n, ka, pa = f(caps, rd, len(units))
    R.states += 1
    R.transitions += 1
    if not (np.array_equal(caps, keep[0]) and np.array_equal(rd, keep[1])):
        raise Violation("input", "units %s: the unit data were changed" % (units,))
    d = brute(units)
    ks = sorted(d)
    got = {int(a): float(p) for a, p in zip(ka[:n], pa[:n])}
    if list(ka[:n]) != sorted(set(ka[:n])):
        raise Violation("order", "units %s: outage levels %s" % (units, list(ka[:n])))
    for a, p in got.items():
        want = sum(q for o, q in d.items() if o >= a)
        if abs(p - want) > 1e-7:
            raise Violation("probability", "units %s: P(outage >= %d MW) = %g, expected %g" % (units, a, p, want))
    for k in ks:
        if d[k] > 0 and sum(q for o, q in d.items() if o >= k) > 1e-7 and k not in got:
            raise Violation("missing", "units %s: the outage level %d MW is missing (%s)" % (units, k, sorted(got)))
    R.traces += 1
    R.outcome("%d levels" % len(got))


def chunk(R, cases):
    for u in cases:
        R.case(one, u, limit=60, part="%d units" % len(u))
    R.sample({"units": cases[-1]})


def run(R):
    def gen():
        for n in range(1, 6 if core.THOROUGH else 5):
            yield from itertools.product(UNITS, repeat=n)
        for n in (6, 8, 10):
            for u in UNITS:
                yield (u,) * n
            yield tuple(UNITS[i % len(UNITS)] for i in range(n))
            yield tuple(UNITS[-1 - i % len(UNITS)] for i in range(n))

    core.pmap(R, chunk, core.chunked(gen(), 60))
    return ({"units": "all sequences of up to 4 of %d kinds (thorough 5), uniform and mixed fleets of 6, 8, 10" % len(UNITS)},
            ["capacities and deratings are rounded to 10 MW, levels below 1e-9 may be cut off"])  # fmt: skip
