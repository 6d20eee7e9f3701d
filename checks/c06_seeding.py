"""C06  runs are reproducible; every unit and line has its own random stream.

The real seeding is enumerated over all small (units, lines) shapes and many
base seeds; whole runs are repeated alone, after other runs in the same process
(all ordered pairs of a set of systems), with units/lines appended and with
everything else about the system changed; for many seeds of the user every draw
of a whole run is compared with the streams that follow from the seed.
"""
import itertools

import numpy as np

from mc import core, csvsys, ref, sim
from mc.core import Violation

MASK = (1 << 31) - 1


def model(seed, nu, nl):
    out = []
    for _ in range(nu + nl):
        seed = (seed * 9649599) & MASK
        out.append(seed)
    return out[:nu], out[nu:]


def shapes(R, case):
    nu, seedlist, nls = case
    seeder = core.fn("monte_carlo.seeder")
    for seed in seedlist:
        for nl in nls:
            gs, ls = seeder(seed, nu, nl)
            got = [int(x) for x in gs[:nu]], [int(x) for x in ls[:nl]]
            if got != model(seed, nu, nl):
                raise Violation("seeds", "seed %d with %d units and %d lines: %s" % (seed, nu, nl, got))
            R.states += 1
            R.transitions += 1
    # within one system no two components may share a stream
    gs, ls = seeder(123456, nu, max(nls))
    al = [int(x) for x in gs[:nu]] + [int(x) for x in ls[: max(nls)]]
    if len(set(al)) != len(al) or any(s <= 0 or s % 2 ** 31 == 0 for s in al):
        raise Violation("distinct", "%d units and %d lines share or lose random streams" % (nu, max(nls)))
    R.traces += 1
    R.outcome(nu)


def systems():
    rng = np.arange(8760)
    shape = 1.0 + 0.5 * np.sin(2 * np.pi * rng / 24)[None, :] + 0.1 * np.cos(2 * np.pi * rng / 8760)[None, :]
    one = np.vstack([shape])
    two = np.vstack([shape, np.roll(shape, 7, axis=1)])
    u = [dict(area=0, caps=40, fo=0.1, dfor=0.05, der=50), dict(area=0, caps=60, fo=0.08)]
    v = [dict(area=1, caps=50, fo=0.1), dict(area=1, caps=55, fo=0.12, dfor=0.1, der=40)]
    line = [dict(a=0, b=1, states=[(-100, 20.5, 20.5, 0.8), (-50, 10.25, 10.25, 0.2)])]
    A = lambda **k: dict(dict(peak=90.5), **k)  # noqa: E731
    return {
        "one-hourly": csvsys.Sys([A()], u, shape=one),
        "one-daily": csvsys.Sys([A(lfu=5)], u, shape=one, STEP=24, FIN=3),
        "one-dailydraw": csvsys.Sys([A()], u, shape=one, FREQ=24, FIN=2),
        "two-daily": csvsys.Sys([A(), A()], u + v, lines=line, shape=two, STEP=24, FREQ=24, FIN=2),
        "two-sharing": csvsys.Sys([A(), A(peak=100.5)], u + v, lines=line, shape=two, STEP=24, LS=0, FIN=2),
        "two-dailydraw": csvsys.Sys([A(), A()], u + v, lines=line, shape=two, FREQ=24, FIN=1,
                                    contracts=[(0, 1, 10, 200, 8)]),
    }  # fmt: skip


def pair(R, case):
    first, second = case
    S = systems()
    alone, _ = sim.run(S[second])  # in a fresh process
    if not alone.strip() or "LOLE" not in alone:
        raise Violation("output", "%s produced no results" % second)
    if first:
        sim.run(S[first])
    again, _ = sim.run(S[second])
    if again != alone:
        raise Violation("repeat", "%s printed other results %s" % (second, "after %s" % first if first else "twice"))
    R.states += 1
    R.transitions += 3
    R.traces += 1
    R.outcome(second)
    R.sample({"run": second, "after": first})


def append(R, case):
    """Adding units or lines behind the others does not disturb the streams of
    those that were there (only their own draws are added)."""
    name, extra = case
    S = systems()[name]

    def states(S):
        out = []
        g = core.fn("monte_carlo.gstate")

        def spy(call, a):
            r = call()
            out.append(np.asarray(r[0]).ravel().copy())
            return r

        sim.run(S, {g: spy})
        return out

    base = states(S)
    n = len(base[0])
    T = systems()[name]
    units = T.units + [dict(area=0, caps=1, fo=0.5)] * extra
    T2 = csvsys.Sys(T.areas, units, T.lines, T.contracts, T.shape, **T.mc)
    more = states(T2)
    if len(base) != len(more) or any((a != b[:n]).any() for a, b in zip(base, more)):
        raise Violation("append", "%s: %d more units change the states of the others" % (name, extra))
    R.states += len(base)
    R.transitions += 2
    R.traces += 1


CHANGES = {
    "maintenance": lambda S: [u.update(b1=3 + 7 * i, d1=4 + i, b2=30 + i, d2=6) for i, u in enumerate(S.units)],
    "everything on maintenance": lambda S: [u.update(b1=1, d1=52) for u in S.units],
    "twice the load": lambda S: [a.update(peak=2 * a["peak"]) for a in S.areas],
    "little load": lambda S: [a.update(peak=0.1 * a["peak"]) for a in S.areas],
    "uncertainty": lambda S: [a.update(lfu=10.0 - 3 * i) for i, a in enumerate(S.areas)],
    "sharing": lambda S: S.mc.update(LS=1 - S.mc["LS"]),
    "seasons": lambda S: (S.mc.update(wk=(2, 3, 50)), [u.update(caps=(10, 20, 0, 40)) for u in S.units]),
    "no capacity": lambda S: [u.update(caps=(0, 0, 0, 0)) for u in S.units],
    "options": lambda S: S.mc.update(IJ=1, II=1, IN=1, WHERE=1, KVS=2, MAXE=20),
    "contract": lambda S: len(S.areas) > 1 and S.contracts.append((1, 0, 1, 365, 30)),
    "ownership": lambda S: len(S.areas) > 1 and S.units[0].update(own=[30, 70]),
    "weak lines": lambda S: S.lines.__setitem__(slice(None), [dict(l, states=[(-1 - k, 1, 2, s[3]) for k, s in enumerate(l["states"])]) for l in S.lines]),
}


def other(R, case):
    """What is drawn for the units and lines depends on their position and
    their probabilities only."""
    name, change = case

    def draws(S):
        out = []

        def g(call, a):
            r = call()
            out.append(np.asarray(r[0]).ravel().copy())
            return r

        def l(call, a):
            r = call()
            out.append(np.asarray(r).ravel().copy())
            return r

        sim.run(S, {core.fn("monte_carlo.gstate"): g, core.fn("monte_carlo.lstate"): l})
        return out

    base = draws(systems()[name])
    S = systems()[name]
    CHANGES[change](S)
    got = draws(S)
    if len(got) != len(base):
        raise Violation("other", "%s with another '%s': %d draws, expected %d" % (name, change, len(got), len(base)))
    for k, (x, y) in enumerate(zip(got, base)):
        if (x != y).any():
            raise Violation("other", "%s with another '%s': draw %d gives the states %s, expected %s" % (name, change, k, x, y))
    R.states += len(base)
    R.transitions += 2
    R.traces += 1
    R.outcome(change)


def chosen(R, case):
    """The user's seed decides every number of every stream."""
    name, seed = case
    S = systems()[name]
    S.mc.update(SEED=seed)
    got = []

    def g(call, a):
        r = call()
        got.append(("units", np.asarray(r[0], float).ravel().tolist()))
        return r

    def l(call, a):
        r = call()
        got.append(("lines", [int(x) - 1 for x in np.asarray(r).ravel()]))
        return r

    sim.run(S, {core.fn("monte_carlo.gstate"): g, core.fn("monte_carlo.lstate"): l})
    st = ref.Streams(S)
    n = sum(k == "units" for k, _ in got)
    want = {"units": [], "lines": []}
    for _ in range(n):
        u, ln = st.draw()
        want["units"].append(u.tolist())
        want["lines"].append(list(ln))
    for kind in want:
        seen = [x for k, x in got if k == kind]
        for k, (x, y) in enumerate(zip(seen, want[kind])):
            if x != y:
                raise Violation("seed", "%s with seed %d: draw %d of the %s gives %s, expected %s" % (name, seed, k, kind, x, y))
        if S.lines and len(seen) != n:
            raise Violation("seed", "%s with seed %d: %d draws of the units, %d of the lines" % (name, seed, n, len(seen)))
    R.states += n
    R.transitions += n
    R.traces += 1
    R.outcome("seed %d" % seed)
    R.sample({"system": name, "seed": seed, "draws": n})


def chunk(R, cases):
    for c in cases:
        R.case({"s": shapes, "p": pair, "a": append, "o": other, "c": chosen}[c[0]], c[1], limit=240, part=c[0])


def run(R):
    nmax = 60 if not core.THOROUGH else 300
    seedl = [123456, 1, 345237, 2147483647, 64, 99999] + list(range(3, 40, 4))
    cases = [("s", (n, seedl, list(range(0, 25)) + [60])) for n in range(1, nmax)]
    cases += [("s", (n, seedl[:6], [0, 1, 100, 300])) for n in (99, 100, 101, 255, 256, 257, 500, 501, 600, 601, 1000, 2000)]
    names = list(systems())
    cases += [("p", (a, b)) for b in names for a in [None] + names]
    cases += [("a", (n, k)) for n in names for k in (1, 3)]
    quick = [n for n in names if n in ("one-daily", "two-daily", "two-sharing", "one-dailydraw")]
    cases += [("o", (n, k)) for n in (names if core.THOROUGH else quick) for k in CHANGES]
    own = [1, 7, 345237, 2147483647, 123457, 99] + ([3, 12345, 7919, 1000000007] if core.THOROUGH else [])
    cases += [("c", (n, s)) for n in (names if core.THOROUGH else ("one-daily", "two-daily", "two-sharing", "two-dailydraw")) for s in own]
    cases.sort(key=lambda c: "poacs".index(c[0]))
    core.pmap(R, chunk, [[c] for c in cases], fresh=True)
    return (
        {"seeding": "1..%d units x 0..60 lines x %d base seeds; up to 2000 units and 300 lines" % (nmax - 1, len(seedl)), "runs": "all ordered pairs of %d systems; %d changes of everything else" % (len(names), len(CHANGES)), "seeds of the user": own},
        ["single process, one run at a time"],
    )
