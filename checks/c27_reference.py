"""C27  printed results equal those of an independent simulation.

Configurations of small systems are enumerated (all combinations of features);
every run of the real program is replayed hour by hour and tier by tier in a
reference simulator that knows only the user's data.  Where the optimal
emergency assistance is not unique the program's own answer is checked against
the set of right answers and taken over.  All numbers of the final report are
compared with the reference statistics.
"""
import itertools

import numpy as np

from mc import annual, core, csvsys, netref, ref, sim
from mc.core import Violation

FEATURES = ("lfu", "derate", "plan", "seasons", "contracts", "joint", "states", "sharing", "tight")


def system(n, f, step, freq, years, margin, seed_shift):
    f = set(f)
    t = np.arange(8760)
    shape = np.zeros((n, 8760))
    for i in range(n):
        daily = 60 + 20 * np.sin(2 * np.pi * (t % 24 - 6 - 5 * i) / 24) + ((t // 24) * (3 + i)) % 17
        yearly = 10 * np.cos(2 * np.pi * (t / 8760 - 0.3 * i))
        shape[i] = np.round(daily + yearly + (t * (7 + i)) % 5, 2)
    if "whole" in f:  # everything in whole MW: the load file holds the loads themselves
        shape = np.round(shape * np.array([[4.4], [3.3], [2.75]])[:n])
    areas = []
    for i in range(n):
        a = dict(peak=[400.37, 300.53, 250.29][i] if "whole" not in f else float(shape[i].max()))
        if "lfu" in f:
            a["lfu"] = [4.0, 0.0, 7.5][i] if n > 1 else 4.0
        if "tight" in f:
            a["flow"] = [60.75, 45.5, 50.25][i]
        areas.append(a)
    units = []
    for i in range(n):
        p = areas[i]["peak"]
        for k in range(3):
            c = round(p * (0.45, 0.4, 0.35)[k] * margin, 0 if "whole" in f else 1)
            u = dict(area=i, caps=c, fo=(0.05, 0.1, 0.08)[k])
            if "seasons" in f:
                u["caps"] = (c, round(c * 0.9, 1), round(c * 1.05, 1), round(c * 0.95, 1))
            if "derate" in f and k != 1:
                u.update(dfor=0.1, der=37.5)
            if "plan" in f:
                u.update(pa=1, b1=4 + 9 * i + 3 * k, d1=2, b2=30 + k + i, d2=k)
            if "joint" in f and n > 1 and k == 1:
                own = [0.0] * n
                own[i], own[(i + 1) % n] = 62.5, 37.5
                u["own"] = own
            units.append(u)
    for _ in range(seed_shift):
        units.append(dict(area=0, caps=1.0, fo=0.5))
    lines, contracts = [], []
    for i in range(n - 1 - ("split" in f)):  # (split: no line to the last area)
        if "states" in f:
            st = [(-100.0, 70, 55, 0.7), (-60.0, 40, 45, 0.15), (-30.0, 20, 10, 0.1), (0.0, 0, 0, 0.05)]
        else:
            st = [(-100.0, 70, 55, 1.0)]
        lines.append(dict(a=i, b=i + 1, states=st))
    if n > 1 and "states" in f and "split" not in f:
        lines.append(dict(a=n - 1, b=0, states=[(-80.0, 30, 35, 0.8), (-40.0, 15, 15, 0.2)]))
    if n > 1 and "contracts" in f:
        contracts = [(0, 1, 20, 250, 18), (1, 0, 200, 365, 11)]
        if n > 2:
            contracts.append((2, 0, 1, 150, 9))
    return csvsys.Sys(
        areas, units, lines, contracts, shape=shape, STEP=step, FREQ=freq, FIN=years, LS=0 if "sharing" in f else 1, CVT=1e-9, IN=99,
        SEED=(123456, 345237, 77)[(len(f) + seed_shift) % 3],
        MAXE=(1000, 19, 515, 7013)[(len(f) + n + seed_shift) % 4],
        wk=(13, 26, 39))  # fmt: skip


def large(n, size, f, margin, shift):
    """n areas in separate groups of `size` (area k, k + n / size, ...), a dozen units each."""
    f = set(f)
    t = np.arange(8760)
    m = n // size
    shape = np.array([np.round(60 + 20 * np.sin(2 * np.pi * (t % 24 - i) / 24) + (t // 24 * (3 + i)) % 17 + (t * (7 + i)) % 5, 2) for i in range(n)])
    areas = [dict(peak=200.37 + 31.25 * (i * 7 % n)) for i in range(n)]
    if "lfu" in f:
        for i, a in enumerate(areas):
            a["lfu"] = (4.0, 0.0, 7.5, 2.0)[i % 4]
    if "tight" in f:
        for i, a in enumerate(areas):
            a["flow"] = 35.5 + i
    units = []
    for k in range(12):
        for i in range(n):
            # (the last area lists its units first)
            i = n - 1 - i
            u = dict(area=i, caps=round(areas[i]["peak"] * margin * (0.3 if k < 2 else 0.06), 1), fo=(0.05, 0.1, 0.08, 0.02)[k % 4])
            if k == 3:
                u.update(dfor=0.1, der=37.5)
            if k == 1:
                u.update(pa=1, b1=1 + 3 * i, d1=2, b2=30 + i, d2=i % 3)
            if k in (5, 11):
                u.update(pa=1, b1=k + i, d1=40 - i)
            if "joint" in f and k == 0:
                u["own"] = [0.0] * n
                u["own"][i], u["own"][(i + m) % n] = 62.5, 37.5
            units.append(u)
    units = units[: len(units) - shift]
    lines = []
    for i in range(m):
        for k in range(size - 1):
            st = [(-100.0, 70, 55, 0.7), (-60.0, 40, 45, 0.15), (-30.0, 20, 10, 0.1), (0.0, 0, 0, 0.05)] if "states" in f else [(-100.0, 40, 35, 1.0)]
            a, b = i + k * m, i + (k + 1) * m
            lines.append(dict(a=a, b=b, states=st) if i % 2 else dict(a=b, b=a, states=st))
    contracts = [(i, i + m, 10 * i + 1, 200 + i, 9 + i) for i in range(m)] + [(i + m, i, 150, 365, 5) for i in range(m)] if "contracts" in f else []
    S = csvsys.Sys(areas, units, lines, contracts, shape=shape, STEP=24, FREQ=24, FIN=1, LS=1, CVT=1e-9, IN=99, SEED=345237, MAXE=7000, wk=(13, 26, 39))
    S.groups = [np.arange(i, n, m) for i in range(m)]
    return S


def zero_year(n):
    return annual.letter(0, n, 1)


PARTS = {}


def split_net(S, st):
    """The separate networks of a large system, with the lines in the states st."""
    out = []
    for areas in S.groups:
        pos = {a: k for k, a in enumerate(areas)}
        lines = [k for k, l in enumerate(S.lines) if l["a"] in pos]
        d = tuple((pos[S.lines[k]["a"]], pos[S.lines[k]["b"]], st[k][0]) for k in lines)
        if d not in PARTS:
            PARTS[d] = netref.Net(len(areas), d)
        out.append((areas, lines, PARTS[d]))
    return out


def record(y, n, when, tier, m):
    """One loss with margins m enters the statistics of the year."""
    tot = m.sum()
    y["LOL", "T" if tot >= 0 else "G", when, "P"][tier] += 1
    c = "T" if tot >= 0 else "G"
    for j in range(n):
        if m[j] < 0:
            y["LOL", c, when, "A"][j, tier] += 1
            y["MGN", c, when, "A"][j, tier] -= m[j]
            y["MGN", c, when, "P"][tier] -= m[j]


def one(R, case):
    n, feats, step, freq, years, margin, shift = case
    S = system(*case) if isinstance(feats, tuple) else large(n, feats[0], feats[1:], margin, shift)
    answers = []

    def tr(call, a):
        out = call()
        answers.append((float(a["CLOCK"]), int(out[0]), np.array(out[2], float)[:n]))
        return out

    out, _ = sim.run(S, {core.fn("monte_carlo.transm"): tr})
    groups = getattr(S, "groups", None)
    what = "%d areas, %s, step %d, draws every %d h" % (n, "+".join(str(x) for x in feats) or "plain", step, freq)
    NT = ref.tiers(S).shape[1]
    nls = S.mc["LS"]
    al = np.array([a["flow"] for a in S.areas], float)
    nets = {}
    hist, k, calls = [], 0, 0
    for y, hrs in itertools.groupby(ref.hours(S, years), key=lambda r: r.year):
        yr = zero_year(n)
        for r in hrs:
            R.states += 1
            con = r.joint + r.export
            for t in range(NT):
                mg = r.located - r.load[:, t]
                m = np.trunc(np.round(mg, 6))
                if (m >= 0).all():
                    break
                if not (m < 0).all():
                    if k >= len(answers):
                        raise Violation("calls", "%s: year %d, hour %d, tier %d: areas with margins %s did not try to help each other" % (what, y + 1, r.hour, t, mg.tolist()))
                    clock, loss, sadj = answers[k]
                    k += 1
                    key = tuple(r.lines)
                    if key not in nets:
                        st = [l["states"][s] if s < len(l["states"]) else (0, 0, 0, 0) for l, s in zip(S.lines, key)]
                        st = [(abs(s[0]) or 0.5, s[1] or 1.0, s[2] or 1.0) for s in st]
                        nets[key] = (
                            split_net(S, st) if groups else netref.Net(n, [(l["a"], l["b"], s[0]) for l, s in zip(S.lines, st)]),
                            np.array([s[1] for s in st], float), np.array([s[2] for s in st], float))  # fmt: skip
                    N, f, g = nets[key]
                    if groups:
                        ok, want = netref.accept_islands(N, mg, con, f, g, al, r.load[:, t], loss, sadj)
                    else:
                        ok, want = netref.accept(N, n, mg, con, f, g, al, r.load[:, t], nls, loss, sadj)
                    R.transitions += 1
                    if ok is None:
                        R.skipped += 1
                    elif not ok:
                        raise Violation("assistance", "%s: year %d, hour %d, tier %d, margins %s, transfers %s, line states %s: loss %s, unserved %s, expected %s" % (
                            what, y + 1, r.hour, t, mg.tolist(), con.tolist(), key, loss, sadj.tolist(), want[:3]))  # fmt: skip
                    if not loss:
                        break
                    m = np.trunc(-np.round(sadj, 6))
                    if (m >= 0).all():
                        break
                record(yr, n, "H", t, m)
                if r.peak:
                    record(yr, n, "P", t, m)
        hist.append(yr)
    if k != len(answers):
        raise Violation("calls", "%s: the areas helped each other %d times, expected %d (next at clock %s)" % (what, len(answers), k, answers[k][0]))
    R_ = annual.Ref(n, NT, max(S.mc["MAXE"] // 20, 1))
    R_.years = hist
    net = ref.loads(S) + np.repeat(ref.exports(S), 24, axis=1)
    caps = np.array([u["caps"] for u in S.units], float)
    inst = []
    for i in range(n):
        d = int(net[i].argmax()) // 24
        inst.append(float(ref.shares(S)[i] @ caps[:, sum(d // 7 + 1 > w for w in S.mc["wk"])] - ref.exports(S)[i, d]))
    bad = annual.compare_final(out, R_, 1 if step == 24 else 0, ["A%d" % (i + 1) for i in range(n)], [a["peak"] for a in S.areas], inst)
    if bad:
        raise Violation("report", "%s: %s" % (what, bad))
    R.traces += 1
    tot = R_.total("LOL", "S", "H", "P").sum()
    R.outcome("losses: %s" % ("none" if tot == 0 else "some" if tot < 50 else "many"))
    R.sample({"areas": n, "features": feats, "step": step, "years": years, "losses": tot, "helped": len(answers)})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=400, part="%d areas, step %d" % (c[0], c[2]))


def cases():
    F = FEATURES
    all_f = [tuple(x for i, x in enumerate(F) if m >> i & 1) for m in range(2 ** len(F))]
    solo = [x for x in all_f if not set(x) & {"contracts", "joint", "states", "sharing", "tight"}]
    for x in solo:
        for step, freq in ((24, 24), (24, 1), (1, 24), (1, 1)):
            yield 1, x, step, freq, 2, 1.0, 0
    for i, x in enumerate(all_f):
        # uncertainty makes five tiers; every combination once, daily
        yield 2, x, 24, (24, 1)[i % 2], 2, (0.9, 1.0)[i % 2], i % 3
    few = [x for x in all_f if len(x) in (0, 1, len(F) - 1, len(F))]
    for i, x in enumerate(few):
        yield 2, x, 1, (1, 24)[i % 2], 1, 1.0, 0
    for i, x in enumerate(all_f):
        if core.THOROUGH or len(x) in (1, 2, len(F) - 1, len(F)):
            yield 3, x, 24, 24, 1, 1.0, i % 2
    # large systems: separate small networks, many units
    for n, size in ((10, 2), (12, 3), (12, 2)) + (((16, 2), (15, 3)) if core.THOROUGH else ()):
        for i, x in enumerate((("lfu",), ("joint", "contracts", "lfu", "tight"), ("states", "contracts"), ("states", "tight", "joint", "lfu", "contracts"))):
            yield n, [size, *x], 24, 24, 1, (0.95, 1.0, 0.9, 1.05)[i], i
    yield 24, [3, "states", "contracts"], 24, 24, 1, 1.25, 1
    yield 24, [3, "states", "contracts", "tight"], 24, 24, 1, 1.15, 1
    yield 24, [2, "lfu", "joint"], 24, 24, 1, 1.2, 0
    if core.THOROUGH:
        yield 36, [3, "lfu", "joint", "contracts"], 24, 24, 1, 1.15, 1
    # draws at other intervals; areas that no line connects
    for i, x in enumerate(few):
        yield 1 + i % 2, x, 1, (2, 6, 12, 5, 168)[i % 5], 1, 0.95, 0
        yield 2 + i % 2, x + ("split",), 24, 24, 2, (0.9, 1.0)[i % 2], i % 2
        if not {"joint", "seasons", "derate"} & set(x) or len(x) == len(F):
            yield 1 + (i + 1) % 3, x + ("whole",), (1, 24)[i % 2], 24, 2, (0.9, 1.0, 0.8)[i % 3], 0
    if core.THOROUGH:
        for i, x in enumerate(all_f):
            yield 2, x + ("split",), 24, 24, 1, 1.0, i % 3
            yield 3, x + ("split",), 24, 24, 1, 1.0, i % 3
        for i, x in enumerate(all_f):
            yield 2, x, 1, (1, 24)[i % 2], 1, (0.9, 1.0, 1.1)[i % 3], i % 4
        for x in few:
            yield 3, x, 1, 24, 1, 0.95, 0


def run(R):
    cs = list(cases())
    core.pmap(R, chunk, core.chunked(cs, 4))
    return (
        {"runs": len(cs), "features": "all 2^%d combinations for 2 areas (daily), 1 area all, 3 areas %s" % (len(FEATURES), "all" if core.THOROUGH else "small and large sets"),
         "modes": "daily peaks, hourly with draws every 1, 2, 5, 6, 12, 24 or 168 hours", "networks": "chain, ring, chain without a line to the last area, five or six separate pairs, four separate chains of three, 24 areas in chains of two or three", "years": "1..2"},
        ["where the first pass of the assistance has several optimal dispatches the program's own answer is taken over (counted, not judged)"],
    )  # fmt: skip
