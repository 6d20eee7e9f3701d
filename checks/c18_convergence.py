"""C18  when the simulation stops.

(a) The convergence test alone: every history of annual values over a small
    alphabet, several thresholds.
(b) The annual event: every choice of the statistic to watch (area or pool,
    hourly or peak, LOLE or EUE, average or expected forecast), every history.
(c) The whole main loop with an enumerated environment: every history of
    years; the run must end with the first converged year or at the horizon,
    with one final report over exactly the simulated years.
"""
import contextlib
import copy
import io
import itertools
import math
import os
import re

import numpy as np

from mc import annual, core, csvsys, sim
from mc.core import Violation


def verdict(xs, cvt):
    """True/False: converged after the years xs; None: within round-off."""
    n = len(xs)
    if n < 5:
        return False
    m = sum(xs) / n
    if m == 0:
        return False
    var = max(sum((x - m) ** 2 for x in xs) / n, 0.0)
    se, lim = math.sqrt(var / n), (cvt or 0.025) * m
    if abs(se - lim) < 1e-7 * (1 + m):
        return None
    return se < lim


def between(hists, k):
    """k thresholds, each between two neighbouring values of the ratio that is
    tested at the end of some year of the histories, less than 0.001 apart."""
    r = set()
    for h in hists:
        for n in range(5, len(h) + 1):
            m = sum(h[:n]) / n
            if m:
                r.add(round(math.sqrt(sum((x - m) ** 2 for x in h[:n]) / n / n) / m, 9))
    r = sorted(x for x in r if x > 0)
    mid = [round((a + b) / 2, 7) for a, b in zip(r, r[1:]) if 2e-5 < b - a < 8e-4]
    return mid[:: max(1, len(mid) // k)][:k]


def direct(R, case):
    cvt, first, alpha, depth, fin = case
    f = core.fn("monte_carlo.cvchk")

    def rec(xs, xlast, ssq):
        y = len(xs) + 1
        for v in alpha if xs else [first]:
            x2 = xs + [v]
            tot = xlast + v
            r, s2, xl = f(8760.0 * y, 8760.0 * fin, y, cvt, tot, xlast, ssq)
            R.transitions += 1
            R.states += 1
            if xl != tot or abs(s2 - sum(a * a for a in x2)) > 1e-6 * (1 + s2):
                raise Violation("moments", "annual values %s: sum %s, squares %s" % (x2, xl, s2))
            want = verdict(x2, cvt)
            if want is None and y < fin:
                R.skipped += 1
                R.outcome("within round-off")
            else:
                w = bool(want) or y >= fin
                R.outcome("stop" if w else "go on")
                if bool(r) != w:
                    raise Violation("stop", "annual values %s, threshold %s, horizon %d years: stop %s, expected %s" % (x2, cvt, fin, bool(r), w))
            if y < depth:
                rec(x2, xl, s2)
        if len(xs) == depth - 1:
            R.traces += 1

    rec([], 0.0, 0.0)


def year_letter(k, n, T):
    """Annual results in which every watched statistic has another history."""
    a = annual.letter(0, n, T)
    s = 0
    for w in annual.WHAT:
        for t in "HP":
            for j in range(n):
                for f in range(T):
                    s += 1
                    # constant for some statistics, alternating for others
                    base = 10 + 3 * j + f + (100 if w == "MGN" else 0)
                    v = base + (k * (s % 3) * base) // 4
                    a[w, "G", t, "A"][j, f] = v
            for f in range(T):
                s += 1
                base = 40 + f
                a[w, "T", t, "P"][f] = base + (k * (s % 4) * base) // 3
    return a


def watch(R, case):
    n, T, where, when, stat, typ, loc, cvt = case
    base = annual.load(n, T)
    base.update(KWHERE=where, KVWHEN=when, KVSTAT=stat, KVTYPE=typ, KVLOC=loc, CVTEST=cvt)
    base["IOJ"] = 0
    ev = {k: copy.deepcopy(base[k]) for k in ("EVNTS", "IPOINT", "MFA", "NUMINQ")}
    w, t, lvl = ("LOL" if stat == 1 else "MGN"), ("H" if when == 1 else "P"), ("A" if where == 1 else "P")
    wts = np.array([1.0]) if T == 1 else annual.XPROB
    depth = 7 if core.THOROUGH else 6

    def value(y):
        v = annual.Ref.one(y, w, "S", t, lvl)
        v = v[loc] if lvl == "A" else v
        return float(v[:T] @ wts) if typ == 1 else float(v[T // 2])

    def rec(d, hist, xs):
        for k in (0, 1):
            e = copy.deepcopy(d)
            e.update(copy.deepcopy(ev))
            if os.path.exists("output.txt"):
                os.remove("output.txt")
            y = year_letter(k, n, T)
            for (a, c, b, l), v in y.items():
                e[a + c + b + l][...] = v
            e["CLOCK"] = 8760.0 * (len(hist) + 1)
            out = core.fn("monte_carlo.year")(**e)
            for name, v in zip(("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB"), out):
                e[name] = v
            R.transitions += 1
            R.states += 1
            x2, h = xs + [value(y)], hist + [k]
            want = verdict(x2, cvt)
            text = open("output.txt").read() if os.path.exists("output.txt") else ""
            rep = text.count("FINAL RESULTS")
            if want is None:
                R.skipped += 1
                continue
            R.outcome("stop" if want else "go on")
            if bool(e["RFLAG"]) != want or rep != int(want):
                raise Violation(
                    "watch",
                    "watching %s %s of %s (%s forecast), annual values %s, threshold %s: stop %s with %d reports, expected stop %s"
                    % ("hourly" if when == 1 else "peak", w, "area %d" % loc if where == 1 else "the pool",
                       "average" if typ == 1 else "expected", x2, cvt, bool(e["RFLAG"]), rep, want))  # fmt: skip
            if len(h) < depth and not want:
                rec(e, h, x2)
            else:
                R.traces += 1

    rec(base, [], [])


def whole(R, case):
    hists, cvt, fin, kvt = case
    shape = np.full((2, 8760), 64.0)
    S = csvsys.Sys(
        [dict(peak=64.0), dict(peak=64.0)], [dict(area=0, caps=32.0), dict(area=1, caps=128.0)],
        [dict(a=0, b=1, states=[(-2.0, 10, 10, 1.0)])], shape=shape, STEP=24, FREQ=24, FIN=fin, CVT=cvt, IN=999,
        KVS=1, KVT=kvt, WHERE=0,
    )  # fmt: skip
    # the histograms etc. are C17/C19; here a year is just its number of loss days
    st = sim.load(S)
    tr = core.fn("monte_carlo.transm")
    R.sample({"loss_days": hists[0], "threshold": cvt, "horizon": fin})
    for hist in hists:
        last = [0]

        bind = core.binder(tr)

        def env(*a, _h=hist, **k):
            b = bind(a, k)
            h = int(b["CLOCK"]) - 24
            y, day = h // 8760, (h % 8760) // 24
            last[0] = max(last[0], y + 1)
            days = _h[y] if y < len(_h) else 0
            return int(day < days), np.zeros(1), np.array([7.0, -1.0])

        d = copy.deepcopy(st)
        if os.path.exists("output.txt"):
            os.remove("output.txt")
        with core.patched({tr: env}):
            sim.start(d)
        R.transitions += 1
        want = None
        for y in range(5, fin + 1):
            v = verdict(list(hist[:y]), cvt)
            if v is None:
                want = 0
                break
            if v:
                want = y
                break
        if want == 0:
            R.skipped += 1
            continue
        want = want or fin
        text = open("output.txt").read()
        reps = re.findall(r"FINAL RESULTS AFTER\s+(\d+)", text)
        R.states += 1
        R.traces += 1
        R.outcome("run of %d years" % want)
        if last[0] != want or reps != [str(want)]:
            raise Violation(
                "run", "loss days per year %s, threshold %s, horizon %d: simulated %d years, reports over %s years, expected %d"
                % (hist, cvt, fin, last[0], reps, want))  # fmt: skip


def progress(what, text, xs, cvt, vs):
    """From the fifth year on the user is told how far the statistic is."""
    got = re.findall(r"(\d+)\s*-th REPLICATION;\s*SUM=\s*(\S+)\s+NEW=\s*(\S+)\s+MEAN=\s*(\S+)\s+CONVERGENCE=\s*(\S+)", text)
    if [int(g[0]) for g in got] != list(range(5, len(xs) + 1)):
        raise Violation("progress", "%s: progress was reported for the years %s" % (what, [int(g[0]) for g in got]))
    for g in got:
        n = int(g[0])
        h = xs[:n]
        m = sum(h) / n
        want = [sum(h), h[-1], m, math.sqrt(sum((x - m) ** 2 for x in h) / n / n) / ((cvt or 0.025) * m) if m else 0.0]
        if any(abs(float(a) - b) > 1e-6 * (1 + abs(b)) for a, b in zip(g[1:], want)):
            raise Violation("progress", "%s: told after year %d: sum, new, mean, convergence %s, expected %s" % (what, n, g[1:], want))
    if vs[-1] is not None and ("SIMULATION CONVERGED" in text) != vs[-1]:
        raise Violation("progress", "%s: converged: %s, told: %s" % (what, vs[-1], not vs[-1]))


def options(R, case):
    """The choice the user makes in the input file is the statistic that is watched."""
    where, when, stat, typ, loc, cvt, fin = case
    t = np.arange(8760)
    shape = np.vstack([30 + 30 * np.maximum(np.sin(2 * np.pi * (t % 24 - 8) / 24), 0) ** 8 + t // 24 % 13 * 2, 30 + 30 * np.maximum(np.cos(2 * np.pi * (t % 24) / 24), 0) ** 8 + t // 24 % 7])
    S = csvsys.Sys(
        [dict(peak=84.3, lfu=6.0), dict(peak=68.7, lfu=2.0)],
        [dict(area=0, caps=55, fo=0.1), dict(area=0, caps=50, fo=0.1), dict(area=1, caps=60, fo=0.05), dict(area=1, caps=35.5, fo=0.2)],
        [dict(a=0, b=1, states=[(-2.0, 10, 10, 1.0)])], shape=shape, STEP=1, FREQ=24, FIN=fin, CVT=cvt, IN=999,
        KVS=stat, KVT=typ, KVL=loc + 1, WHERE=where, WHEN=when,
    )  # fmt: skip
    console = io.StringIO()
    with contextlib.redirect_stdout(console):
        ev, out = sim.observe(S)
    years = [[]]
    for e in ev:
        if e[0] == "Y":
            years.append([])
        else:
            years[-1].append(e)
    years = years[:-1]
    xs = []
    for y in years:
        v = np.zeros(5)
        for kind, tier, m in y:
            if kind == ("H" if when == 1 else "P"):
                if where == 1:
                    v[tier] += (m[loc] < 0) if stat == 1 else max(-m[loc], 0)
                else:
                    v[tier] += 1 if stat == 1 else sum(max(-x, 0) for x in m)
        xs.append(float(v @ annual.XPROB) if typ == 1 else v[2])
    R.states += len(years)
    R.transitions += len(ev)
    what = "watching %s %s of %s (%s forecast), threshold %s, horizon %d: annual values %s" % (
        "hourly" if when == 1 else "peak", "LOLE" if stat == 1 else "EUE", "area %d" % (loc + 1) if where == 1 else "the pool",
        "average" if typ == 1 else "expected", cvt, fin, xs)  # fmt: skip
    vs = [verdict(xs[:k], cvt) for k in range(1, len(xs) + 1)]
    reps = re.findall(r"FINAL RESULTS AFTER\s+(\d+)", out)
    if reps != [str(len(xs))]:
        raise Violation("options", "%s: reports over %s years" % (what, reps))
    if any(vs[:-1]) or (vs[-1] is False and len(xs) < fin) or len(xs) > fin:
        raise Violation("options", "%s: stopped after %d years, converged after the years: %s" % (what, len(xs), vs))
    progress(what, console.getvalue(), xs, cvt, vs)
    R.outcome("stopped after %d years" % len(xs))
    R.traces += 1
    R.sample({"choice": [where, when, stat, typ, loc], "annual_values": xs})


def chunk(R, jobs):
    for name, c in jobs:
        R.case({"direct": direct, "watch": watch, "whole": whole, "options": options}[name], c, limit=400, part=name)


def run(R):
    jobs = []
    alpha = (0.0, 1.0, 3.0, 4.0)
    for cvt in (0.0, 0.025, 0.1, 0.3, 1.0):
        for first in alpha:
            for fin in (6, 30) if not core.THOROUGH else (5, 6, 8, 30):
                jobs.append(("direct", (cvt, first, alpha, 9 if core.THOROUGH else 7, fin)))
    for n, T in ((2, 5), (3, 1), (1, 5)):
        for where in (0, 1):
            for when, stat, typ in itertools.product((1, 2), repeat=3):
                for loc in range(n) if where == 1 else (0,):
                    for cvt in (0.03, 0.08, 0.15):
                        if n == 1 and cvt != 0.08:
                            continue
                        jobs.append(("watch", (n, T, where, when, stat, typ, loc, cvt)))
    fin = 7
    H = list(itertools.product((0, 9, 10, 40), repeat=fin)) if core.THOROUGH else [
        h[:5] + g for h in itertools.product((0, 9, 10), repeat=5) for g in ((10, 10), (0, 9), (40, 10))
    ]  # fmt: skip
    for c in core.chunked(H, 30):
        jobs.append(("whole", (c, 0.05, fin, 1)))
    # thresholds between neighbouring attainable ratios of deviation to mean
    some = H[:: 7 if core.THOROUGH else 11]
    for cvt in between(some, 12 if core.THOROUGH else 6):
        jobs.append(("whole", (some, cvt, fin, 1)))
    for c in core.chunked(H[:: 5], 30):
        jobs.append(("whole", (c, 0.3, fin, 2)))
    k = 0
    for where in (1, 2, 0):
        for when, stat, typ in itertools.product((1, 2), repeat=3):
            for loc in (0, 1) if where == 1 else (0,):
                k += 1
                if where == 0 and not core.THOROUGH:
                    continue
                for cvt in (0.03, 0.06, 0.12) if core.THOROUGH else ((0.05, 0.1)[k % 2],):
                    jobs.insert(0, ("options", (where, when, stat, typ, loc, cvt, 12 if core.THOROUGH else 8)))
    core.pmap(R, chunk, [[j] for j in jobs])
    return (
        {"direct": "4 values ^ 7 years x 5 thresholds x 2 horizons", "watch": "all 16 choices x areas, 2^6 histories, 3 thresholds",
         "whole": "%d histories of %d years" % (len(H), fin)},
        ["values within round-off of the threshold are not judged"],
    )  # fmt: skip
