"""C20  a run can be continued from its snapshots.

Whole runs of small systems; every snapshot a run writes is a crash point: the
run is abandoned there, a fresh process state is loaded, the snapshot is read
back and the main loop continues.  Everything that follows (final report and
all later snapshots) must be identical to the uninterrupted run.
"""
import copy
import itertools
import os
import pickle

import numpy as np

from checks import c27_reference
from mc import core, csvsys, sim
from mc.core import Violation


def system(k, fin, intv, cvt, step):
    shape = np.full((2, 8760), 64.0)
    shape[:, 5::24] = 96.0
    shape[0, 4000:] = 80.0
    shape[1, 30 * 24 + 7] = 128.0
    shape[0, 30 * 24 + 7] = 128.0
    u = [
        dict(area=0, caps=(60, 61, 62, 63), fo=0.05, dfor=0.1, der=20, b1=1, d1=1),
        dict(area=0, caps=50, fo=0.1),
        dict(area=1, caps=80, fo=0.1),
        dict(area=1, caps=50, fo=0.1, b1=52, d1=1),
    ]
    lines = [dict(a=0, b=1, states=[(-2.0, 10, 10, 0.9), (-1.0, 5, 5, 0.1)])]
    lfu, con, ls = 0.0, [], 1
    if k == 1:
        lfu, con = 5.0, [(0, 1, 1, 20, 3), (1, 0, 350, 365, 4)]
    if k == 2:
        ls, u[0]["own"] = 0, [60, 40]
        lines.append(dict(a=1, b=0, states=[(-1.0, 7, 7, 1.0)]))
    return csvsys.Sys(
        [dict(peak=100.0, lfu=lfu), dict(peak=100.0)], u, lines, con, shape=shape, STEP=step, FREQ=1 if k != 1 else 24,
        FIN=fin, IN=intv, CVT=cvt, LS=ls, II=0, IJ=1 if k == 1 else 0, wk=(13, 26, 39) if k else (1, 2, 51),
        WHERE=k % 2, KVS=1 + k // 2,
    )  # fmt: skip


def featured(feats, n, fin, intv, cvt, step, freq):
    S = c27_reference.system(n, feats, step, freq, fin, 1.0, 0)
    S.mc.update(IN=intv, CVT=cvt)
    return S


def canon(s):
    return {k: np.array(v) for k, v in s.items()}


def same(a, b):
    if set(a) != set(b):
        return "keys"
    for k in a:
        if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k]):
            return k
    return None


def resume(S, snap):
    """Continue from a snapshot file, the way its documentation describes."""
    with open("snapshot", "wb") as f:
        f.write(snap)
    d = copy.deepcopy(sim.load(S))
    data = core.fn("monte_carlo.rstart")("snapshot")
    for k, v in data.items():
        if k == "ATRIB" and np.ndim(v) == 0:
            # only the type of the event is stored
            d["ATRIB"][:] = (data["CLOCK"], v)
        elif k in d:
            d[k] = v
    # what the end of a year implies
    if "IQ" not in data:
        d["IQ"] = 3
    if "JHOUR" not in data:
        d["JHOUR"] = 8759
    for f in ("output.txt", "DUMP.pkl"):
        if os.path.exists(f):
            os.remove(f)
    snaps = []
    im = core.fn("monte_carlo.intm")
    with core.patched({im: spy(im, snaps)}):
        sim.start(d)
    return (open("output.txt").read() if os.path.exists("output.txt") else ""), snaps


def spy(im, snaps):
    def f(*a, **k):
        r = im(*a, **k)
        snaps.append(open("DUMP.pkl", "rb").read())
        return r

    return f


def one(R, case):
    if isinstance(case[0], int):
        S, fin, intv = system(*case), case[1], case[2]
    else:
        S, fin, intv = featured(*case), case[2], case[3]
    snaps = []
    im = core.fn("monte_carlo.intm")

    def watch(call, a):
        r = call()
        snaps.append(open("DUMP.pkl", "rb").read())
        return r

    out, _ = sim.run(S, {im: watch})
    k = out.index("FINAL RESULTS")
    years = [round(float(pickle.loads(s)["CLOCK"]) / 8760, 3) for s in snaps]
    last = int(out[k:].split()[3])
    want = [float(y) for y in range(1, last + 1) if y % intv == 0 or y == fin]
    if years != want:
        raise Violation("when", "snapshots after the years %s of %d, every %d wanted" % (years, last, intv))
    R.outcome("stopped after %d of %d years" % (last, fin))
    for i, s in enumerate(snaps):
        if years[i] >= last:
            continue
        R.states += 1
        R.transitions += 1
        text, later = resume(S, s)
        what = "system %s continued from its snapshot after year %d" % (case, years[i])
        if text.count("FINAL RESULTS") != 1:
            raise Violation("report", "%s printed %d final reports" % (what, text.count("FINAL RESULTS")))
        a, b = out[out.index("FINAL RESULTS") :], text[text.index("FINAL RESULTS") :]
        if a != b:
            la, lb = a.split("\n"), b.split("\n")
            j = next((j for j, (x, y) in enumerate(zip(la, lb)) if x != y), -1)
            raise Violation("differs", "%s reports %r, the uninterrupted run %r" % (what, lb[j], la[j]))
        if len(later) != len(snaps) - i - 1:
            raise Violation("snapshots", "%s wrote %d snapshots, the uninterrupted run %d" % (what, len(later), len(snaps) - i - 1))
        for x, y in zip(later, snaps[i + 1 :]):
            bad = same(canon(pickle.loads(x)), canon(pickle.loads(y)))
            if bad:
                raise Violation("state", "%s: %s in a later snapshot differs from the uninterrupted run" % (what, bad))
        R.traces += 1
    R.sample({"case": case, "snapshot_years": years})


def chunk(R, cases):
    for c in cases:
        R.case(one, c, limit=400, part="system %s" % (c[0],) if isinstance(c[0], int) else "features")


def run(R):
    cases = []
    for k in (0, 1, 2):
        for intv in (1, 2, 3):
            cases.append((k, 5, intv, 1e-9, 24))
        cases.append((k, 12, 1, (0.05, 0.05, 0.04)[k], 24))  # converges on the way
        cases.append((k, 2, 1, 1e-9, 1))  # hour by hour
        if core.THOROUGH:
            for intv in (1, 2, 4, 5):
                cases.append((k, 9, intv, 0.1, 24))
            cases.append((k, 4, 1, 1e-9, 1))
    F = c27_reference.FEATURES
    for m in range(3 if not core.THOROUGH else 4):
        for feats in itertools.combinations(F, m):
            cases.append((feats, 2, 4, 1 + (m == 1), 1e-9, 24, 24))
    for feats in (F, ("states", "plan"), ("contracts", "seasons"), ("derate", "lfu", "joint")):
        cases.append((feats, 3, 3, 1, 1e-9, 24, 24))
        cases.append((feats, 2, 2, 1, 1e-9, 1, 24))
        cases.append((feats, 1, 7, 2, 0.2, 24, 24))
    cases.sort(key=lambda c: -c[2] if not isinstance(c[0], int) and c[5] != 1 else -c[1] if isinstance(c[0], int) and c[4] != 1 else -10**6)
    core.pmap(R, chunk, [[c] for c in cases])
    return (
        {"systems": "3, and every combination of up to 2 (thorough 3) of 9 features for 2 areas, and some for 1 and 3", "crash_points": "every snapshot of every run", "intervals": "1..3 years (thorough ..5)", "horizon": "2..12 years"},
        ["the surrounding program reloads the input files and positions itself at the end of the year"],
    )
