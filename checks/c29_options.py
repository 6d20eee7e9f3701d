"""C29  what the user asks to be printed does not change what is computed.

Whole runs of several systems under every combination of the printing and
storing options (transmission trace, annual reports, snapshot interval, input
and schedule printing).  The final report must be the same in all of them,
annual reports appear exactly if asked for, and the transmission trace holds
one record for every optimised dispatch, in order, with the flows and the
shortages the simulation went on with.
"""
import itertools
import re

import numpy as np

from mc import core, csvsys, ref, sim
from mc.core import Violation


def system(name, **mc):
    t = np.arange(8760)
    shape = np.vstack([60 + (t // 24 % 7) * 5 + t % 24, 60 + (t // 24 % 5) * 7 + t % 24, 50 + (t // 24 % 11) * 3 + t % 24])
    A = [dict(peak=100.3), dict(peak=80.7), dict(peak=60.9)]
    U = [
        dict(area=0, caps=60.5, fo=0.05), dict(area=0, caps=40.5, b1=3, d1=2, dfor=0.2, der=40),
        dict(area=1, caps=90, fo=0.1, dfor=0.2, der=50), dict(area=2, caps=65, fo=0.2, b1=10, d1=4, b2=11, d2=6),
    ]  # fmt: skip
    L = [dict(a=0, b=1, states=[(-10, 18.4, 17.6, 0.8), (-5, 9.5, 8.3, 0.2)]), dict(a=1, b=2, states=[(-7, 12.45, 13.35, 1.0)]), dict(a=2, b=0, states=[(-3, 9.4, 9.6, 0.9), (-2, 4.5, 4.4, 0.1)])]
    C = [(0, 1, 5, 119, 10.3), (1, 2, 100, 300, 6.4)]
    n, l, c, k = {"two": (2, 1, 1, 3), "three": (3, 3, 2, 4), "sharing": (3, 3, 2, 4), "one": (1, 0, 0, 2), "uncertain": (2, 1, 1, 3)}[name]
    if name == "sharing":
        mc["LS"] = 0
    A = A[:n]
    if name == "uncertain":
        A = [dict(a, lfu=3.0 + 2 * i) for i, a in enumerate(A)]
    return csvsys.Sys(A, U[:k], L[:l], C[:c], shape=shape[:n], **mc)


TRACE = "traout.txt "


def final(out):
    # tables are numbered through, so the numbers depend on the annual reports printed
    return re.sub(r"TABLE\s+\d+", "TABLE", out[out.index("FINAL RESULTS AFTER") :])


def one(R, case):
    name, step, years = case
    base, ans0 = None, None
    for ii, ij, ir, iv, d, m in itertools.product((0, 1), (0, 1), (0, 1), (1, 2, 99), (0, 1), (0, 1)):
        if not core.THOROUGH and (ir, d, m) not in ((0, 0, 1), (1, 1, 0)):
            continue
        S = system(name, STEP=step, FREQ=24, FIN=years, II=ii, IJ=ij, IR=ir, IN=iv, D=d, M=m)
        ans = []

        def help_(call, a):
            r = call()
            ans.append([float(a["CLOCK"]), float(r[0])] + [float(x) for x in r[2]])
            return r

        out, kept = sim.run(S, {core.fn("monte_carlo.transm"): help_}, keep=(TRACE, TRACE.strip(), "DUMP.pkl"))
        left = kept.pop("DUMP.pkl", None) is not None
        what = "%s, step %d, trace %d, annual reports %d, keep snapshot %d, snapshot interval %d, print input %d, print schedule %d" % (name, step, ii, ij, ir, iv, d, m)
        R.states += 1
        R.transitions += 1
        if out.count("FINAL RESULTS AFTER") != 1:
            raise Violation("final", "%s: %d final reports" % (what, out.count("FINAL RESULTS AFTER")))
        f = final(out)
        base = base or f
        if ans0 is None:
            ans0 = ans
        k = next((k for k, (x, y) in enumerate(zip(ans, ans0)) if not np.allclose(x, y, rtol=0, atol=1e-6)), min(len(ans), len(ans0)))
        if k < max(len(ans), len(ans0)):
            raise Violation("hours", "%s: [clock, loss, unserved ...] is %s, without printing %s" % (what, ans[k : k + 1], ans0[k : k + 1]))
        if f != base:
            a, b = f.split(), base.split()
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation("final", "%s: the final report differs from the one without printing: ...%s, expected ...%s" % (what, a[max(0, k - 5) : k + 5], b[max(0, k - 5) : k + 5]))
        reps = re.findall(r"(?<!FINAL )RESULTS AFTER\s+(\d+)\s+REPL", out)
        want = [str(y + 1) for y in range(years)] if ij else []
        if reps != want:
            raise Violation("annual", "%s: annual reports after the years %s, expected %s" % (what, reps, want))
        if left != bool(ir):
            raise Violation("snapshot", "%s, %d years: the snapshot was %s" % (what, years, "left behind" if left else "not kept"))
        if bool(kept) and not ii:
            raise Violation("trace", "%s: a transmission trace was written" % what)
    R.traces += 1
    R.outcome(name)
    R.sample({"system": name, "step": step, "years": years})


def parse(text, n, nl):
    """Records of the trace: (clock, hour, pass, units, area rows, line rows)."""
    tok = text.split("\n")
    rows = [[float(x) for x in l.split()] for l in tok if l.split()]
    out, i = [], 0
    while i < len(rows):
        head = rows[i]
        k = int(rows[i + 1][0])
        units = [int(r[0]) for r in rows[i + 2 : i + 2 + k]]
        i += 2 + k
        out.append((head[0], head[1], int(head[2]), units, rows[i : i + n], rows[i + n : i + n + nl]))
        i += n + nl
    return out


def trace(R, case):
    name, step = case
    S = system(name, STEP=step, FREQ=24, FIN=1, II=1, IN=99)
    n, nl = len(S.areas), len(S.lines)
    got, busy = [], [False]

    def lp(call, a):
        busy[0] = True
        return call()

    def tm2(call, a):
        busy[0] = False
        r = call()
        if busy[0]:
            got.append((float(a["LCLOCK"]), int(a["JHOUR"]), int(a["JFLAG"]), np.array(r[0], float)[:nl], np.array(a["BN"], float)[:n]))
        return r

    spies = {core.fn("monte_carlo.tm2"): tm2, core.fn("monte_carlo.linp"): lp}
    out, kept = sim.run(S, spies, keep=(TRACE, TRACE.strip()))
    text = b"".join(kept.values()).decode()
    try:
        recs = parse(text, n, nl)
    except (IndexError, ValueError):
        raise Violation("format", "%s: the transmission trace cannot be read:\n%s" % (name, text[:500]))
    # units that are not fully available in every hour
    short = {}
    for r in ref.hours(S, 1):
        w = r.day // 7 + 1 if step == 24 else r.hour // 168 + 1
        short[r.hour] = sorted(i for i, u in enumerate(S.units) if ref.on_plan(u, w) or r.pct[i] < 1.0)
    for k, (clock, hour, loss, flow, BN) in enumerate(got):
        R.states += 1
        R.transitions += 1
        what = "%s, clock %g, pass %d: flows %s, areas %s" % (name, clock, loss + 1, flow.tolist(), BN.tolist())
        if k >= len(recs):
            raise Violation("missing", "no record of " + what)
        r = recs[k]
        what += "; record %s" % (r,)
        if r[:3] != (clock, hour, loss):
            raise Violation("order", what)
        if sorted(abs(x) for x in r[3]) != short[hour]:
            raise Violation("units", "units not available: %s; %s" % (short[hour], what))
        col = 2 if loss == 0 else 1
        if any(abs(row[0] - j) > 0.51 or abs(row[col] - BN[j, 1]) > 0.51 for j, row in enumerate(r[4])):
            raise Violation("areas", what)
        if any(abs(row[6] - x) > 0.51 for row, x in zip(r[5], flow)):
            raise Violation("flows", what)
        R.outcome("%s, pass %d, %s" % (name, loss + 1, "shortage" if BN[:, 1].max() > 1e-6 else "none"))
    if len(got) != len(recs):
        raise Violation("records", "%s: record %d of the trace (%s) belongs to no calculation" % (name, len(got), recs[len(got)]))
    if n > 1 and not got:
        raise Violation("harness", "%s: nothing was optimised" % name)
    R.traces += 1
    R.sample({"trace": name, "records": len(recs)})


KIND = {"options": one, "trace": trace}


def chunk(R, cases):
    for kind, c in cases:
        R.case(KIND[kind], c, limit=240, part=kind)


def run(R):
    cs = [("options", (s, 24, y)) for s in ("one", "two", "three", "sharing", "uncertain") for y in (1, 3)]
    cs += [("options", (s, 1, 1)) for s in ("two", "uncertain")] if core.THOROUGH else []
    cs += [("trace", (s, st)) for s in ("two", "three", "sharing", "uncertain") for st in (24, 1)]
    core.pmap(R, chunk, [[c] for c in cs])
    return (
        {"options": "all combinations of trace, annual reports, keep/print flags and 3 snapshot intervals", "systems": 5, "years": "1, 3"},
        ["a dispatch that needs no optimisation leaves no record in the trace", "numbers in the trace are rounded to 1 MW: compared to 0.51 MW"],
    )
