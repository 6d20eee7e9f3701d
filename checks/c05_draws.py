"""C05  random draws pick every state with exactly its stated probability.

With the seed 123456 the pseudo-random generator of a unit or line can only
ever be in one of 2^24 states (64 x odd numbers below 2^25).  All of them are
enumerated: in every one the real sampling functions must advance to the right
successor and pick the state that inverts the cumulative distribution, and over
all of them every state must come up with its stated probability.  Other seeds
reach other states: there all states next to a boundary of the distribution are
enumerated as well.
"""
import itertools

import numpy as np

from mc import core, csvsys, sim
from mc.core import Violation

MULT = 65539
MASK = (1 << 31) - 1
SCALE = 0.4656613e-9
BLOCK = 1 << 12
NSTATES = 1 << 24

# (partial outage rate, full outage rate, derating %)
UNITS = [(0.0, 0.0, 0), (0.02, 0.01, 50), (0.1, 0.25, 30), (0.5, 0.5, 80), (0.0, 1.0, 0), (1.0, 0.0, 10)]
LINES = [
    (1.0, 0, 0, 0, 0, 0),
    (0.9, 0.06, 0.02, 0.01, 0.006, 0.004),
    (0.25, 0.25, 0.25, 0.125, 0.0625, 0.0625),
    (0.0, 0.5, 0.0, 0.0, 0.5, 0.0),
]


def seeds(block):
    k = np.arange(block * BLOCK, (block + 1) * BLOCK, dtype=np.int64)
    return (64 * (2 * k + 1)).astype(np.int64)


def edges(kind, which):
    """All generator states whose next number is next to a boundary."""
    if kind == "unit":
        d, f, _ = UNITS[which]
        cum = [1 - d - f, 1 - f]
    else:
        cum = np.add.accumulate(LINES[which])[:5]
    nxt = set()
    for p in list(cum) + [0.0, 1.0]:
        c = int(p / SCALE)
        nxt |= set(range(max(c - BLOCK, 1), min(c + BLOCK, MASK) + 1))
    back = pow(MULT, -1, MASK + 1)
    return np.array(sorted((x * back) & MASK for x in nxt), dtype=np.int64)


def successor(s):
    return (s * MULT) & MASK


def gen_block(R, case):
    kind, which, b0, b1 = case
    gst, lst = core.fn("monte_carlo.gstate"), core.fn("monte_carlo.lstate")
    counts = np.zeros(7, dtype=np.int64)
    edge = edges(kind, which) if b1 is None else None
    for b in range(b0, b1) if edge is None else range(-(-len(edge) // BLOCK)):
        s = seeds(b) if edge is None else np.resize(edge[b * BLOCK :], BLOCK)
        nxt = successor(s)
        u = nxt * SCALE
        work = np.append(s, 0).astype(np.int32)
        if kind == "unit":
            dfor, fo, der = UNITS[which]
            prob = np.tile([1 - dfor - fo, 1 - fo], (BLOCK, 1))
            der = np.full(BLOCK, 1 - der / 100.0)
            plan = np.ones(BLOCK)
            plan[::7] = 0.0
            rating = np.full(BLOCK, 64.0)
            pct, avail = gst(work, prob, rating, der, plan)
            pct, avail = np.asarray(pct).ravel(), np.asarray(avail).ravel()
            want = np.where(u < prob[:, 0], 0, np.where(u < prob[:, 1], 1, 2))
            val = np.array([1.0, der[0], 0.0])[want]
            if np.abs(pct - val).max() > 1e-12 or np.abs(avail - val * 64.0 * plan).max() > 1e-9:
                i = np.argmax(np.abs(pct - val) + np.abs(avail - val * 64.0 * plan))
                raise Violation(
                    "unit",
                    "random number %.9f of a unit with partial/full outage rates %s gave availability %g (%g MW), "
                    "expected %g (%g MW)" % (u[i], UNITS[which][:2], pct[i], avail[i], val[i], val[i] * 64.0 * plan[i]),
                )
        else:
            cum = np.add.accumulate(np.array(LINES[which]))
            prob = np.tile(cum[:, None], (1, BLOCK))
            got = np.asarray(lst(work, prob)).ravel()
            want = (u[:, None] > cum[None, :5]).sum(axis=1)
            if (got != want + 1).any():
                i = np.argmax(got != want + 1)
                raise Violation(
                    "line",
                    "random number %.9f of a line with state probabilities %s gave state %d, expected %d"
                    % (u[i], LINES[which], got[i], want[i] + 1),
                )
        if (work[:-1].astype(np.int64) != nxt).any():
            i = np.argmax(work[:-1].astype(np.int64) != nxt)
            raise Violation(
                "successor", "generator state %d was followed by %d, expected %d" % (s[i], work[i], nxt[i])
            )
        counts[:6] += np.bincount(want, minlength=6)[:6]
        R.transitions += BLOCK
    if edge is not None:
        R.states += len(edge)
        R.traces += 1
        return
    for i in range(6):
        R.outcomes["%s%d/state%d" % (kind, which, i)] += int(counts[i])
    R.states += (b1 - b0) * BLOCK
    R.traces += 1


def freq(R, which, every):
    """Frequencies over all generator states (uses the counts of gen_block)."""
    for kind, table in (("unit", UNITS), ("line", LINES)):
        for w in which[kind]:
            if kind == "unit":
                d, f, _ = table[w]
                p = [1 - d - f, d, f, 0, 0, 0]
            else:
                p = table[w]
            tot = sum(R.outcomes["%s%d/state%d" % (kind, w, i)] for i in range(6))
            for i in range(6):
                n = R.outcomes["%s%d/state%d" % (kind, w, i)]
                if tot and abs(n / tot - p[i]) > 2e-6:
                    R.viol(
                        "frequency",
                        "%s with probabilities %s: state %d comes up with frequency %.7f" % (kind, p, i, n / tot),
                        [kind, w],
                    )


def parsed(R, case):
    """The outage rates the user enters reach the sampling as stated: every
    unit and line of a whole run, hour by hour, follows the distribution."""
    rates, lines, step, frq = case
    S = csvsys.Sys(
        [dict(peak=4096.0), dict(peak=4096.0)],
        [dict(area=i % 2, caps=100, dfor=d, fo=f, der=q) for i, (d, f, q) in enumerate(rates)],
        lines=[dict(a=0, b=1, states=[(-100, 10 * k + 10, 10 * k + 11, p) for k, p in enumerate(l)]) for l in lines],
        STEP=step,
        FREQ=frq,
        FIN=1,
    )
    draws = []
    g, l = core.fn("monte_carlo.gstate"), core.fn("monte_carlo.lstate")

    def gs(call, a):
        out = call()
        draws.append(("g", np.asarray(out[0]).ravel().copy(), np.asarray(out[1]).ravel().copy()))
        return out

    def ls(call, a):
        out = call()
        draws.append(("l", np.asarray(out).ravel().copy()))
        return out

    sim.run(S, {g: gs, l: ls})
    ndraw = 8760 if (step, frq) == (1, 1) else 365
    gd = [d for d in draws if d[0] == "g"]
    ld = [d for d in draws if d[0] == "l"]
    if len(gd) != ndraw or len(ld) != ndraw:
        raise Violation("draws", "%d unit and %d line draws in a year, expected %d" % (len(gd), len(ld), ndraw))
    seed, us, lsd = 123456, [], []
    for _ in rates:
        seed = (seed * 9649599) & MASK
        us.append(seed)
    for _ in lines:
        seed = (seed * 9649599) & MASK
        lsd.append(seed)
    us, lsd = np.array(us, dtype=np.int64), np.array(lsd, dtype=np.int64)
    for t in range(ndraw):
        us = successor(us)
        lsd = successor(lsd)
        for i, (d, f, q) in enumerate(rates):
            u = us[i] * SCALE
            want = 1.0 if u < 1 - d - f else (1 - q / 100.0 if u < 1 - f else 0.0)
            if abs(gd[t][1][i] - want) > 1e-9 or abs(gd[t][2][i] - 100 * want) > 1e-6:
                raise Violation(
                    "rates",
                    "unit %d (partial/full outage rates %s, derating %s%%) is at %s (%s MW of 100) in draw %d, "
                    "expected %s" % (i + 1, (d, f), q, gd[t][1][i], gd[t][2][i], t + 1, want),
                )
        for i, p in enumerate(lines):
            want = 1 + (lsd[i] * SCALE > np.add.accumulate(p)[:5]).sum()
            if ld[t][1][i] != want:
                raise Violation(
                    "lines", "line %d (%s) is in state %s in draw %d, expected %d" % (i + 1, p, ld[t][1][i], t + 1, want)
                )
    R.states += ndraw
    R.transitions += 2 * ndraw
    R.traces += 1
    R.sample({"rates": rates, "lines": lines, "step": step, "freq": frq})


def chunk(R, cases):
    for c in cases:
        if c[0] == "parse":
            R.case(parsed, c[1], limit=200, part="rates-end-to-end")
        else:
            R.case(gen_block, c, limit=240, part="states-%s" % c[0])


def run(R):
    which = {"unit": [1, 2, 4, 5], "line": [1, 2]}
    if core.THOROUGH:
        which = {"unit": list(range(len(UNITS))), "line": list(range(len(LINES)))}
    nb = NSTATES // BLOCK
    cases = []
    for kind in which:
        for w in which[kind]:
            n = nb if w in (1, 2) or core.THOROUGH else nb // 16
            step = 256 if n == nb else n
            cases += [(kind, w, b, min(b + step, n)) for b in range(0, n, step)]
    cases += [(kind, w, 0, None) for kind, t in (("unit", UNITS), ("line", LINES)) for w in range(len(t))]
    rates = [
        [(0.02, 0.01, 50), (0.1, 0.25, 30), (0.5, 0.5, 80)],
        [(0.0, 1.0, 0), (1.0, 0.0, 10), (0.0, 0.0, 0), (0.3, 0.0, 100)],
        [(0.05, 0.1, 25)] * 7,
        # rates to four decimals, deratings to fractions of a percent
        [(0.0149 + 0.0153 * (i % 9), 0.0249 + 0.0347 * (i % 7), 12.25 + 7.375 * (i % 11)) for i in range(24)],
    ]
    rates[3] = [(round(d, 4), round(f, 4), q) for d, f, q in rates[3]]
    lines = [
        [LINES[1]],
        [LINES[2], LINES[3], LINES[0]],
        [LINES[1], LINES[2]],
        [(0.8713, 0.0649, 0.0351, 0.0151, 0.0087, 0.0049), (0.4444, 0.1111, 0.1115, 0.1109, 0.1113, 0.1108)],
    ]
    for (r, l), (st, fr) in itertools.product(zip(rates, lines), ((1, 1), (1, 24), (24, 1))):
        cases.append(("parse", (r, l, st, fr)))
    core.pmap(R, chunk, [[c] for c in cases])
    freq(R, {k: [w for w in v if w in (1, 2) or core.THOROUGH] for k, v in which.items()}, None)
    return (
        {
            "generator_states": "all 2^24 reachable states x %d unit and %d line distributions"
            % (len(which["unit"]), len(which["line"])),
            "end_to_end": "one simulated year for 4 systems x 3 step/draw modes, every draw",
        },
        ["seed 123456: states are 64 x odd numbers; of the other states (other seeds) those within %d of a boundary" % BLOCK],
    )
