"""C30  the form in which the input is written does not matter.

Small systems are written in every order of the rows of every card (serial
numbers kept), with every subset of the optional files left out, under titles,
line numbers and serial numbers of all kinds, with the columns in another order
and with other line ends.  The whole program is run on every form; what the
network calculation is asked and answers in every hour, what is recorded as
lost, and the final report must be the same as for the plain form.
"""
import csv
import io
import itertools
import os

import numpy as np

from mc import core, csvsys, sim
from mc.core import Violation

OPTIONAL = ("ZZFC", "ZZOD", "ZZDD")
TITLES = ("CASE B", "A, B, C", "2023", '"q, r" s', "x 1,2", "it's 5'")


def system(contracts=True, owners=True):
    n = 3
    t = np.arange(8760)
    shape = np.vstack([60 + (t // 24 % (7 + i)) * (5 + i) + (t + 5 * i) % 24 for i in range(n)])
    A = [dict(peak=90.3, flow=45), dict(peak=72.7, flow=60), dict(peak=54.9, flow=52)]
    U = [
        dict(area=0, caps=(50, 60, 55, 50), fo=0.1), dict(area=1, caps=70, dfor=0.3, der=40, fo=0.05),
        dict(area=2, caps=55, fo=0.3, b1=7, d1=3, b2=40, d2=2), dict(area=0, caps=(32, 30, 35, 40), fo=0.2, b1=20, d1=5),
        dict(area=1, caps=20, fo=0.15),
    ]  # fmt: skip
    if owners:
        U[1]["own"], U[2]["own"] = [30, 60, 10], [0, 25, 75]
    L = [
        dict(a=0, b=1, states=[(-10, 18, 17, 0.8), (-5, 9, 8, 0.2)]), dict(a=2, b=1, states=[(-7, 12, 13, 0.7), (-3, 5, 4, 0.3)]),
        dict(a=0, b=2, states=[(-3, 9, 11, 0.6), (-2, 4, 3, 0.4)]),
    ]  # fmt: skip
    C = [(0, 1, 5, 119, 6), (1, 2, 100, 300, 4), (2, 0, 200, 330, 3)]
    return csvsys.Sys(A, U, L, C if contracts else (), shape=shape, STEP=24, FREQ=24)


def table(d, card):
    with open(os.path.join(d, card + ".csv"), newline="") as f:
        return list(csv.reader(f))


def store(d, card, rows, end="\n", tail=True):
    s = io.StringIO()
    csv.writer(s, lineterminator=end).writerows(rows)
    s = s.getvalue()
    with open(os.path.join(d, card + ".csv"), "w", newline="") as f:
        f.write(s if tail else s.rstrip("\r\n"))


def run_form(S, form):
    """form: list of (what, ...) changes of the written files."""

    def tweak(d):
        for what, *arg in form:
            if what == "missing":
                os.remove(os.path.join(d, arg[0] + ".csv"))
            elif what == "order":
                card, perm = arg
                head, *rows = table(d, card)
                store(d, card, [head] + [rows[k] for k in perm])
            elif what == "serial":
                card, sn = arg
                head, *rows = table(d, card)
                k = head.index("SN")
                store(d, card, [head] + [r[:k] + [str(x)] + r[k + 1 :] for r, x in zip(rows, sn)])
            elif what == "number":
                head, *rows = table(d, "ZZTD")
                k = head.index("LINE NUMBER")
                store(d, "ZZTD", [head] + [r[:k] + [str(x)] + r[k + 1 :] for r, x in zip(rows, arg[0])])
            elif what == "title":
                with open(os.path.join(d, "ZZTC.csv"), "w") as f:
                    f.write("".join(x + "\n" for x in arg[0]))
            elif what == "columns":
                card, perm, extra = arg
                rows = table(d, card)
                rows = [[r[k % len(r)] for k in perm] + (["REMARK" if i == 0 else "see, note %d" % i] if extra else []) for i, r in enumerate(rows)]
                store(d, card, rows)
            elif what == "ends":
                card, end, tail = arg
                store(d, card, table(d, card), end, tail)

    asked, lost = [], []

    def help_(call, a):
        r = call()
        asked.append(np.concatenate([[float(a["CLOCK"])]] + [np.asarray(a[k], float).ravel() for k in ("TRNSFR", "TRNSFJ", "SYSCON", "CAPREQ", "LNSTAT")] + [[float(r[0])], np.asarray(r[2], float)]))
        return r

    def h(call, a):
        lost.append((int(a["NST"]), [float(x) for x in a["MARGIN"]]))
        return call()

    out, _ = sim.run(S, {core.fn("monte_carlo.transm"): help_, core.fn("monte_carlo.hrstat"): h}, tweak=tweak)
    return asked, lost, out


_REF = {}


def one(R, case):
    key, form = case
    S = system(*key)
    if key not in _REF:
        _REF[key] = run_form(S, [])
    a0, l0, o0 = _REF[key]
    if len(l0) < 20:
        raise AssertionError("the system hardly loses any load")
    a, l, o = run_form(S, form)
    what = "contracts %s, joint owners %s, written with %s" % (*key, form)
    R.states += len(a) + 1
    R.transitions += len(a) + 1
    for k, (x, y) in enumerate(zip(a, a0)):
        if x.shape != y.shape or np.abs(x - y).max() > 1e-6:
            raise Violation("hours", "%s: the network calculation is asked and answers %s, for the plain form %s" % (what, x.tolist(), y.tolist()))
    if len(a) != len(a0):
        raise Violation("hours", "%s: %d network calculations, for the plain form %d" % (what, len(a), len(a0)))
    if l != l0:
        raise Violation("losses", "%s: %d losses are recorded, for the plain form %d, or others" % (what, len(l), len(l0)))
    if o.split() != o0.split():
        u, v = o.split(), o0.split()
        k = next((i for i, (x, y) in enumerate(zip(u, v)) if x != y), min(len(u), len(v)))
        raise Violation("report", "%s: the report has ...%s, for the plain form ...%s" % (what, u[max(0, k - 5) : k + 5], v[max(0, k - 5) : k + 5]))
    R.traces += 1
    R.outcome(form[0][0] if form else "plain")
    R.sample({"form": [str(f)[:80] for f in form]})


def cases():
    yes = (True, True)
    # optional files left out, alone and together, where there is nothing to give
    for key in itertools.product((True, False), repeat=2):
        empty = [c for c, given in zip(OPTIONAL, key + (False,)) if not given]
        for k in range(1, len(empty) + 1):
            for sub in itertools.combinations(empty, k):
                yield key, [("missing", c) for c in sub]
    # rows in any order, with the serial numbers they have
    rows = {"ZZLD": 3, "ZZUD": 5, "ZZTD": 3, "ZZFC": 3, "ZZOD": 2}
    for card, n in rows.items():
        for perm in itertools.permutations(range(n)):
            if card != "ZZUD" or core.THOROUGH or perm[0] != 0 and perm[1] > perm[2]:
                yield yes, [("order", card, perm)]
    for k in range(1, 6):
        yield yes, [("order", c, tuple(np.roll(range(n)[:: 1 if k % 2 else -1], k).tolist())) for c, n in rows.items()]
    # any increasing serial numbers, then any order
    for sn in ((10, 20, 30, 40, 50), (0, 1, 2, 3, 4), (1, 1.25, 1.5, 2, 2.125), (7, 70, 700, 7000, 70000), (0.5, 9, 10, 11, 100)):
        yield yes, [("serial", c, sn[:n]) for c, n in rows.items()]
        for k in range(2):
            yield yes, [("serial", c, sn[:n]) for c, n in rows.items()] + [("order", c, tuple(range(n)[::-1]) if k else tuple(np.roll(range(n), 1).tolist())) for c, n in rows.items()]
    # titles
    for k in (1, 2, 3) if core.THOROUGH else (1, 2):
        for t in itertools.product(TITLES, repeat=k):
            yield yes, [("title", t)]
    for t in (("A", "", "B, C"), ("", "A"), ("a", "b", "c", "d, e, f, g", "1,2")):
        yield yes, [("title", t)]
    # line numbers
    for t in itertools.permutations((1, 2, 3, 7, 40) if core.THOROUGH else (1, 3, 7, 40), 3):
        yield yes, [("number", t)]
    yield yes, [("number", (11, 12, 13))]
    # columns in another order, with a remark
    cols = {"ZZLD": 9, "ZZUD": 15, "ZZTD": 5, "ZZFC": 6, "ZZOD": 3, "ZZDD": 8, "ZZMC": 21}
    for card, n in cols.items():
        for k in range(n):
            yield yes, [("columns", card, tuple(np.roll(range(n), k).tolist()), k % 2)]
        yield yes, [("columns", card, tuple(range(n))[::-1], 0)]
    # line ends
    for card in list(cols) + ["ZZTC"]:
        for end, tail in (("\r\n", True), ("\r\n", False), ("\n", False)):
            yield yes, [("ends", card, end, tail)]


def chunk(R, cs):
    for c in cs:
        R.case(one, c, limit=200, part=c[1][0][0])


def run(R):
    cs = list(cases())
    core.pmap(R, chunk, core.chunked(cs, max(1, len(cs) // 32 + 1)))
    return (
        {"forms": len(cs), "rows": "all orders of the rows of every card (unit card: every second of 120; thorough all)", "optional files": "every subset that has no entries left out",
         "titles": "all sequences of 1-2 (thorough 3) of %d lines" % len(TITLES), "line numbers": "all orders of 3 of 4 numbers with gaps", "columns": "every rotation, reversed, with a remark column"},
        ["one system with random outages, seasons, contracts, joint ownership and line states; one year of daily peaks"],
    )
