"""The annual roll-up as a state machine: state, alphabet of annual results,
reference accumulator and reference report."""
import copy
import inspect
import re

import numpy as np

from mc import core, csvsys, sim

WHAT = ("LOL", "MGN")
KIND = {"LOL": ("SOL", "SWL"), "MGN": ("SGN", "SWN")}
XPROB = np.array([0.0668, 0.2417, 0.383, 0.2417, 0.0668])
LSTEP = 50


def system(n, tiers):
    areas = [dict(peak=1000.0 * (i + 1), lfu=10.0 if tiers == 5 else 0.0) for i in range(n)]
    units = [dict(area=i, caps=700.0 * (i + 2)) for i in range(n)]
    lines = [dict(a=i, b=i + 1, states=[(-2.0, 50, 50, 1.0)]) for i in range(n - 1)]
    return csvsys.Sys(areas, units, lines)


def load(n, tiers):
    """The arguments of the annual roll-up at the start of a simulation."""
    st = sim.load(system(n, tiers))
    names = [p for p in inspect.signature(core.fn("monte_carlo.year")).parameters]
    d = {k: copy.deepcopy(st[k]) for k in names if k in st}
    d["MFA"] = st.get("MFA", 0)
    d["LSTEP"] = LSTEP
    d["INTVT"] = 10**6
    d["FINISH"] = 8760.0 * 10**6
    return d


def letter(k, n, T):
    """One year's losses: {(what, cause, when, 'A'|'P'): array}."""
    a = {}
    for w in WHAT:
        for c in "GT":
            for t in "HP":
                a[w, c, t, "A"] = np.zeros((n, 5))
                a[w, c, t, "P"] = np.zeros(5)
    mid = T // 2
    if k == 1:
        for t in "HP":
            a["LOL", "G", t, "A"][0, 0] = a["LOL", "G", t, "P"][0] = 1
            a["MGN", "G", t, "A"][0, 0] = a["MGN", "G", t, "P"][0] = 30
    elif k == 2:
        a["LOL", "T", "H", "A"][n - 1, mid] = a["LOL", "T", "H", "P"][mid] = 2
        a["MGN", "T", "H", "A"][n - 1, mid] = a["MGN", "T", "H", "P"][mid] = LSTEP
        a["LOL", "T", "P", "A"][n - 1, mid] = a["LOL", "T", "P", "P"][mid] = 1
        a["MGN", "T", "P", "A"][n - 1, mid] = a["MGN", "T", "P", "P"][mid] = LSTEP - 1
    elif k == 3:  # last regular class of the histograms
        for w, v in (("LOL", 20), ("MGN", 21 * LSTEP - 1)):
            for t in "HP":
                a[w, "G", t, "A"][:, :T] = v
                a[w, "G", t, "P"][:T] = v * n
    elif k == 4:  # first value of the open class
        for w, v in (("LOL", 21), ("MGN", 21 * LSTEP)):
            for t in "HP":
                a[w, "G", t, "A"][:, :T] = v - 4
                a[w, "T", t, "A"][:, :T] = 4
                a[w, "G", t, "P"][:T] = v * n - 4
                a[w, "T", t, "P"][:T] = 4
    elif k == 5:  # all cells different
        x = 1
        for key in sorted(a):
            v = a[key]
            for i in range(n if v.ndim == 2 else 1):
                for t in range(T):
                    x += 1 + (x % 3)
                    if v.ndim == 2:
                        v[i, t] = x
                    else:
                        v[t] = x
    elif k == 6:  # only the area after the first, far beyond the histograms
        for w, v in (("LOL", 800), ("MGN", 99999)):
            for t in "HP":
                a[w, "T", t, "A"][n - 1, :T] = v
                a[w, "T", t, "P"][:T] = v
    elif k == 7:  # losses only outside the daily peaks, different causes
        for c, i, v in (("G", 0, 3), ("T", n - 1, 2)):
            a["LOL", c, "H", "A"][i, :T], a["MGN", c, "H", "A"][i, :T] = v, 17 * v
            a["LOL", c, "H", "P"][:T], a["MGN", c, "H", "P"][:T] = v, 17 * v
    return a


class Ref:
    """Exact accumulation of a history of years."""

    def __init__(self, n, T, lstep=LSTEP):
        self.n, self.T, self.lstep = n, T, lstep
        self.years = []

    def weights(self):
        return np.array([1.0]) if self.T == 1 else XPROB

    def total(self, what, cause, when, lvl):
        z = sum((self.one(y, what, cause, when, lvl) for y in self.years), np.zeros((self.n, 5) if lvl == "A" else 5))
        return z

    @staticmethod
    def one(y, what, cause, when, lvl):
        if cause == "S":
            return y[what, "G", when, lvl] + y[what, "T", when, lvl]
        return y[what, cause, when, lvl]

    def weighted(self, what, cause, when, lvl):
        return self.total(what, cause, when, lvl)[..., : self.T] @ self.weights()

    def squares(self, what, when, lvl):
        return sum((self.one(y, what, "S", when, lvl)[..., : self.T] @ self.weights()) ** 2 for y in self.years)

    def expected(self):
        """Every accumulator of the program, by name."""
        e = {}
        for w in WHAT:
            s, ws = KIND[w]
            for c in "GTS":
                for t in "HP":
                    for lvl in "AP":
                        e[s + c + t + lvl] = self.total(w, c, t, lvl)
                        e[ws + c + t + lvl] = self.weighted(w, c, t, lvl)
        pick = (("LOL", "H"), ("MGN", "H"), ("LOL", "P"))
        e["XNEWA"] = np.array([self.squares(w, t, "A") for w, t in pick]).T
        e["XNEWP"] = np.array([self.squares(w, t, "P") for w, t in pick])
        mid = self.T // 2
        for name, w, t, step in (("HLOLE", "LOL", "H", 1), ("DPLOLE", "LOL", "P", 1), ("EUES", "MGN", "H", self.lstep)):
            h = np.zeros((self.n, 22))
            for y in self.years:
                for i in range(self.n):
                    h[i, min(21, int(self.one(y, w, "S", t, "A")[i, mid] // step))] += 1
            e[name] = h
        return e

    # -- printed tables ---------------------------------------------------
    def rows(self, years, indx, single, avg, pool_digits=2):
        """Rows of the statistics table: [(labels, [(value, decimals)...], cause)]."""
        R = Ref(self.n, self.T)
        R.years = years
        ny = len(years) if avg else 1
        out = []

        def vals(lol, mgn, lolp, mgnp, dg, deue):
            x = mgn / lol if lol > 0 else 0.0
            xp = mgnp / lolp if lolp > 0 else 0.0
            if indx == 1:
                return [(lolp / ny, 2), (xp, 2)]
            return [(lol / ny, dg), (x, 2), (mgn / ny, deue), (lolp / ny, dg), (xp, 2)]

        for who in list(range(self.n)) + ["pool"]:
            lvl = "P" if who == "pool" else "A"
            sel = (lambda v: v) if who == "pool" else (lambda v, w=who: v[w])
            for f in list(range(self.T)) + ["AV"]:
                if f != "AV" and avg and self.T == 1:
                    continue
                for c, tag in zip("GTS", ("GC", "TC", "GT")):
                    q = []
                    for w, t in (("LOL", "H"), ("MGN", "H"), ("LOL", "P"), ("MGN", "P")):
                        q.append(sel(R.weighted(w, c, t, lvl)) if f == "AV" else sel(R.total(w, c, t, lvl))[f])
                    if who == "pool" and f == "AV" and not avg and not single:
                        continue
                    dg = pool_digits if (who == "pool" and f == "AV" and avg) else 2
                    if f != "AV" and not avg:
                        dg = 0 if indx != 1 else 2
                    lab = ([] if who == "pool" else [who + (1 if avg else 0)]) + [f if f == "AV" else f + (1 if avg else 0)]
                    out.append((lab, vals(*q, dg, 0), tag))
        return out

    def summary(self, indx, names, peaks, inst):
        """Summary rows: [(name, [(value, decimals)])]."""
        ny = len(self.years)

        def stats(sq, mean):
            return (max(sq / ny - mean**2, 0.0) / ny) ** 0.5 / mean * 100 if mean > 0 else 0.0

        out = []
        for i in list(range(self.n)) + ["pool"]:
            lvl = "P" if i == "pool" else "A"
            sel = (lambda v: v) if i == "pool" else (lambda v, w=i: v[w])
            pk = sum(peaks) if i == "pool" else peaks[i]
            cp = sum(inst) if i == "pool" else inst[i]
            m = [sel(self.weighted(w, "S", t, lvl)) / ny for w, t in (("LOL", "H"), ("MGN", "H"), ("LOL", "P"))]
            s = [stats(sel(self.squares(w, t, lvl)), x) for (w, t), x in zip((("LOL", "H"), ("MGN", "H"), ("LOL", "P")), m)]
            v = [(pk, 0), (cp, 0), ((cp - pk) / pk * 100, 1)]
            if indx != 1:
                v += [(m[0], 3), (s[0], 3), (m[1], 0), (s[1], 0), (m[2], 3), (s[2], 3)]
            else:
                v += [(m[2], 3), (s[2], 3)]
            out.append((names[i] if i != "pool" else "ERCOT", v))
        return out

    def histograms(self):
        e = self.expected()
        ny = len(self.years)
        out = []
        for i in range(self.n):
            for j in range(22):
                d, h, u = e["DPLOLE"][i, j], e["HLOLE"][i, j], e["EUES"][i, j]
                out.append([(j, 0), (d, 0), (d / ny, 3), (h, 0), (h / ny, 3), (j * self.lstep, 0), (u, 0), (u / ny, 4)])
        return out


def close(tok, val, dec):
    try:
        x = float(tok)
    except ValueError:
        return False
    return abs(x - val) <= 0.51 * 10.0**-dec + 1e-9 * abs(val)


def compare_rows(text, rows):
    """Compare a printed statistics table with the expected rows."""
    parts = re.split(r"\b(GC|TC|GT)\b", text)
    got = []
    for body, tag in zip(parts[::2], parts[1::2]):
        toks = body.split()
        got.append((toks, tag))
    if len(got) != len(rows):
        return "%d rows printed, expected %d" % (len(got), len(rows))
    for (toks, tag), (lab, vals, want) in zip(got, rows):
        k = len(vals)
        if tag != want or len(toks) < k + len(lab):
            return "row %s %s, expected %s %s" % (toks, tag, lab, want)
        if [str(x) for x in lab] != toks[len(toks) - k - len(lab) : len(toks) - k]:
            return "row %s is not labelled %s" % (toks, lab)
        for tok, (v, d) in zip(toks[-k:], vals):
            if not close(tok, v, d):
                return "row %s %s: %s printed where %.6g is expected (row %s)" % (lab, want, tok, v, vals)
    return None


def parse_final(text):
    """(statistics part, summary lines, histogram lines) of the last report."""
    k = text.rindex("FINAL RESULTS AFTER")
    text = text[k:]
    m = text.index("SUMMARY OF RESULTS")
    stats = text[:m]
    rest = text[m:].split("\n")
    summ, hist = [], []
    in_hist = False
    for line in rest:
        if "PROBABILITY DISTRIBUTIONS" in line:
            in_hist = True
        t = line.split()
        if not t:
            continue
        if in_hist:
            if len(t) == 8 and re.match(r"^\d+$", t[0]):
                hist.append(t)
        elif re.match(r"^(A\d+|ERCOT)$", t[0].strip("'")):
            summ.append(t)
    return stats, summ, hist


def compare_final(text, ref, indx, names, peaks, inst):
    stats, summ, hist = parse_final(text)
    m = re.match(r"FINAL RESULTS AFTER\s+(\d+)\s+REPLICATIONS", stats)
    if not m or int(m.group(1)) != len(ref.years):
        return "the report is headed %r after %d years" % (stats[:60], len(ref.years))
    bad = compare_rows(stats, ref.rows(ref.years, indx, False, True, 3))
    if bad:
        return bad
    want = ref.summary(indx, names, peaks, inst)
    if len(summ) != len(want):
        return "%d summary rows, expected %d" % (len(summ), len(want))
    for t, (name, vals) in zip(summ, want):
        if t[0].strip("'") != name or len(t) != len(vals) + 1:
            return "summary row %s, expected %s" % (t, name)
        for tok, (v, d) in zip(t[1:], vals):
            if not close(tok, v, d):
                return "summary of %s: %s printed where %.6g is expected (%s)" % (name, tok, v, vals)
    want = ref.histograms()
    if len(hist) != len(want):
        return "%d histogram rows, expected %d" % (len(hist), len(want))
    for k, (t, w) in enumerate(zip(hist, want)):
        for tok, (v, d) in zip(t, w):
            if not close(tok, v, d):
                return "probability distribution of area %d: row %s, expected %s" % (k // 22 + 1, t, [x[0] for x in w])
    return None
