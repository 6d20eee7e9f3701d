"""Reference model of the simulation: what every simulated hour has to look
like, computed directly from the user's description of the system.

Nothing here is shared with the code under test.
"""
import numpy as np

MASK = (1 << 31) - 1
SCALE = 0.4656613e-9
FACTORS = (2.5, 1.0, 0.0, -1.0, -2.5)
XPROB = (0.0668, 0.2417, 0.383, 0.2417, 0.0668)


def loads(S):
    s = np.asarray(S.shape, float)
    return s / s.max(axis=1)[:, None] * np.array([a["peak"] for a in S.areas], float)[:, None]


def peak_hours(S):
    """Hour (0..8759) of the pool's daily peak, for every day."""
    tot = loads(S).sum(axis=0).reshape(365, 24)
    return tot.argmax(axis=1) + 24 * np.arange(365)


def exports(S):
    """Net firm export of every area on every day (areas, 365)."""
    t = np.zeros((len(S.areas), 365))
    for a, b, beg, end, mw in S.contracts:
        t[a, beg - 1 : end] += mw
        t[b, beg - 1 : end] -= mw
    return t


def shares(S):
    """Fraction of every unit owned by every area (areas, units)."""
    o = np.zeros((len(S.areas), len(S.units)))
    for i, u in enumerate(S.units):
        if u["own"] is None:
            o[u["area"], i] = 1.0
        else:
            o[:, i] = [x / 100.0 for x in u["own"]]
    return o


def on_plan(u, week):
    """Is the unit on planned outage in week 1..53 (53: day 365)?"""
    return week <= 52 and any(b > 0 and b <= week < b + d for b, d in ((u["b1"], u["d1"]), (u["b2"], u["d2"])))


def tiers(S):
    """Load multipliers of every area per forecast tier (areas, tiers)."""
    fu = np.array([a["lfu"] for a in S.areas], float)
    if not fu.any():
        # without uncertainty only one tier is simulated: the plain load
        return np.ones((len(fu), 1))
    return 1.0 + np.outer(fu / 100.0, FACTORS)


class Streams:
    """The pseudo-random streams of the units and lines."""

    def __init__(self, S):
        self.S = S
        s, out = S.mc["SEED"], []
        for _ in range(len(S.units) + len(S.lines)):
            s = (s * 9649599) & MASK
            out.append(s)
        self.state = np.array(out, dtype=np.int64)
        self.n = len(S.units)
        self.full = np.array([1 - u["dfor"] - u["fo"] for u in S.units])
        self.part = np.array([1 - u["fo"] for u in S.units])
        self.der = np.array([1 - u["der"] / 100.0 for u in S.units])
        self.cum = [np.add.accumulate([s[3] for s in l["states"]]) for l in S.lines]

    def draw(self):
        """(availability of every unit, state 0.. of every line)"""
        self.state = (self.state * 65539) & MASK
        u = self.state * SCALE
        g = u[: self.n]
        pct = np.where(g < self.full, 1.0, np.where(g < self.part, self.der, 0.0))
        ln = [min(int((x > c).sum()), 5) for x, c in zip(u[self.n :], self.cum)]
        return pct, ln


class Hour:
    __slots__ = ("year", "hour", "day", "peak", "avail", "located", "joint", "export", "load", "lines", "pct")


def hours(S, years):
    """All simulated hours of a run, in order."""
    step, freq = S.mc["STEP"], S.mc["FREQ"]
    L, P, X, own = loads(S), peak_hours(S), exports(S), shares(S)
    wk = S.mc["wk"]
    caps = np.array([u["caps"] for u in S.units], float)
    loc = np.zeros_like(own)
    for i, u in enumerate(S.units):
        loc[u["area"], i] = 1.0
    plan = {w: np.array([0.0 if on_plan(u, w) else 1.0 for u in S.units]) for w in range(1, 54)}
    T = tiers(S)
    st = Streams(S)
    pct = ln = avail = None
    for y in range(years):
        for k in range(8760 // step):
            t = k * step
            day = t // 24
            h = P[day] if step == 24 else t
            if step == 24 or t % freq == 0:
                pct, ln = st.draw()
                week = t // 168 + 1
                season = sum(week > w for w in wk)
                avail = pct * caps[:, season] * plan[week]
            r = Hour()
            r.year, r.hour, r.day, r.peak = y, int(h), day, h == P[day]
            r.pct, r.lines, r.avail = pct, ln, avail
            r.located = loc @ avail
            r.joint = r.located - own @ avail
            r.export = X[:, day]
            r.load = L[:, h][:, None] * T
            yield r
