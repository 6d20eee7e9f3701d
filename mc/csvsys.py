"""Small synthetic power systems, written in the tool's own CSV input format,
and a driver that runs the whole program on them under observation."""
import os
import re

import numpy as np

from mc import core

TITLE = ["synthetic"]


class Sys:
    """A system description in user terms (1-based weeks, days, seasons).

    areas: list of dict(peak, lfu=0, win=(1,52), forb=(0,0), flow=99999)
    units: list of dict(area=i, caps=(c1..c4) or c, dfor=0, fo=0, der=0, pa=1,
           b1=0, d1=0, b2=0, d2=0, own={area: percent} or None)
    lines: list of dict(a, b, states=[(adm, cap, capr, prob), ...up to 6])
    contracts: list of (from, to, beg day, end day, MW)
    shape: (areas, 8760) hourly load shape (any scale; the tool normalises it)
    """

    def __init__(self, areas, units, lines=(), contracts=(), shape=None, order=None, derate=(), sn=None, **mc):
        self.derate = list(derate)  # (line, units, forward %, backward %)
        self.sn = sn or {}  # card order: {"area"|"unit": positions of the rows in the file}
        self.order = order
        self.areas = [dict(dict(peak=100.0, lfu=0.0, win=(1, 52), forb=(0, 0), flow=99999), **a) for a in areas]
        self.units = [
            dict(dict(dfor=0.0, fo=0.0, der=0.0, pa=1, b1=0, d1=0, b2=0, d2=0, own=None), **u) for u in units
        ]
        for u in self.units:
            if not isinstance(u["caps"], (tuple, list)):
                u["caps"] = (u["caps"],) * 4
        self.lines = list(lines)
        self.contracts = list(contracts)
        self.shape = shape if shape is not None else np.ones((len(areas), 8760))
        self.mc = dict(
            SEED=123456, LS=1, wk=(13, 26, 39), WHERE=0, WHEN=1, KVS=1, KVT=1, KVL=1, CVT=0.0001, FIN=1, STEP=1,
            FREQ=1, MAXE=1000, II=0, IJ=0, IR=1, IN=5, D=0, M=0,
        )  # fmt: skip
        self.mc.update(mc)
        # per area unit counter for the names
        self.names = []
        for i, u in enumerate(self.units):
            self.names.append(u.get("name", "A%d%02d%02d" % (u["area"] + 1, i + 1, 1)))

    def area_name(self, i):
        return self.areas[i].get("name", "A%d" % (i + 1))

    def write(self, d):
        os.makedirs(d, exist_ok=True)

        def w(name, text):
            with open(os.path.join(d, name), "w") as f:
                f.write(text)

        m = self.mc
        w(
            "ZZMC.csv",
            "SEED,LS,END WK1,END WK2,END WK3,WHERE,WHEN,KVS,KVT,KVL,CVT,FIN,STEP,FREQ,MAXE,II,IJ,IR,IN,D,M\n"
            + ",".join(
                str(x)
                for x in (
                    m["SEED"], m["LS"], m["wk"][0], m["wk"][1], m["wk"][2], m["WHERE"], m["WHEN"], m["KVS"],
                    m["KVT"], m["KVL"], m["CVT"], m["FIN"], m["STEP"], m["FREQ"], m["MAXE"], m["II"], m["IJ"],
                    m["IR"], m["IN"], m["D"], m["M"],
                )  # fmt: skip
            )
            + "\n",
        )
        w("ZZTC.csv", "TITLE\nsynthetic\n")
        rows = [
            "SN,AREA NAME,PEAK (MW),LFU,OUTAGE BEG WK,OUTAGE END WK,FORBIDDEN BEG WK,FORBIDDEN END WK,"
            "SUM OF FLOWS CONSTRAINT"
        ]
        for i, a in enumerate(self.areas):
            rows.append(
                "%d,'%s',%s,%s,%d,%d,%d,%d,%s"
                % (i + 1, self.area_name(i), a["peak"], a["lfu"], *a["win"], *a["forb"], a["flow"])
            )
        w("ZZLD.csv", "\n".join(rows) + "\n")
        rows = ["SN,NAME,LOC,CAP1,CAP2,CAP3,CAP4,DFOR,FOR,DER,P/A,B1,D1,B2,D2"]
        for i, u in enumerate(self.units):
            rows.append(
                "%d,'%s','%s',%s,%s,%s,%s,%s,%s,%s,%d,%d,%d,%d,%d"
                % (i + 1, self.names[i], self.area_name(u["area"]), *u["caps"], u["dfor"], u["fo"], u["der"],
                   u["pa"], u["b1"], u["d1"], u["b2"], u["d2"])  # fmt: skip
            )
        w("ZZUD.csv", "\n".join(rows) + "\n")
        rows = ["SN,LINE NUMBER,FROM AREA,TO AREA,META DATA"]
        for i, l in enumerate(self.lines):
            st = list(l["states"])
            st += [(0.0, 0.0, 0.0, 0.0)] * (6 - len(st))
            rows.append(
                "%d,%d,'%s','%s',\"%s\""
                % (i + 1, i + 1, self.area_name(l["a"]), self.area_name(l["b"]),
                   ",".join(str(x) for s in st for x in s))  # fmt: skip
            )
        w("ZZTD.csv", "\n".join(rows) + "\n")
        rows = ["SN,FROM AREA,TO AREA,BEG DAY,END DAY,MW"]
        for i, (a, b, beg, end, mw) in enumerate(self.contracts):
            rows.append("%d,'%s','%s',%d,%d,%s" % (i + 1, self.area_name(a), self.area_name(b), beg, end, mw))
        w("ZZFC.csv", "\n".join(rows) + "\n")
        rows = ["SN,UNIT NAME,PERCENT OWNED BY AREA"]
        k = 0
        for i, u in enumerate(self.units):
            if u["own"] is not None:
                k += 1
                rows.append(
                    "%d,'%s',\"%s\"" % (k, self.names[i], ",".join(str(x) for x in u["own"]))
                )
        w("ZZOD.csv", "\n".join(rows) + "\n")
        rows = ["SN,LINE NUMBER,UNIT1,UNIT2,UNIT3,UNIT4,FORWARD,BACKWARD"]
        for k, (line, units, fwd, bwd) in enumerate(self.derate):
            u = ["'%s'" % self.names[x] for x in units] + [""] * (4 - len(units))
            rows.append("%d,%d,%s,%s,%s" % (k + 1, line + 1, ",".join(u), fwd, bwd))
        w("ZZDD.csv", "\n".join(rows) + "\n")
        out = []
        for i in self.order or range(len(self.areas)):
            out.append("AREA:A%d" % (i + 1))
            out += [
                "0101 " + " ".join("%.10g" % v for v in row) for row in np.asarray(self.shape[i]).reshape(730, 12)
            ]
        w("LEEI", "\n".join(out) + "\n")
