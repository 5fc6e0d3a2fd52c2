"""C15: reported tables contain exactly the simulated data."""
import datetime
from .common import *
from .. import fakes
from .sim import Sim, advance, concrete, WCONF, at as interior_at
from .c03 import center

NAMES = {
    "time": ("t", "time"), "date": ("d", "date"),
    "cells_rate": ("q", "rates", "cells", "cells_rate"), "cells_pressure": ("p", "pressures", "cells", "cells_pressure"),
    "wells_rate": ("q", "rates", "wells", "wells_rate"), "wells_pressure": ("p", "pressures", "wells", "wells_pressure"),
}
ORDER = ("time", "date", "cells_rate", "cells_pressure", "wells_rate", "wells_pressure")
ALL = sorted({n for v in NAMES.values() for n in v})
START = datetime.date(2020, 2, 27)
FMT = "%d.%m.%Y"




def text_eq(u, label, got, want):
    """got is the text whose parts are literals and integers"""
    if concrete(u):
        return u.eq(label, got, "".join(str(p) for p in want))
    if not isinstance(got, str):
        return u.eq(label, got, "".join(map(str, want)))
    import re
    parts = [core.untoken(p) if p.startswith("\u27e6") else p for p in re.split("(\u27e6[0-9]+\u27e7)", got) if p]
    exp = []
    for p in want:
        if isinstance(p, (int, SInt)) and SInt.of(p).isconst():
            p = str(SInt.of(p).const())
        if isinstance(p, str) and exp and isinstance(exp[-1], str):
            exp[-1] += p
        elif not isinstance(p, str) or p:
            exp.append(p)
    u.eq(label, tuple(parts), tuple(exp))


class Linear:
    """a fitted scaler (C16: MinMax is such a map)"""

    def __init__(self, name):
        self.a, self.b, self.fits = R.atom("SA" + name, (), True), R.atom("SB" + name, ()), 0

    def fit(self, v, axis=None):
        self.fits += 1
        return self

    def transform(self, v):
        return v * self.a + self.b


class Run:
    """a model after any number of steps: every pressure and rate of every level is
    any number, or undefined"""

    def __init__(self, u, flow, un, wells=("q",), nans=True, level=None, scale=False):
        self.u = u
        s = self.s = Sim(u, flow, un, wells=wells, compiled=False, sizes=None)
        self.g, self.m = s.g, s.m
        s.m.start_date = START
        s.compile()
        sol = s.s
        t = self.t = ranged("tstep", 0) if level is None else level
        sol.tstep, sol.nsteps = t, t + 1
        self.nans = nans
        sol.pressures = ndarr.NDArr((t + 1, total(s.g)), lambda idx: self.P(ndarr.F(idx[0]), ndarr.F(idx[1])))
        sol.rates = ndarr.NDArr((t + 1, total(s.g)), lambda idx: self.Q(ndarr.F(idx[0]), ndarr.F(idx[1])))
        for w in s.well:
            a = ndarr.NDArr((t + 1,), (lambda w: lambda idx: self.W(w, ndarr.F(idx[0])))(w))
            s.m.w_pressures[w.id] = list(a) if concrete(u) else a
        self.sc = {}
        if scale:
            for what, nm in (("time", "time_scaler"), ("space", "space_scaler"), ("pressure", "pressures_scaler"), ("rate", "rates_scaler")):
                self.sc[what] = Linear(what)
                setattr(s.m, nm, self.sc[what])
                s.m.scalers_dict[what] = ["MinMax", (0, 1)]

    def scaled(self, what, v):
        return self.sc[what].transform(v) if self.sc else v

    def any(self, nm, lv, i):
        if concrete(self.u):
            v = R.atom(nm, (lv, i))
            h = int(abs(v) * 4e4) % 7
            col = int(abs(R.atom(nm + "col", (i,))) * 4e4) % 4
            if col == 0:
                return 0.0
            if self.nans and (h == 0 or col == 1):
                return float("nan")
            return v
        i = tuple(x for x, a in zip(ncoords(self.g, i), "xyz") if a in self.g.flow)
        if self.nans:
            from .. import loops
            if bool(loops.pred("undefined " + nm, (lv,) + i)):
                return fakes.NAN
        return R.atom(nm, (lv,) + i)

    def P(self, lv, i):
        return self.any("P", lv, i)

    def Q(self, lv, i):
        return self.any("Q", lv, i)

    def W(self, w, lv):
        return self.any("PW", lv, w.id)

    # ---- what a table consists of
    def cells(self, boundary):
        """number of cells, and the id of the k-th"""
        g = self.g
        return total(g, boundary), lambda k: cid(g, ncoords(g, k, boundary))

    def unit(self, units, what):
        if not units:
            return ""
        if what == "date":
            return " [d.m.y]"
        if self.sc:
            return " [scaled]"
        return " [" + {"time": "days", "rate": "stb/day", "pressure": "psia"}[what] + "]"

    def columns(self, names, boundary, units, melt):
        """[(number of columns, name of the j-th, its value at a level and cell)]"""
        n, id = self.cells(boundary)
        out = []
        if melt:
            g = self.g
            out.append((1, lambda j: ("id",), lambda lv, k, j: id(k)))
            out.append((1, lambda j: ("Step",), lambda lv, k, j: lv))
            for a in g.flow:
                out.append((1, (lambda a: lambda j: (a,))(a), (lambda a: lambda lv, k, j: self.scaled("space", center(g, a, ncoords(g, k, boundary), "array")))(a)))
        for nm in names:
            for what in ORDER:
                if nm.lower() not in NAMES[what]:
                    continue
                if what == "time":
                    out.append((1, lambda j: ("Time" + self.unit(units, "time"),), lambda lv, k, j: self.scaled("time", lv * self.s.dt)))
                elif what == "date":
                    out.append((1, lambda j: ("Date" + self.unit(units, "date"),), lambda lv, k, j: self.date(lv)))
                elif what in ("cells_rate", "cells_pressure"):
                    f, q, un = (self.Q, "Q", self.unit(units, "rate")) if what == "cells_rate" else (self.P, "P", self.unit(units, "pressure"))
                    f = (lambda f, what: lambda lv, i: self.scaled(what, f(lv, i)))(f, "rate" if what == "cells_rate" else "pressure")
                    if melt:
                        out.append((1, (lambda q, un: lambda j: (q + un,))(q, un), (lambda f: lambda lv, k, j: f(lv, id(k)))(f)))
                    else:
                        out.append((n, (lambda q, un: lambda j: (q, id(j), un))(q, un), (lambda f: lambda lv, k, j: f(lv, id(j)))(f)))
                elif not melt:
                    ws = self.s.well
                    if what == "wells_rate":
                        for w in ws:
                            out.append((1, (lambda w: lambda j: ("Qw", w.id, self.unit(units, "rate")))(w), (lambda w: lambda lv, k, j: self.scaled("rate", self.Q(lv, w.id)))(w)))
                    else:
                        for w in ws:
                            out.append((1, (lambda w: lambda j: ("Pwf", w.id, self.unit(units, "pressure")))(w), (lambda w: lambda lv, k, j: self.scaled("pressure", self.W(w, lv)))(w)))
        return out

    def date(self, lv):
        if concrete(self.u):
            return (datetime.datetime(START.year, START.month, START.day) + datetime.timedelta(days=float(lv * self.s.dt))).strftime(FMT)
        from .. import fakepandas
        return fakepandas.Date(START, lv * self.s.dt, FMT)

    def place(self, name, boundary):
        """the place of any cell among the cells"""
        g = self.g
        k, f = SInt.of(0), 1
        for a, x in zip("xyz", cell(g, name, not boundary)):
            if a in g.flow:
                k = k + f * (x - (0 if boundary else 1))
                f = f * (g.N[a] if boundary else g.n[a])
        return k

    # ---- obligations
    def value_eq(self, label, got, want):
        if not concrete(self.u):
            from .. import fakepandas
            got, want = got(), want()
            if isinstance(got, fakepandas.Date) and isinstance(want, fakepandas.Date):
                self.u.eq(label, (got.days, got.start == want.start, got.fmt), (want.days, True, want.fmt))
                return
        self.u.eq(label, got, want)

    def table(self, df, names, boundary, units, melt, drop_nan, drop_zero, label):
        u = self.u
        cols = self.columns(names, boundary, units, melt)
        N = self.cells(boundary)[0]
        if concrete(u):
            return self.ctable(df, cols, N, melt, drop_nan, drop_zero, label)
        rows = (self.t + 1) * N if melt else self.t + 1
        width = 0
        for k, _, _ in cols:
            width = width + k
        u.eq(f"{label}: rows, columns", (df.n, df.width()), (rows, width))
        u.eq(f"{label}: index", df.index is not None and df.index.name, None if melt else "Step")
        o = 0
        lv = ranged("lv", 0, self.t)
        column = lambda w, q: 0 if isinstance(w, int) and w == 1 else self.place(f"c{q}", boundary)
        k = self.place("m", boundary) if melt else None
        r = lv if not melt else lv * N + k
        for q, (w, name, value) in enumerate(cols):
            def body():
                j = column(w, q)
                text_eq(u, f"{label}: name of column", df.label(o + j), name(j))
                self.value_eq(f"{label}: value", lambda: df.value(r, o + j), lambda: value(lv, k, j))
            locally(body)
            o = o + w
        # what is left out
        want = []
        if melt:
            u.eq(f"{label}: no columns left out", len(df.colkeep), 0)
            u.eq(f"{label}: rows left out", len(df.rowkeep), 1 if drop_nan else 0)
            for quant, test, width_ in df.rowkeep:
                u.eq(f"{label}: rows left out by", (quant, width_), ("all", width))
                o = 0
                for q, (w, name, value) in enumerate(cols):
                    locally(lambda: u.eq(f"{label}: row kept", bool(test(r, SInt.of(o))), not isinstance(value(lv, k, 0), fakes.Nan)))
                    o = o + w
            return
        u.eq(f"{label}: no rows left out", len(df.rowkeep), 0)
        if drop_nan:
            want.append(lambda v: not isinstance(v, fakes.Nan))
        if drop_zero:
            want.append(nonzero)
        u.eq(f"{label}: columns left out", [s.quant for s in df.colkeep], ["any"] * len(want))
        for s, f in zip(df.colkeep, want):
            o = 0
            for q, (w, name, value) in enumerate(cols):
                def body():
                    j = column(w, q)
                    u.eq(f"{label}: column kept", bool(s.test(lv, SInt.of(o + j))), f(value(lv, None, j)))
                locally(body)
                o = o + w

    def ctable(self, df, cols, N, melt, drop_nan, drop_zero, label):
        """the same of a real table"""
        u = self.u
        full = []
        for w, name, value in cols:
            for j in range(w):
                full.append(("".join(str(p) for p in name(j)), [value(lv, k, j) for lv in range(self.t + 1) for k in (range(N) if melt else (None,))]))
        isnan = lambda v: isinstance(v, float) and v != v
        if melt:
            keep = [r for r in range((self.t + 1) * N) if not drop_nan or not any(isnan(v[r]) for _, v in full)]
            full = [(a, [v[r] for r in keep]) for a, v in full]
        else:
            full = [(a, v) for a, v in full if not (drop_nan and all(isnan(x) for x in v)) and not (drop_zero and all(not isinstance(x, str) and x == 0 for x in v))]
        u.eq(f"{label}: names", [str(c) for c in df.columns], [a for a, _ in full])
        if not full:
            return
        u.eq(f"{label}: rows, columns", tuple(df.shape), (len(full[0][1]), len(full)))
        u.eq(f"{label}: index", [int(v) for v in df.index], list(range(len(full[0][1]))))
        u.eq(f"{label}: index name", df.index.name, None if melt else "Step")
        for q, (a, v) in enumerate(full):
            u.eq(f"{label}: {a}", list(df.iloc[:, q]), v)


def nonzero(v):
    if isinstance(v, fakes.Nan) if hasattr(fakes, "Nan") else v != v:
        return True
    if not isinstance(v, (int, float, R, SInt)):
        return True
    return bool(R.of(v) != 0)


def mktable(names, opts, wells=("q",), case=False, scale=False):
    def table(u, flow, un):
        from .. import symstr
        b = Run(u, flow, un, wells, scale=scale)
        for boundary, units, melt, dn, dz in opts:
            cols = [symstr.name(u, n) for n in names] if case else list(names)
            df = b.m.get_df(columns=cols, boundary=boundary, units=units, melt=melt, scale=scale, save=False, drop_nan=dn, drop_zero=dz)
            b.table(df, names, boundary, units, melt, dn, dz, f"{'boundary' if boundary else 'interior'}{' units' if units else ''}{' melt' if melt else ''}{' nan' if dn else ''}{' zero' if dz else ''}")
    return table


def defaults(u, flow, un):
    b = Run(u, flow, un, ("q", "p"))
    b.table(b.m.get_df(), ["time", "cells", "wells"], True, False, False, True, True, "default")


def unknown(u, flow, un):
    from .. import symstr
    b = Run(u, flow, un)
    for cols in ([symstr.unknown(u)], ["time", symstr.unknown(u)], ["p", "cells", symstr.unknown(u, "cell_pressure")]):
        for melt in (False, True):
            u.raises("unknown column", ValueError, lambda: b.m.get_df(columns=cols, melt=melt))


def scaledvectors(u, flow, un):
    b = Run(u, flow, un, (), scale=True)
    m, g = b.m, b.g
    lv = ranged("lv", 0, b.t)
    ts, cs = [m.get_time(True)], []
    for boundary in (True, False):
        n, id = b.cells(boundary)
        k = b.place("kb" if boundary else "k", boundary)
        t, c = m.get_domain(True, boundary)
        ts.append(t)
        for c in (c, m.get_centers(True, boundary)[0]):
            u.eq("scaled centers: shape", tuple(c.shape), (n, len(flow)))
            for q, a in enumerate([a for a in "xyz" if a in flow]):
                u.eq("scaled centers", c[k, q], lambda: b.scaled("space", center(g, a, ncoords(g, k, boundary), "array")))
    for t in ts:
        u.eq("scaled times: shape", tuple(t.shape), (b.t + 1, 1))
        u.eq("scaled times", t[lv, 0], b.scaled("time", lv * b.s.dt))


def vectors(u, flow, un):
    b = Run(u, flow, un, ())
    m, g = b.m, b.g
    lv = ranged("lv", 0, b.t)

    def times(t, label):
        u.eq(f"{label}: shape", tuple(t.shape), (b.t + 1, 1))
        u.eq(f"{label}: s * dt", t[lv, 0], lv * b.s.dt)
    times(m.get_time(), "get_time")
    times(m.get_time(False), "get_time")
    for boundary in (True, False):
        n, id = b.cells(boundary)

        def places(x, label):
            u.eq(f"{label}: shape", tuple(x.shape), (n, len(flow)))

            def body():
                k = b.place("kb" if boundary else "k", boundary)
                for q, a in enumerate([a for a in "xyz" if a in flow]):
                    u.eq(f"{label}: center", x[k, q], center(g, a, ncoords(g, k, boundary), "array"))
            locally(body)
        c, f = m.get_centers(False, boundary)
        u.eq("axes", list(f), [a for a in "xyz" if a in flow])
        places(c, "get_centers")
        t, c = m.get_domain(False, boundary)
        times(t, "get_domain")
        places(c, "get_domain")
        u.eq("get_shape", tuple(m.get_shape(boundary)), (b.t + 1, n))


def units():
    out = []
    one = [(True, True, False, False, False), (False, False, False, False, False)]
    drops = [(True, False, False, True, True), (False, True, False, True, False), (True, False, False, False, True)]
    melts = [(True, False, True, False, False), (False, True, True, True, True), (True, True, True, True, False)]
    small = [("x", True), ("x", False), ("xy", True), ("xyz", True)]
    for n in ALL:
        out += per_config(f"table({n})", mktable([n], one, case=True), ("get_df",), small)
        if n not in ("wells", "wells_rate", "wells_pressure"):
            out += per_config(f"melted({n})", mktable([n], melts, case=True), ("get_df",), small)
        out += per_config(f"left out({n})", mktable([n], drops), ("get_df",), small)
    many = ["date", "p", "q", "time"]
    for ws in ((), ("q", "p")):
        out += per_config(f"table({'+'.join(many)},{len(ws)} wells)", mktable(many, one + drops, ws), ("get_df",), small)
        out += per_config(f"melted({'+'.join(many)},{len(ws)} wells)", mktable(many, melts, ws), ("get_df",), small)
    out += per_config("scaled table", mktable(many, one + drops, ("q", "p"), scale=True), ("get_df",), small)
    out += per_config("scaled melted", mktable(many, melts, ("q", "p"), scale=True), ("get_df",), small)
    out += per_config("scaled vectors", scaledvectors, ("get_time", "get_centers", "get_domain"), small)
    out += per_config("default table", defaults, ("get_df",), small)
    out += per_config("unknown column", unknown, ("get_df",), small)
    out += per_config("vectors", vectors, ("get_time", "get_centers", "get_domain", "get_shape"), CONFIGS)
    return out
