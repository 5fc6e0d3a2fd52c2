"""C16: scalers."""
from .common import *
from .. import fakes

SHAPES = {"vector": 1, "table": 2, "block": 3}


class V:
    """an array of symbolic size with a symbol per element, and its extremes"""

    def __init__(self, u, nd, axis, name="V"):
        self.nd, self.axis = nd, axis
        self.shape = []
        for t in range(nd):
            n = SInt.var("n" + "rcl"[t])
            cur().assume(n >= 1)
            self.shape.append(n)
        self.f = lambda *i: R.atom(name, tuple(i))
        self.arr = ndarr.NDArr(tuple(self.shape), lambda idx: self.f(*[ndarr.F(x) for x in idx]))
        self.mn, self.mx = self.arr.min(axis=axis), self.arr.max(axis=axis)

    def index(self, tag):
        r = []
        for t, n in enumerate(self.shape):
            i = SInt.var("rcl"[t] + tag)
            cur().assume(i >= 0)
            cur().assume(i < n)
            r.append(i)
        return tuple(r)

    def bounds(self, idx):
        """extremes of the column (or the whole array) of idx, non-degenerate"""
        if self.axis is None or self.nd == 1:
            mn, mx = self.mn, self.mx
        else:
            mn, mx = ndarr.at(self.mn, *idx[1:]), ndarr.at(self.mx, *idx[1:])
        cur().assume(mx > mn)
        v = self.f(*idx)
        cur().assume(v >= mn)
        cur().assume(v <= mx)
        return v, mn, mx


def ranges(name="O"):
    lo, hi = R.atom(name + "lo", ()), R.atom(name + "hi", ())
    cur().assume(hi > lo)
    return lo, hi


def column(v, a, tag):
    """another index in the column of a"""
    b = v.index(tag)
    if v.axis is None or v.nd == 1:
        return b
    return (b[0],) + a[1:]


def at(a, idx):
    return ndarr.at(a, *idx)


def laws(u, s, v, lo, hi, label):
    a = v.index("a")
    x, mn, mx = v.bounds(a)
    t = s.transform(v.arr)
    u.eq(f"{label}: shape", tuple(t.shape), tuple(v.arr.shape))
    ta = at(t, a)
    u.le(f"{label}: not below the range", lo, ta)
    u.le(f"{label}: not above the range", ta, hi)
    u.eq(f"{label}: input kept", at(v.arr, a), x)
    b = column(v, a, "b")
    y, _, _ = v.bounds(b)
    tb = at(t, b)
    if x < y:
        u.le(f"{label}: order", ta, tb)
        if ta == tb:
            u.eq(f"{label}: order is strict", x, y)
    c, d = column(v, a, "c"), column(v, a, "d")
    u.eq(f"{label}: ratios of differences", (ta - tb) * (v.f(*c) - v.f(*d)), (at(t, c) - at(t, d)) * (x - y))
    u.eq(f"{label}: inverse", at(s.inverse_transform(t), a), x)
    if x == mn:
        u.eq(f"{label}: smallest", ta, lo)
    elif x == mx:
        u.eq(f"{label}: largest", ta, hi)


def other(u, s, v, label):
    """data that was not fitted: inverse in both directions, order"""
    W = [SInt.var("nw")] + list(v.shape[1:])
    cur().assume(W[0] >= 1)
    f = lambda *i: R.atom("W", tuple(i))
    w = ndarr.NDArr(tuple(W), lambda idx: f(*[ndarr.F(x) for x in idx]))
    i = SInt.var("w")
    cur().assume(i >= 0)
    cur().assume(i < W[0])
    a = (i,) + v.index("a")[1:]
    v.bounds(v.index("a"))
    u.eq(f"{label}: inverse of other data", at(s.inverse_transform(s.transform(w)), a), f(*a))
    u.eq(f"{label}: transform of an inverse", at(s.transform(s.inverse_transform(w)), a), f(*a))


def mkfit(nd, axis, how):
    def fit(u):
        S = load.load().scalers
        v = V(u, nd, axis)
        lo, hi = ranges()
        s = S.MinMax((lo, hi))
        if how == "fit":
            u.holds("fit returns the scaler", s.fit(v.arr, axis=axis) is s)
        elif how == "fit_transform":
            t = s.fit_transform(v.arr, axis=axis)
            a = v.index("a")
            v.bounds(a)
            u.eq("fit_transform", at(t, a), at(s.transform(v.arr), a))
        elif how == "refit":
            s = S.MinMax((lo, hi), (R.atom("I0", ()), R.atom("I1", ())))
            s.fit(V(u, nd, axis, "OLD").arr, axis=axis)
            s.fit(v.arr, axis=axis)
        else:       # another output range
            s.fit(v.arr, axis=axis)
            lo, hi = ranges("P")
            u.holds("set_output_range returns the scaler", s.set_output_range((lo, hi)) is s)
        laws(u, s, v, lo, hi, "fitted")
        other(u, s, v, "fitted")
    return fit


def given(u):
    """input range given in the constructor"""
    S = load.load().scalers
    lo, hi = ranges()
    i0, i1 = ranges("I")
    s = S.MinMax((lo, hi), (i0, i1))
    n = SInt.var("n")
    cur().assume(n >= 1)
    v = ndarr.NDArr((n,), lambda idx: R.atom("V", (ndarr.F(idx[0]),)))
    i = SInt.var("i")
    cur().assume(i >= 0)
    cur().assume(i < n)
    x = R.atom("V", (i,))
    for l, h in ((lo, hi), ranges("P")):
        s.set_output_range((l, h))
        u.eq("transform", s.transform(v)[i], l + (h - l) * (x - i0) / (i1 - i0))
        u.eq("inverse", s.inverse_transform(s.transform(v))[i], x)
        u.eq("transform of an inverse", s.transform(s.inverse_transform(v))[i], x)
        u.eq("number", s.transform(i0), l)
        u.eq("number", s.transform(i1), h)
        u.eq("number", s.inverse_transform(l), i0)
        u.eq("number", s.inverse_transform(h), i1)


def unknown_range(u):
    S = load.load().scalers
    lo, hi = ranges()
    v = V(u, 1, 0)
    s = S.MinMax((lo, hi))
    for t in range(2):
        u.raises("transform before the range is known", ValueError, lambda: s.transform(v.arr))
        u.raises("inverse before the range is known", ValueError, lambda: s.inverse_transform(v.arr))
        s.set_output_range((lo - 1, hi + 1))
    w = V(u, 3, None)
    u.raises("axis=0 of three dimensions", ValueError, lambda: s.fit(w.arr, axis=0))


def dummy(u):
    S = load.load().scalers
    d = S.Dummy(None)
    for nd in (1, 2, 3):
        v = V(u, nd, None)
        a = v.index("a")
        for o in (d.transform(v.arr), d.inverse_transform(v.arr), d.fit_transform(v.arr), d.fit(v.arr).transform(v.arr), d.fit(v.arr, axis=None).inverse_transform(v.arr),
                  d.set_output_range((0, 1)).transform(v.arr)):
            u.eq("shape", tuple(o.shape), tuple(v.arr.shape))
            u.eq("unchanged", at(o, a), v.f(*a))


def units():
    out = []
    cov = ("MinMax.fit", "MinMax.transform", "MinMax.inverse_transform", "MinMax.fit_transform", "MinMax.set_output_range")
    for nd, axis in ((1, 0), (1, None), (2, 0), (2, None), (3, None)):
        for how in ("fit", "fit_transform", "refit", "range"):
            out.append(Unit(f"{how}[{nd}D,axis={axis}]", mkfit(nd, axis, how), cov))
    out.append(Unit("given input range", given, cov + ("MinMax.__init__",)))
    out.append(Unit("range not known", unknown_range, ("MinMax.__check_vmin_vmax__",)))
    out.append(Unit("dummy", dummy, ("Dummy.fit", "Dummy.transform", "Dummy.inverse_transform", "Dummy.fit_transform", "Dummy.set_output_range")))
    return out
