"""C17: the analytical solution in one dimension."""
from .common import *
from .. import fakes
from ..core import smin, smax, rfun
from .sim import concrete
from .c03 import size, center

OPTS = {"c": ("array",), "s": ("scalar",)}


class Problem:
    """a homogeneous reservoir along one axis with given pressures at both ends"""

    def __init__(self, u, flow, un, dmode, units="field", levels=None, state="initial", scalars=False):
        rf = load.load()
        self.flow = flow
        g = self.g = grid(flow, un, d=dmode, props=False, units=units, comp=R.atom("COMPG", (), True), **{k: v for k, v in self.rock().items()})
        self.dmode = dmode
        if dmode == "array" and not concrete(u):
            self.dmode = "contract"
            self.centers()
        for nm in ("kx", "ky", "kz"):
            g.p[nm] = lambda c: R.atom("PERM", (), True)
        fl = self.fl = fluid(rho=True, comp=R.atom("COMPF", (), True), units=units)
        self.dt = R.atom("DT", (), True)
        self.P0, self.PN, self.PI = R.atom("PEND0", (), True), R.atom("PENDN", (), True), R.atom("PI0", (), True)
        cur().assume(bnot(band(self.P0 == self.PN, self.P0 == self.PI)))
        for x, y in ((self.P0, self.PN), (self.P0, self.PI), (self.PN, self.PI)):
            bool(x == y)        # ties are cases of their own
        m = self.m = rf.models.BlackOil(g.obj, fl, pi=self.PI, dt=self.dt, unit=units)
        self.n = g.n[flow]
        a, b = tuple(0 for _ in "xyz"), tuple(self.n + 1 if q == flow else 0 for q in "xyz")
        m.set_boundaries({cid(g, a): ("pressure", self.P0), cid(g, b): ("pressure", self.PN)})
        m.compile("analytical", "d1p1", True)
        self.s = m.solution
        cur().opaque_sums = True
        self.T = 0
        self.lo, self.hi = smin(self.P0, self.PN, self.PI), smax(self.P0, self.PN, self.PI)
        if levels is not None:
            self.at_level(levels)

    def rock(self):
        return dict(kx=R.atom("PERM", (), True), ky=R.atom("PERM", (), True), kz=R.atom("PERM", (), True), phi=R.atom("POR", (), True), z=R.atom("ZD", (), False))

    def centers(self):
        """contract of the cell centers (C03): they increase along the axis"""
        g, k = self.g, "xyz".index(self.g.flow)

        def get_cells_center(boundary=True, fshape=False, pyvista=False):
            def at(idx):
                i = ndarr.F(idx[0]) + (0 if boundary else 1)
                return ndarr.pick(idx[1], [self.x(i) if t == k else R.atom("XT" + "xyz"[t], ()) for t in range(3)])
            assert not fshape and not pyvista
            return ndarr.NDArr((total(g, boundary), 3), at)
        g.obj.get_cells_center = get_cells_center

    def at_level(self, t):
        self.T = t
        self.s.tstep, self.s.nsteps = t, t + 1

    # ---- contract values
    def cell(self, i):
        return tuple(i if q == self.flow else 0 for q in "xyz")

    def x(self, i):
        if self.dmode == "contract":
            return R.atom("X0", ()) + ndarr.PS("DC", True, i)
        return center(self.g, self.flow, self.cell(i), self.dmode)

    def alpha(self):
        """diffusivity: k / (mu B) over phi c / B, in the model's units"""
        f = self.m.factors
        return f["transmissibility conversion"] * R.atom("PERM", (), True) / (self.fl.mu * self.fl.B) / (R.atom("POR", (), True) * (R.atom("COMPG", (), True) + R.atom("COMPF", (), True)) / (f["volume conversion"] * self.fl.B))

    def X(self, i):
        return (self.x(i) - self.x(0)) / (self.x(self.n + 1) - self.x(0))

    def series(self, N, lv, i):
        """what the N-term solution is at a level and a cell, on the scale from the
        smallest (0) to the largest (1) given pressure"""
        w = self.hi - self.lo
        L = self.x(self.n + 1) - self.x(0)
        X, t = self.X(i), lv * self.dt
        p0, pn, pi = (self.P0 - self.lo) / w, (self.PN - self.lo) / w, (self.PI - self.lo) / w

        def term(n):
            A = ((pi - p0) + (pn - pi) * (-1) ** n) / n
            return A * rfun("sin", n * fakes.PI * X) * rfun("exp", -(n**2) * fakes.PI**2 * self.alpha() * t / L**2)
        return p0 + (pn - p0) * X + 2 / fakes.PI * ndarr.series(N, term)


def clip(v, lo, hi):
    if bool(v < lo):
        v = lo
    if bool(v > hi):
        v = hi
    return v


def laws(u, b, p, rows, N, cleaned, label):
    """of a table of pressures: one row per level, one column per cell, the series in
    it, the given pressures at its ends and nothing beyond the given pressures"""
    n = b.n
    u.eq(f"{label}: one row per level and one column per cell", tuple(p.shape), (rows, n + 2))
    lv, i = ranged("lv", 0, rows - 1), ranged("i", 0, n + 1)

    def body():
        j = SInt.of(0) if not concrete(u) and bool(i == 0) else i
        v = b.series(N, lv, j)
        if cleaned:
            v = clip(v, 0, 1)
        u.eq(f"{label}: series", p[lv, j], b.lo + (b.hi - b.lo) * v)
    locally(body)
    locally(lambda: u.eq(f"{label}: ends", lambda: (p[lv, 0], p[lv, n + 1]), lambda: (b.P0, b.PN)))
    if cleaned and concrete(u):
        u.le(f"{label}: not below", b.lo, p[lv, i])
        u.le(f"{label}: not above", p[lv, i], b.hi)


def clipped(u):
    """lemma: what the series is cleaned to lies between the given pressures"""
    lo, hi, v = R.atom("LO", ()), R.atom("HI", ()), R.atom("V", ())
    cur().assume(lo < hi)
    c = clip(v, 0, 1)
    u.le("not below", 0, c)
    u.le("not above", c, 1)
    w = R.atom("C", ())
    cur().assume(w >= 0)
    cur().assume(w <= 1)
    u.le("lo <= lo + (hi - lo) c", lo, lo + (hi - lo) * w)
    u.le("lo + (hi - lo) c <= hi", lo + (hi - lo) * w, hi)


def domain(u, b, X, rows, label):
    n = b.n
    u.eq(f"{label}: domain shape", tuple(X.shape), (rows, n + 2, 2))
    lv, i = ranged("lvd", 0, rows - 1), ranged("id", 0, n + 1)
    locally(lambda: u.eq(f"{label}: domain", lambda: (X[lv, i, 0], X[lv, i, 1]), lambda: (lv * b.dt, b.x(i))))


def mkcalc(clean, dmode):
    def calc(u, flow, un):
        b = Problem(u, flow, un, dmode)
        b.at_level(ranged("tstep", 0))
        N = ranged("terms", 1)
        X, p = b.s.calc_solution(N=N, clean=clean)
        laws(u, b, p, b.T + 1, N, clean, "calc_solution")
        domain(u, b, X, b.T + 1, "calc_solution")
    return calc


def mkrun(dmode):
    def run(u, flow, un):
        b = Problem(u, flow, un, dmode)
        k = ranged("nsteps", 1)
        b.s.run(nsteps=k)
        u.eq("run: counters", (b.s.tstep, b.s.nsteps, tuple(b.m.get_shape(True))), (k, k + 1, (k + 1, b.n + 2)))
        laws(u, b, b.s.pressures, k + 1, 1000, True, "run")
    return run


def units():
    out = []
    one = [(f, un) for f in "xyz" for un in (True, False)]
    for dmode in ("array", "scalar"):
        for clean in (True, False):
            out += per_config(f"calc({dmode},clean={clean})", mkcalc(clean, dmode), ("calc_solution",), one)
        out += per_config(f"run({dmode})", mkrun(dmode), ("run",), one)
    out.append(Unit("clipped pressures lie between the given ones", clipped))
    return out
