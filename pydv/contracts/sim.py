"""Symbolic models and solutions: the precondition of the simulation contracts."""
from .common import *
from .. import fakes
from ..core import ball
from .c03 import size, vol
from .c04 import harmonic, CONV
from .stubs import modular, nxt, neighbors, dense_or_sparse, where

WFORMS = {"q": ("r", "q", "s"), "qp": ("r", "q", "pwf", "s"), "p": ("r", "s", "pwf")}
BNAMES = {"p": ("pressure", "press", "p"), "q": ("rate", "q"), "g": ("gradient", "grad", "g")}


def concrete(u):
    return getattr(u, "concrete", False)


class Sim:
    """a model with wells and boundary conditions in symbolic cells"""

    def __init__(self, u, flow, un, wells=(), bounds=(), comp=True, sparse=False, rho=True, zflat=False, compiled=True, neigh=True, bnames=None, k="array", pi=True, d="array", sizes=None, base=None, name="", hook=None):
        """base: another Sim whose grid and fluid are used; name: of the symbols; hook: called before the model is made"""
        rf = load.load()
        self.u, self.flow, self.sparse, self.nm = u, flow, sparse, name
        if base is not None:
            g, fl = self.g, self.fl = base.g, base.fl
        else:
            g = self.g = grid(flow, un, d=d, k=k, sizes=sizes, **(dict(comp=R.atom("COMPG", (), True)) if comp else {}))
            fl = self.fl = fluid(rho=rho, comp=R.atom("COMPF", (), True) if comp else 0)
            if hook:
                hook(self)
            if not concrete(u):
                modular(u, g, bounds=True)
                self.factors()
        self.comp = R.atom("COMPG", (), True) + R.atom("COMPF", (), True) if comp else 0
        self.dt = R.atom("DT" + name, (), True)
        kw = dict(dt=self.dt)
        self.pi = R.atom("PI0" + name, (), True)
        m = self.m = blackoil(g, fl, pi=self.pi, **kw)
        self.bound, self.well = [], []
        for t, kind in enumerate(bounds):
            c = cell(g, f"b{t}{name}", where=lambda c: ball([bnot(inside(g, c))] + [bnot(cid(g, b.c) == cid(g, c)) for b in self.bound]))
            b = G()
            b.c, b.kind, b.v = c, kind, R.atom(f"BV{t}{name}", ())
            b.id = cid(g, c)
            nm = bnames[t] if bnames else BNAMES[kind][0]
            m.set_boundary(b.id, nm, b.v)
            ns = [(a, n) for a, v in neighbors(g, c, False).items() for n in v]
            b.axis, b.n = ns[0] if ns else (None, None)
            self.bound.append(b)
        for t, kind in enumerate(wells):
            c = cell(g, f"w{t}{name}", True, where=(lambda c: ball([bnot(cid(g, w.c) == cid(g, c)) for w in self.well])) if self.well else None)
            w = G()
            w.c, w.kind, w.id = c, kind, cid(g, c)
            args = {n: R.atom(f"{n.upper()}W{t}{name}", (), n == "r") for n in WFORMS[kind]}
            w.q, w.pwf = args.get("q"), args.get("pwf", 0)
            m.set_well(cell_id=w.id, **args)
            if concrete(u):
                w.G = m.wells[w.id]["G"]
                cur().assume(w.G > 0)
            else:
                w.G = m.wells[w.id]["G"] = R.atom(f"WG{t}{name}", (), True)      # C07
            self.well.append(w)
        if compiled:
            self.compile()

    def compile(self):
        self.m.compile("numerical", "fdm", sparse=self.sparse)
        self.s = self.m.solution

    # ---- contract values
    def gf(self, a, c1, c2):
        """geometry factor of two face-adjacent cells (C04)"""
        if concrete(self.u):
            return harmonic(self.g, a, c1, c2, self.g.obj.factors[CONV])
        k = "xyz".index(a)
        lo = c1 if bool(SInt.of(c1[k]) < SInt.of(c2[k])) else c2
        return R.atom("GF" + a, tuple(x for x, b in zip(lo, "xyz") if b in self.flow), True)

    def factors(self):
        """contract of the geometry factors (C04): symmetric and positive on faces, zero elsewhere"""
        g, o = self.g, self.g.obj

        def loc(c, boundary):
            if boundary:
                return cid(g, c)
            t = [c[q] - (1 if a in g.flow else 0) for q, a in enumerate("xyz")]
            return t[0] + g.n["x"] * (t[1] + g.n["y"] * t[2])

        def get_cells_G(boundary=False, sparse=False):
            n = total(g, boundary)

            def entry(idx):
                c = ncoords(g, ndarr.F(idx[0]), boundary)
                if core.SUPPORT and core.SUPPORT[-1] is not None:
                    # the contract: a row is zero outside the columns of its neighbours
                    core.SUPPORT[-1] += [SInt.of(loc(m, boundary)) for ms in neighbors(g, c, boundary).values() for m in ms]
                    return 0
                for a, ms in neighbors(g, c, boundary).items():
                    for m in ms:
                        if bool(SInt.of(loc(m, boundary)) == SInt.of(ndarr.F(idx[1]))):
                            return self.gf(a, c, m)
                return 0
            r = dense_or_sparse(ndarr.NDArr((n, n), entry), sparse)
            if sparse:
                r.format = "csr"
            return r

        def get_cell_G(id=None, coords=None, boundary=False):
            if id is None and coords is None:
                raise ValueError("at least id or coords argument must be defined.")
            c = where(g, id, coords)
            assert not (boundary and not bool(inside(g, c)))
            d = fakes.SDict()
            for a, ms in neighbors(g, c, boundary).items():
                for m in ms:
                    d[cid(g, m) if id is not None else m] = self.gf(a, c, m)
            return d
        o.get_cells_G, o.get_cell_G = get_cells_G, get_cell_G

    @property
    def muB(self):
        return self.fl.mu * self.fl.B

    def T(self, a, c1, c2):
        return self.gf(a, c1, c2) / self.muB

    def z(self, c):
        return self.g.p["z"](c)

    def grav(self):
        return self.fl.g

    def RHS(self, c):
        if self.comp == 0:
            return 0
        return vol(self.g, c) * self.g.p["phi"](c) * self.comp / (self.m.factors["volume conversion"] * self.fl.B * self.dt)

    def row(self, c):
        """position of an interior cell in the assembled system"""
        g = self.g
        t = [c[q] - (1 if a in g.flow else 0) for q, a in enumerate("xyz")]
        return t[0] + g.n["x"] * (t[1] + g.n["y"] * t[2])

    def faces(self, c):
        """(axis, interior neighbour) of an interior cell"""
        return [(a, n) for a, v in neighbors(self.g, c, False).items() for n in v]

    def touches(self, b, c):
        """the boundary is at a face of cell c"""
        if b.n is None:
            return False
        r = True
        for x, y in zip(b.n, c):
            r = band(r, x == y)
        return bool(r)

    def bflux(self, b):
        """(constant, coefficient of the cell pressure) of the flux through a boundary"""
        T = self.T(b.axis, b.c, b.n)
        if b.kind == "p":
            return 2 * T * (b.v - self.grav() * (self.z(b.c) - self.z(b.n))), -2 * T
        if b.kind == "q":
            return b.v, 0
        return T * size(self.g, b.axis, b.n) * b.v, 0

    def wflux(self, w, ctl):
        if ctl == "q":
            return w.q, 0
        return w.G / self.muB * w.pwf, -w.G / self.muB

    def samecell(self, c1, c2):
        r = True
        for x, y in zip(c1, c2):
            r = band(r, x == y)
        return r

    def entry(self, c, j, ctl):
        """A[c, j]: coefficient of the pressure of cell j in the balance of cell c"""
        if not bool(self.samecell(c, j)):
            for a, n in self.faces(c):
                if bool(self.samecell(n, j)):
                    return self.T(a, c, n)
            return 0
        t = -self.RHS(c)
        for a, n in self.faces(c):
            t = t - self.T(a, c, n)
        for b in self.bound:
            if self.touches(b, c):
                t = t + self.bflux(b)[1]
        for w, k in zip(self.well, ctl):
            if bool(self.samecell(w.c, c)):
                t = t + self.wflux(w, k)[1]
        return t

    def const(self, c, ctl, p_old):
        """d[c]: minus the constant part of the balance of cell c"""
        t = 0 if self.comp == 0 else -self.RHS(c) * p_old(c)
        for a, n in self.faces(c):
            t = t + self.T(a, c, n) * self.grav() * (self.z(n) - self.z(c))
        for b in self.bound:
            if self.touches(b, c):
                t = t - self.bflux(b)[0]
        for w, k in zip(self.well, ctl):
            if bool(self.samecell(w.c, c)):
                t = t - self.wflux(w, k)[0]
        return t

    def start(self):
        return ["p" if w.kind == "p" else "q" for w in self.well]


WCONF = [("x", True), ("x", False), ("xy", True), ("xyz", True)]


def advance(s, ctl, name=""):
    """the state at any later step: pressures and rates of all levels arbitrary
    (rates of boundaries under a rate or gradient condition are carried over), the
    wells under any of their controls"""
    g, sol = s.g, s.s
    t = ranged("tstep" + name, 1)
    sol.tstep = t
    sol.nsteps = t + 1
    n = total(g)
    at = lambda i: tuple(x for x, a in zip(ncoords(g, i), "xyz") if a in g.flow)
    P = lambda lv, i: R.atom("P" + name, (lv,) + at(i))
    Q = lambda lv, i: R.atom("Q" + name, (lv,) + at(i))

    def rate(idx):
        lv, i = ndarr.F(idx[0]), ndarr.F(idx[1])
        for b in s.bound:
            if b.kind != "p" and bool(SInt.of(i) == SInt.of(b.id)):
                return s.bflux(b)[0] if b.n is not None else 0
        return Q(lv, i)

    def press(idx):
        lv, i = ndarr.F(idx[0]), ndarr.F(idx[1])
        for b in s.bound:
            if b.kind == "p" and bool(SInt.of(i) == SInt.of(b.id)):
                return b.v
        return P(lv, i)
    sol.pressures = ndarr.NDArr((t + 1, n), press)
    sol.rates = ndarr.NDArr((t + 1, n), rate)
    for w, k in zip(s.well, ctl):
        control(s, w, k, name)
    s.t, s.P, s.Q = t, P, Q
    return lambda c: P(t, cid(g, c))


def control(s, w, k, name=""):
    """the record of a well under control k"""
    d = s.m.wells[w.id]
    d["constrain"] = "q" if k == "q" else "pwf"
    if k == "q":
        d["q"] = w.q
        d["pwf"] = R.atom(f"pwf_est{w.id}{name}" if concrete(s.u) else "pwf_est" + name, (cid(s.g, w.c),))
    else:
        d["pwf"] = w.pwf
        d["q"] = R.atom("q_est" + name, (cid(s.g, w.c),))
    if w.q is None and k == "q":
        raise AssertionError("control")


# ---- contracts of what solve relies on
DIRECT = ("solve", "spsolve")
ITERATIVE = ("bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr")


def at(g, i):
    """coordinates (flow axes) of the i-th interior cell"""
    return tuple(x for x, a in zip(ncoords(g, i, False), "xyz") if a in g.flow)


def solvers(s, exit_code=0):
    """contract of the solvers: each answers with some pressures; returns the log
    of the calls (an iterative solver reports exit_code)"""
    from .. import fakesparse
    g, log = s.g, []
    n = total(g, False)

    def mk(name):
        def f(A, b, *a, **k):
            r = G()
            r.name, r.A, r.b, r.args, r.kw = name, A, b, a, k
            r.state = (s.s.tstep,) + tuple((w.id, s.m.wells[w.id]["constrain"]) for w in s.well)
            t = len(log)
            if concrete(s.u):
                r.X = fakesparse.exact(A, b)
            else:
                r.X = ndarr.NDArr((n,), lambda idx: R.atom(f"X{t}", at(g, ndarr.F(idx[0]))))
            log.append(r)
            if name == "solve" and len(b.shape) == 2:
                return r.X.reshape(-1, 1)
            return r.X if name in DIRECT else (r.X, exit_code(t) if callable(exit_code) else exit_code)
        return f
    fakesparse.SOLVE.clear()
    fakesparse.SOLVE.update({nm: mk(nm) for nm in DIRECT + ITERATIVE})
    return log


def assembly(s):
    """contract of the assembly (C08, C09): some system, made for the state at the call"""
    log = []
    if concrete(s.u):
        return log
    g = s.g
    n = total(g, False)

    def mk(name):
        def f(threading=False):
            t = len(log)
            r = G()
            r.name = name
            r.state = (s.s.tstep,) + tuple((w.id, s.m.wells[w.id]["constrain"]) for w in s.well)
            r.A = ndarr.NDArr((n, n), lambda idx: R.atom(f"A{t}", at(g, ndarr.F(idx[0])) + at(g, ndarr.F(idx[1]))))
            r.d = ndarr.NDArr((n, 1), lambda idx: R.atom(f"D{t}", at(g, ndarr.F(idx[0]))))
            log.append(r)
            return dense_or_sparse(r.A, s.sparse), dense_or_sparse(r.d, s.sparse)
        return f
    for nm in ("get_matrices_vect", "get_matrices_symb"):
        setattr(s.s, nm, mk(nm))
    return log
