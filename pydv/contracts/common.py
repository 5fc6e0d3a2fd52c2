"""Symbolic grids: the precondition of every grid contract."""
import os
from .. import load, ndarr, core
from ..core import SInt, R, cur, band, bnot
from ..unit import Unit

FLOWS = ["x", "y", "z", "xy", "xz", "yz", "xyz"]
CONFIGS = [(f, un) for f in FLOWS for un in (True, False)]


def thorough():
    return os.environ.get("PYDV_TIER") == "thorough"


class G:
    """a symbolic grid and the values its contract speaks about"""


def ranged(name, lo, hi=None):
    """any integer of the range"""
    if hasattr(SInt, "sample"):
        v = SInt.sample(name, lo, hi)       # concrete run
    else:
        v = SInt.var(name)
    cur().assume(v >= lo)
    if hi is not None:
        cur().assume(v <= hi)
    return v


def dims(flow, sizes=None):
    n, N = {}, {}
    for a in "xyz":
        if a in flow:
            v = ranged("n" + a, 2) if sizes is None else sizes["xyz".index(a)]
            n[a] = v
            N[a] = v + 2
        else:
            n[a] = N[a] = 1
    fl = [a for a in "xyz" if a in flow]
    cur().radices = [] if sizes is not None else [[s[a] for a in fl[t:]] for t in range(len(fl)) for s in (N, n)]
    return n, N


def grid(flow, unify, d="array", k="array", props=True, units="field", spread=True, sizes=None, **kw):
    """A grid of symbolic size. d: 'array' (one symbolic size per position, flow
    axes) or 'scalar'; k likewise for permeabilities/porosity/depth; spread=False
    makes a single symbol per axis"""
    rf = load.load()
    g = G()
    g.n, g.N = dims(flow, sizes)
    g.flow, g.unify = flow, unify
    g.d = {}
    args = {}
    for a in "xyz":
        nm = "D" + a.upper()
        if a in flow and d == "array":
            g.d[a] = (lambda nm: lambda i: R.atom(nm, (i,), True))(nm)
            args["d" + a] = ndarr.NDArr((g.N[a],), (lambda f: lambda idx: f(ndarr.F(idx[0])))(g.d[a]))
        else:
            v = R.atom(nm + "s", (), True)
            g.d[a] = (lambda v: lambda i: v)(v)
            args["d" + a] = v
    g.p = {}
    names = ["kx", "ky", "kz", "phi", "z"] if props else []
    for p in names:
        if k == "array":
            f = (lambda p: lambda c: R.atom(p.upper(), tuple(x for x, a in zip(c, "xyz") if a in flow), p != "z"))(p)
            g.p[p] = f
            full = ndarr.NDArr((g.N["z"], g.N["y"], g.N["x"]), (lambda f: lambda idx: f(tuple(ndarr.F(x) for x in idx)[::-1]))(f))
            args[p] = full.reshape(-1)
        else:
            v = R.atom(p.upper() + "s", (), p != "z")
            g.p[p] = (lambda v: lambda c: v)(v)
            args[p] = v
    args.update(kw)
    g.args = args
    g.obj = rf.grids.RegularCartesian(nx=g.n["x"], ny=g.n["y"], nz=g.n["z"], unit=units, unify=unify, **args)
    return g


def cell(g, name="", interior=False, where=None):
    """generic coordinates of a cell of the grid (for which where holds)"""
    if where is not None and hasattr(SInt, "sample"):
        for _ in range(200):
            c = cell(g, name, interior)
            if where(c):
                break
            SInt.forget(*[t + name for t in "ijk"])
    else:
        c = tuple(ranged(t + name, 1 if interior else 0, g.n[a] if interior else g.n[a] + 1) if a in g.flow else 0 for a, t in zip("xyz", "ijk"))
    if where is not None:
        cur().assume(where(c))
    return c


def cid(g, c):
    return c[0] + g.N["x"] * (c[1] + g.N["y"] * c[2])


def inside(g, c, lo=1, off=0):
    """SBool: c is an interior cell"""
    r = True
    for v, a in zip(c, "xyz"):
        if a in g.flow:
            r = band(r, band(v >= 1, v <= g.n[a]))
    return r


def valid(g, c):
    r = True
    for v, a in zip(c, "xyz"):
        if a in g.flow:
            r = band(r, band(v >= 0, v < g.N[a]))
        else:
            r = band(r, v == 0)
    return r


def fshape(g, boundary=True, points=False):
    s = g.N if boundary else g.n
    r = tuple(s[a] for a in "zyx" if g.unify or a in g.flow)
    return r + ((3,) if points else ())


def ficoords(g, idx, boundary=True):
    """coordinates of the cell at flow-shaped index idx"""
    names = [a for a in "zyx" if g.unify or a in g.flow]
    m = dict(zip(names, idx))
    off = 0 if boundary else 1
    return tuple((m[a] + off) if a in g.flow else 0 for a in "xyz")


def ncoords(g, lin, boundary=True):
    """coordinates of the lin-th cell in natural order"""
    s = g.N if boundary else g.n
    off = 0 if boundary else 1
    c = {}
    rest = lin
    fl = [a for a in "xyz" if a in g.flow]
    for a in fl[:-1]:
        if isinstance(rest, int) and isinstance(s[a], SInt):
            rest = SInt.of(rest)
        rest, c[a] = divmod(rest, s[a])
    c[fl[-1]] = rest
    return tuple(c[a] + off if a in g.flow else 0 for a in "xyz")


def total(g, boundary=True):
    s = g.N if boundary else g.n
    r = 1
    for a in g.flow:
        r = r * s[a]
    return r


def per_config(prefix, fn, covers=(), configs=CONFIGS):
    return [Unit(f"{prefix}[{f},{'unify' if un else 'flat'}]", (lambda f, un: lambda u: fn(u, f, un))(f, un), covers) for f, un in configs]


def fluid(g=None, rho=True, comp=0, units="field"):
    rf = load.load()
    return rf.fluids.SinglePhase(mu=R.atom("MU", (), True), B=R.atom("FVF", (), True), rho=R.atom("RHO", (), True) if rho else None, comp=comp, unit=units)


def blackoil(g, fl, **kw):
    rf = load.load()
    kw.setdefault("pi", R.atom("PI0", (), True))
    return rf.models.BlackOil(g.obj, fl, **kw)


def locally(fn, facts=()):
    """explore fn here, without running what came before again on each of its paths"""
    c = cur()
    if not hasattr(c, "cases"):
        return fn()
    for conds, kind, v, *_ in c.cases(fn, list(facts)):
        if kind == "exc":
            raise v
