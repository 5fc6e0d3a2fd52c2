"""Contracts of grid functions used in place of their bodies (each is proved of
the body in the property named); callers are verified against these."""
from .common import *
from .c03 import area, size, vol


def nxt(c, a, s):
    return tuple(v + s if b == a else v for v, b in zip(c, "xyz"))


def where(g, id, coords):
    return ncoords(g, id) if id is not None else tuple(coords)


def neighbors(g, c, boundary):
    """face-adjacent cells of c per axis: interior ones, or all (boundary=True)"""
    out = {"x": [], "y": [], "z": []}
    for a in g.flow:
        for s in (-1, 1):
            m = nxt(c, a, s)
            ok = valid(g, m) if boundary else inside(g, m)
            if bool(ok):
                out[a].append(m)
    return out


def modular(u, g, neigh=True, values=True, bounds=True):
    """C02: get_cell_neighbors, get_cell_boundaries; C03: get_cell_d, get_cell_A, get_cell_V; C05: get_cell_k"""
    if getattr(u, "concrete", False):
        return
    rf = load.load()
    o = g.obj
    reformat = rf.utils.helpers.reformat

    def ask(id, coords):
        if id is None and coords is None:
            raise ValueError("at least id or coords argument must be defined.")

    def get_cell_neighbors(id=None, coords=None, boundary=False, fmt="dict"):
        ask(id, coords)
        c = where(g, id, coords)
        assert not (boundary and not bool(inside(g, c))), "boundary cells are not allowed with boundary=True."
        d = neighbors(g, c, boundary)
        if id is not None:
            d = {a: [cid(g, m) for m in v] for a, v in d.items()}
        return reformat(d, fmt=fmt)

    def get_cell_boundaries(id=None, coords=None, fmt="dict"):
        ask(id, coords)
        c = where(g, id, coords)
        assert bool(inside(g, c)), "boundary cells are not allowed."
        d = {a: [m for m in v if not bool(inside(g, m))] for a, v in neighbors(g, c, True).items()}
        if id is not None:
            d = {a: [cid(g, m) for m in v] for a, v in d.items()}
        return reformat(d, fmt)

    def value(spec):
        def f(dir, id=None, coords=None):
            if id is None and coords is None:
                raise ValueError("id or coords argument must be defined.")
            return spec(dir, where(g, id, coords))
        return f
    if neigh:
        o.get_cell_neighbors = get_cell_neighbors
    if bounds:
        o.get_cell_boundaries = get_cell_boundaries
    if values:
        o.get_cell_d = value(lambda a, c: size(g, a, c))
        o.get_cell_A = value(lambda a, c: area(g, a, c))
        o.get_cell_k = value(lambda a, c: g.p["k" + a](c))
        o.get_cell_V = lambda id=None, coords=None: value(lambda a, c: vol(g, c))(None, id, coords)


def dense_or_sparse(a, sparse):
    from .. import fakesparse
    return fakesparse.SpMat(a, "dia") if sparse else a


def modular_G(u, g, conv):
    """C04: get_cells_G and get_cell_G by their contracts"""
    if getattr(u, "concrete", False):
        return
    from .c04 import factor, harmonic
    o = g.obj
    bad = ()

    def get_cells_G(boundary=False, sparse=False):
        n = total(g, boundary)
        return dense_or_sparse(ndarr.NDArr((n, n), lambda idx: factor(g, ncoords(g, ndarr.F(idx[0]), boundary), ncoords(g, ndarr.F(idx[1]), boundary), conv)), sparse)

    def get_cell_G(id=None, coords=None, boundary=False):
        if id is None and coords is None:
            raise ValueError("at least id or coords argument must be defined.")
        c = where(g, id, coords)
        assert not (boundary and not bool(inside(g, c)))
        from ..fakes import SDict
        d = SDict()
        for a, ms in neighbors(g, c, boundary).items():
            for m in ms:
                d[cid(g, m) if id is not None else m] = harmonic(g, a, c, m, conv)
        return d
    o.get_cells_G = get_cells_G
    o.get_cell_G = get_cell_G
