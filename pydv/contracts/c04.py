"""C04: geometry factors and transmissibilities."""
from .common import *
from .c03 import area, size
from .stubs import modular, modular_G, nxt

CONV = "transmissibility conversion"


def harmonic(g, a, c1, c2, conv):
    """2c / (d1/(A1 k1) + d2/(A2 k2)) along axis a"""
    d1, d2, A1, A2 = size(g, a, c1), size(g, a, c2), area(g, a, c1), area(g, a, c2)
    k1, k2 = g.p["k" + a](c1), g.p["k" + a](c2)
    return 2 * conv / (d1 / (A1 * k1) + d2 / (A2 * k2))


def samec(c1, c2):
    r = True
    for x, y in zip(c1, c2):
        r = band(r, x == y)
    return r


def factor(g, c1, c2, conv):
    """the geometry factor of any two cells"""
    for a in g.flow:
        for s in (1, -1):
            if samec(nxt(c1, a, s), c2):
                return harmonic(g, a, c1, c2, conv)
    return 0


def mk(kmode, dmode, sparse, boundary):
    def matrix(u, flow, un):
        g = grid(flow, un, d=dmode, k=kmode)
        G = g.obj.get_cells_G(boundary, sparse)
        conv = g.obj.factors[CONV]
        n = total(g, boundary)
        u.eq("shape", tuple(G.shape), (n, n))
        c1, c2 = cell(g, "1", not boundary), cell(g, "2", not boundary)
        off = 0 if boundary else 1
        s = g.N if boundary else g.n

        def loc(c):
            t = [c[q] - (off if a in g.flow else 0) for q, a in enumerate("xyz")]
            return t[0] + s["x"] * (t[1] + s["y"] * t[2])
        u.eq("G[a,b]", lambda: G[loc(c1), loc(c2)], lambda: factor(g, c1, c2, conv))
    return matrix


def mkcell(kmode, dmode, by):
    def percell(u, flow, un):
        g = grid(flow, un, d=dmode, k=kmode)
        conv = g.obj.factors[CONV]
        modular(u, g)
        c = cell(g)
        for boundary in (False, True):
            if boundary and not inside(g, c):
                continue      # boundary cells are only asked for their interior neighbours
            G = g.obj.get_cell_G(cid(g, c), None, boundary) if by == "id" else g.obj.get_cell_G(None, c, boundary)
            cnt = 0
            for a in g.flow:
                for st in (-1, 1):
                    m = nxt(c, a, st)
                    ok = band(inside(g, c), valid(g, m)) if boundary else inside(g, m)
                    if ok:
                        cnt += 1
                        key = cid(g, m) if by == "id" else m
                        u.eq(f"G({boundary})", G[key], harmonic(g, a, c, m, conv))
            u.eq(f"entries({boundary})", len(G), cnt)
    return percell


def mktrans(sparse, boundary):
    def trans(u, flow, un):
        g = grid(flow, un)
        fl = fluid()
        m = blackoil(g, fl)
        conv = g.obj.factors[CONV]
        modular(u, g)
        modular_G(u, g, conv)
        muB = fl.mu * fl.B
        T = m.get_cells_trans(boundary, sparse)
        n = total(g, boundary)
        u.eq("shape", tuple(T.shape), (n, n))
        c1, c2 = cell(g, "1", not boundary), cell(g, "2", not boundary)
        off = 0 if boundary else 1
        s = g.N if boundary else g.n

        def loc(c):
            t = [c[q] - (off if a in g.flow else 0) for q, a in enumerate("xyz")]
            return t[0] + s["x"] * (t[1] + s["y"] * t[2])
        u.eq("T[a,b]", lambda: T[loc(c1), loc(c2)], lambda: factor(g, c1, c2, conv) / muB)
        for b in (False, True):
            if b and not inside(g, c1):
                continue
            d = m.get_cell_trans(cid(g, c1), None, b)
            cnt = 0
            for a in g.flow:
                for st in (-1, 1):
                    w = nxt(c1, a, st)
                    ok = band(inside(g, c1), valid(g, w)) if b else inside(g, w)
                    if ok:
                        cnt += 1
                        u.eq(f"cell T({b})", d[cid(g, w)], harmonic(g, a, c1, w, conv) / muB)
            u.eq(f"cell T entries({b})", len(d), cnt)
    return trans


def symmetric(u, flow, un):
    """lemma: the factor of the contract is symmetric"""
    g = grid(flow, un)
    c1, c2 = cell(g, "1"), cell(g, "2")
    u.eq("factor(a,b) = factor(b,a)", lambda: factor(g, c1, c2, 1), lambda: factor(g, c2, c1, 1))


def units():
    out = []
    for sp in (False, True):
        for b in (False, True) if thorough() else (False,):
            out += per_config(f"trans({'sparse' if sp else 'dense'},{'all' if b else 'interior'})", mktrans(sp, b), ("get_cells_trans", "get_cell_trans"))
    out += per_config("lemma: symmetry", symmetric, (), [(f, True) for f in FLOWS])
    modes = (("array", "array"), ("scalar", "scalar"), ("scalar", "array"), ("array", "scalar"))
    for km, dm in modes if thorough() else modes[:1]:
        for sp in (False, True):
            for b in (False, True):
                out += per_config(f"matrix(k={km},d={dm},{'sparse' if sp else 'dense'},{'all' if b else 'interior'})", mk(km, dm, sp, b),
                                  ("get_cells_G", "get_cells_G_diag_1", "get_cells_G_diag_2", "get_cells_G_diag_3"))
        for by in ("id", "coords"):
            out += per_config(f"cell(k={km},d={dm},by {by})", mkcell(km, dm, by), ("get_cell_G", "get_cell_neighbors", "get_cell_k"))
    return out
