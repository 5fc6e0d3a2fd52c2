"""C03: sizes, areas, volumes, centers."""
from .common import *

OTHER = {"x": "yz", "y": "xz", "z": "xy"}


def size(g, a, c):
    return g.d[a](c["xyz".index(a)])


def area(g, a, c):
    p, q = OTHER[a]
    return size(g, p, c) * size(g, q, c)


def vol(g, c):
    return size(g, "x", c) * size(g, "y", c) * size(g, "z", c)


def center(g, a, c, dmode):
    i = c["xyz".index(a)]
    if a in g.flow:
        before = ndarr.PS("D" + a.upper(), True, i) if dmode == "array" else R.of(i) * size(g, a, c)
    else:
        before = R.of(0)
    return before + size(g, a, c) / 2


def arrays(u, g, label, fn, spec):
    for b in (True, False):
        u.same_array(f"{label}({b},flat)", fn(b, False), (total(g, b),), lambda t: spec(ncoords(g, t, b)))
        u.same_array(f"{label}({b},fshape)", fn(b, True), fshape(g, b), lambda *ix: spec(ficoords(g, ix, b)))


def mk(dmode):
    def sizes(u, flow, un):
        g = grid(flow, un, d=dmode, props=False)
        o = g.obj
        for a in "xyz":
            arrays(u, g, f"get_cells_d({a})", lambda b, f: o.get_cells_d(a, b, f), lambda c: size(g, a, c))
            u.same_array(f"get_cells_d{a}", getattr(o, "get_cells_d" + a)(True, False), (total(g),), lambda t: size(g, a, ncoords(g, t)))
        every = o.get_cells_d("dict")
        for a in "xyz":
            u.same_array(f"get_cells_d(dict)[{a}]", every[a], (total(g),), lambda t: size(g, a, ncoords(g, t)))
        u.raises("get_cells_d unknown", ValueError, lambda: o.get_cells_d("w"))

    def areas(u, flow, un):
        g = grid(flow, un, d=dmode, props=False)
        o = g.obj
        for a in "xyz":
            arrays(u, g, f"get_cells_A({a})", lambda b, f: o.get_cells_A(a, b, f), lambda c: area(g, a, c))
            u.same_array(f"get_cells_A{a}", getattr(o, "get_cells_A" + a)(True, False), (total(g),), lambda t: area(g, a, ncoords(g, t)))
        every = o.get_cells_A("dict")
        for a in "xyz":
            u.same_array(f"get_cells_A(dict)[{a}]", every[a], (total(g),), lambda t: area(g, a, ncoords(g, t)))
        u.raises("get_cells_A unknown", ValueError, lambda: o.get_cells_A("w"))

    def volumes(u, flow, un):
        g = grid(flow, un, d=dmode, props=False)
        o = g.obj
        arrays(u, g, "get_cells_V", lambda b, f: o.get_cells_V(b, f), lambda c: vol(g, c))
        for b in (True, False):
            spec = ndarr.NDArr((total(g, b),), lambda ix: vol(g, ncoords(g, ndarr.F(ix[0]), b)))
            u.eq(f"get_Vt({b})", o.get_Vt(b), ndarr.array_sum(spec))

    def cells(u, flow, un):
        g = grid(flow, un, d=dmode, props=False)
        o = g.obj
        c = cell(g)
        i = cid(g, c)
        for a in "xyz":
            for kw in ({"id": i}, {"coords": c}):
                by = next(iter(kw))
                u.eq(f"get_cell_d({a},{by})", o.get_cell_d(a, **kw), size(g, a, c))
                u.eq(f"get_cell_d{a}({by})", getattr(o, "get_cell_d" + a)(**kw), size(g, a, c))
                u.eq(f"get_cell_A({a},{by})", o.get_cell_A(a, **kw), area(g, a, c))
                u.eq(f"get_cell_A{a}({by})", getattr(o, "get_cell_A" + a)(**kw), area(g, a, c))
        for kw in ({"id": i}, {"coords": c}):
            by = next(iter(kw))
            u.eq(f"get_cell_V({by})", o.get_cell_V(**kw), vol(g, c))
        for f in (o.get_cell_V, lambda: o.get_cell_d("x"), lambda: o.get_cell_A("x"), o.get_cell_center):
            u.raises("no cell given", ValueError, f)

    def centers(u, flow, un):
        g = grid(flow, un, d=dmode, props=False)
        o = g.obj
        for b in (True, False):
            def sp(c, q):
                return ndarr.pick(q, [center(g, a, c, dmode) for a in "xyz"])
            u.same_array(f"get_cells_center({b})", o.get_cells_center(b, False, False), (total(g, b), 3), lambda t, q: sp(ncoords(g, t, b), q))
            u.same_array(f"get_cells_center({b},fshape)", o.get_cells_center(b, True, False), fshape(g, b, True), lambda *ix: sp(ficoords(g, ix[:-1], b), ix[-1]))
        c = cell(g)
        for kw in ({"id": cid(g, c)}, {"coords": c}):
            by = next(iter(kw))
            u.same_array(f"get_cell_center({by})", o.get_cell_center(**kw), (3,), lambda q: ndarr.pick(q, [center(g, a, c, dmode) for a in "xyz"]))
    return sizes, areas, volumes, cells, centers


def units():
    out = []
    for dmode in ("array", "scalar"):
        s, a, v, c, ce = mk(dmode)
        out += per_config(f"sizes({dmode})", s, ("__calc_cells_d_", "__calc_cells_d", "get_cells_d"))
        out += per_config(f"areas({dmode})", a, ("__calc_cells_A", "get_cells_A"))
        out += per_config(f"volumes({dmode})", v, ("__calc_cells_V", "get_cells_V", "get_Vt"))
        out += per_config(f"cells({dmode})", c, ("get_cell_d", "get_cell_A", "get_cell_V"))
        out += per_config(f"centers({dmode})", ce, ("get_cells_center", "get_cell_center"))
    return out
