"""C07: placement, controls and productivity of wells."""
from .common import *
from .. import fakes
from .c04 import CONV
from .c03 import size

FLOWSW = [("x", True), ("x", False), ("xy", True), ("xy", False), ("xyz", True), ("xyz", False)]


def req(g, c):
    dx, dy = size(g, "x", c), size(g, "y", c)
    if g.flow == "x":
        return 0.14 * (dx ** 2 + dy ** 2) ** 0.5
    kx, ky = g.p["kx"](c), g.p["ky"](c)
    return 0.28 * ((ky / kx) ** 0.5 * dx ** 2 + (kx / ky) ** 0.5 * dy ** 2) ** 0.5 / ((ky / kx) ** 0.25 + (kx / ky) ** 0.25)


def productivity(g, c, r, s, conv):
    kx, ky = g.p["kx"](c), g.p["ky"](c)
    kH = kx if g.flow == "x" else (kx * ky) ** 0.5
    return 2 * fakes.PI * conv * kH * size(g, "z", c) / (core.rfun("log", 12 * req(g, c) / r) + s)


def args_of(names, tag):
    return {n: R.atom(f"{n}_{tag}", (), n == "r") for n in names}


def place(m, id, kw, how):
    if how == "direct":
        m.set_well(cell_id=id, **kw)
        return
    rf = load.load()
    w = rf.wells.SingleCell(cell_id=id, **{k: v for k, v in kw.items() if k != "pwf"})
    if "pwf" in kw:
        w.pwf = kw["pwf"]
    if how == "object":
        m.set_well(w)
    else:
        m.set_well(well=w, cell_id=id)


def check(u, g, m, c, st, conv, label):
    """st: controls in force"""
    w = m.wells[cid(g, c)]
    for n in ("q", "s"):
        u.eq(f"{label}: {n} given", bool(fakes.h_in(n, w)), n in st)
    for n in ("q", "s", "r"):
        if n in st:
            u.eq(f"{label}: {n}", w[n], st[n])
    if "q" in st:
        u.eq(f"{label}: target rate", w["q_sp"], st["q"])
    u.eq(f"{label}: pressure limit", (w["pwf"], w["pwf_sp"]), (st.get("pwf", 0), st.get("pwf", 0)))
    u.eq(f"{label}: control", w["constrain"], "q" if "q" in st else "pwf" if "pwf" in st else None)
    u.eq(f"{label}: equivalent radius", w["r_eq"], req(g, c))
    u.eq(f"{label}: productivity", w["G"], productivity(g, c, st["r"], st.get("s", 0), conv))


FORMS = [("r", "q"), ("r", "q", "s"), ("r", "pwf"), ("r", "s", "pwf"), ("r", "q", "pwf"), ("r", "q", "pwf", "s")]


def mk(how):
    def wells(u, flow, un):
        for names in FORMS:
            g = grid(flow, un)
            m = blackoil(g, fluid())
            conv = g.obj.factors[CONV]
            c = cell(g, "1", True)
            st = args_of(names, "a")
            place(m, cid(g, c), st, how)
            check(u, g, m, c, st, conv, f"{names}")
            u.eq("one well", fakes.b_len(m.wells), 1)
    return wells


def mkagain(h1, h2):
    def again(u, flow, un):
        """a well changed later, and a second well in another cell"""
        for first, second in ((("r", "q"), ("r", "q", "pwf", "s")), (("r", "s", "pwf"), ("q",)), (("r", "q", "s"), ("s", "pwf")), (("r", "q", "pwf"), ("r",))):
            if h2 != "direct" and "r" not in second:
                continue      # a well object describes the whole well
            g = grid(flow, un)
            m = blackoil(g, fluid())
            conv = g.obj.factors[CONV]
            c1, c2 = cell(g, "1", True), cell(g, "2", True)
            a, b, o = args_of(first, "a"), args_of(second, "b"), args_of(("r", "q", "s"), "o")
            place(m, cid(g, c1), a, h1)
            other = not bool(cid(g, c1) == cid(g, c2))
            if other:
                place(m, cid(g, c2), o, h1)
            place(m, cid(g, c1), b, h2)
            st = dict(a, **b) if h2 == "direct" else b
            check(u, g, m, c1, st, conv, f"{first} then {second}")
            if other:
                check(u, g, m, c2, o, conv, "other well")
                u.eq("two wells", fakes.b_len(m.wells), 2)
            else:
                u.eq("one well", fakes.b_len(m.wells), 1)
    return again


def mkrejected(where):
    def rejected(u, flow, un):
        g = grid(flow, un, k="scalar")
        m = blackoil(g, fluid())
        if where == "boundary":
            c = cell(g)
            cur().assume(bnot(inside(g, c)))
            i = cid(g, c)
        else:
            t = SInt.var("t")
            cur().assume(t >= 0)
            i = -1 - t if where == "negative" else total(g) + t
        for how in ("direct", "object", "both"):
            u.raises(f"well outside the interior ({how})", (AssertionError, ValueError, IndexError), lambda: place(m, i, args_of(("r", "q", "s"), "a"), how))
            u.eq("no well", fakes.b_len(m.wells), 0)
        u.raises("no cell", (AssertionError, ValueError), lambda: m.set_well(q=1, r=1, s=0))
    return rejected


def constructor(u, flow, un):
    rf = load.load()
    g = grid(flow, un)
    c = cell(g, "1", True)
    st = args_of(("r", "q", "s"), "a")
    m = blackoil(g, fluid(), well=rf.wells.SingleCell(cell_id=cid(g, c), **st))
    check(u, g, m, c, st, g.obj.factors[CONV], "well of the constructor")


def units():
    out = []
    cov = ("set_well", "__calc_well_r_eq", "__calc_well_G", "SingleCell.set_props")
    for how in ("direct", "object", "both"):
        out += per_config(f"well({how})", mk(how), cov, FLOWSW)
    for h1 in ("direct", "object"):
        for h2 in ("direct", "object"):
            out += per_config(f"again({h1},{h2})", mkagain(h1, h2), cov, FLOWSW)
    for w in ("boundary", "negative", "beyond"):
        out += per_config(f"rejected({w})", mkrejected(w), ("set_well",), FLOWSW)
    out += per_config("constructor", constructor, cov, FLOWSW)
    return out
