"""C01: numbering, shapes, coordinates, boundaries."""
from .common import *
from ..core import bor


def shapes(u, flow, un):
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    u.eq("get_D", o.get_D(), len(flow))
    u.eq("get_fdir", o.get_fdir(), flow)
    for b in (True, False):
        s = g.N if b else g.n
        u.eq(f"get_shape({b})", tuple(o.get_shape(b)), (s["x"], s["y"], s["z"]))
        u.eq(f"get_n({b})", o.get_n(b), total(g, b))
        u.eq(f"get_fshape({b})", tuple(o.get_fshape(b, False)), fshape(g, b))
        u.eq(f"get_fshape({b},points)", tuple(o.get_fshape(b, True)), fshape(g, b, True))


def ids(u, flow, un):
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    for b in (True, False):
        n = total(g, b)
        sp = lambda t: cid(g, ncoords(g, t, b))
        u.same_array(f"get_cells_id({b})", o.get_cells_id(b, False, "array"), (n,), sp)
        u.same_array(f"get_order({b})", o.get_order("natural", b, False), (n,), sp)
        fs = fshape(g, b)
        spf = lambda *ix: cid(g, ficoords(g, ix, b))
        u.same_array(f"get_cells_id({b},fshape)", o.get_cells_id(b, True, "array"), fs, spf)
        u.same_array(f"get_cells_i({b})", o.get_cells_i(b, False, "array"), (n,), lambda t: t)
        nat = lambda *ix: lin_local(g, ix, b)
        u.same_array(f"get_cells_i({b},fshape)", o.get_cells_i(b, True), fs, nat)
    u.raises("get_order unknown", ValueError, lambda: o.get_order("other", True, False))


def lin_local(g, ix, b):
    s = g.N if b else g.n
    c = ficoords(g, ix, True)
    return c[0] + s["x"] * (c[1] + s["y"] * c[2])


def idcoords(u, flow, un):
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    c = cell(g)
    i = cid(g, c)
    u.eq("get_cell_id(coords)", o.get_cell_id(c, True), i)
    u.eq("get_cell_coords(id)", tuple(o.get_cell_coords(i, True)), c)
    u.eq("id(coords(id))", o.get_cell_id(o.get_cell_coords(i, True), True), i)
    u.eq("get_cell_id(list)", o.get_cell_id((c, c), True), [i, i])
    ic = o.get_cell_icoords(c)
    u.eq("get_cell_icoords", tuple(ic), tuple(x for x, a in list(zip(c, "xyz"))[::-1] if un or a in flow))


def idcoords_inner(u, flow, un):
    """local numbering without boundary cells"""
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    c = tuple((x - 1) if a in flow else 0 for x, a in zip(cell(g, interior=True), "xyz"))
    i = c[0] + g.n["x"] * (c[1] + g.n["y"] * c[2])
    u.eq("get_cell_id(coords,False)", o.get_cell_id(c, False), i)
    u.eq("get_cell_coords(id,False)", tuple(o.get_cell_coords(i, False)), c)


def coords(u, flow, un):
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    for b in (True, False):
        n = total(g, b)
        u.same_array(f"get_cells_coords({b},array)", o.get_cells_coords(b, False, "array"), (n, 3), lambda t, q: pickc(ncoords(g, t, b), q))
        u.same_array(f"get_cells_coords({b},fshape)", o.get_cells_coords(b, True, "array"), fshape(g, b, True), lambda *ix: pickc(ficoords(g, ix[:-1], b), ix[-1]))


def pickc(c, q):
    return ndarr.pick(q, list(c))


def membership(u, flow, un):
    """interior and boundary cells partition the cells (views as sets)"""
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    c = cell(g)
    i = cid(g, c)
    ins = inside(g, c)
    from ..fakes import h_in
    u.holds("interior id set iff inside", core.SBool(core.bz(h_in(i, o.get_cells_id(False, False, "set"))) == core.bz(ins)))
    u.holds("all id set", h_in(i, o.get_cells_id(True, False, "set")))
    u.holds("interior coords set iff inside", core.SBool(core.bz(h_in(c, o.get_cells_coords(False, False, "set"))) == core.bz(ins)))
    u.holds("all coords set", h_in(c, o.get_cells_coords(True, False, "set")))


def bmember(u, flow, un):
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    c = cell(g)
    i = cid(g, c)
    ins = inside(g, c)
    from ..fakes import h_in
    for fmt in ("set", "tuple", "array"):
        b = o.get_boundaries("id", fmt)
        u.holds(f"boundary id {fmt} iff not inside", core.SBool(core.bz(h_in(i, b)) == core.bz(core.bnot(ins))))
        if fmt == "array":
            u.eq("boundary count", ndarr_len(b), total(g, True) - total(g, False))
    for fmt in ("set", "tuple"):
        b = o.get_boundaries("coords", fmt)
        u.holds(f"boundary coords {fmt} iff not inside", core.SBool(core.bz(h_in(c, b)) == core.bz(core.bnot(ins))))
    u.raises("get_boundaries unknown", ValueError, lambda: o.get_boundaries("other", "set"))


def ndarr_len(b):
    from ..fakes import b_len
    return b_len(b)


def out_of_range(u, flow, un):
    """ids and coordinates outside the grid are in no set"""
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    from ..fakes import h_in
    # any integer outside [0, n): valid lower digits, top digit out of range
    c = [0, 0, 0]
    ax = [t for t, a in enumerate("xyz") if a in flow]
    for t in ax:
        v = SInt.var("q" + "xyz"[t])
        top = t == ax[-1]
        inr = core.band(v >= 0, v < g.N["xyz"[t]])
        cur().assume(core.bnot(inr) if top else inr)
        c[t] = v
    i = cid(g, c)
    for b in (True, False):
        u.holds(f"not in ids({b})", core.bnot(h_in(i, o.get_cells_id(b, False, "set"))))
    u.holds("not in boundaries", core.bnot(h_in(i, o.get_boundaries("id", "set"))))


def remove(u, flow, un):
    """remove_boundaries keeps exactly the interior entries, of any data"""
    g = grid(flow, un, d="scalar", props=False)
    o = g.obj
    fs = fshape(g, True)
    data = ndarr.NDArr(fs, lambda ix: R.atom("DATA", tuple(ndarr.F(x) for x in ix)))
    off = lambda ix: tuple(x + 1 if a in flow else x for x, a in zip(ix, [a for a in "zyx" if un or a in flow]))
    u.same_array("remove_boundaries(fshape)", o.remove_boundaries(data, False, "both"), fshape(g, False), lambda *ix: ndarr.at(data, *off(ix)))
    flat = data.reshape(-1)
    names = [a for a in "zyx" if un or a in flow]

    def want(t):
        c = ncoords(g, t, False)
        m = dict(zip("xyz", c))
        return ndarr.at(data, *[m[a] for a in names])
    u.same_array("remove_boundaries(flat)", o.remove_boundaries(flat, False, "both"), (total(g, False),), want)


def units():
    return (per_config("shapes", shapes, ("get_D", "get_fdir", "get_shape", "get_n", "get_fshape")) +
            per_config("ids", ids, ("get_order", "get_cells_id", "get_cells_i", "remove_boundaries")) +
            per_config("id-coords", idcoords, ("get_cell_id", "get_cell_coords", "get_cell_icoords")) +
            per_config("id-coords-inner", idcoords_inner, ("get_cell_id", "get_cell_coords")) +
            per_config("coords", coords, ("get_cells_coords",)) +
            per_config("membership", membership, ("get_cells_id", "get_cells_coords", "reformat")) +
            per_config("boundaries", bmember, ("get_boundaries", "extract_boundaries")) +
            per_config("out-of-range", out_of_range, ("get_boundaries", "get_cells_id")) +
            per_config("remove", remove, ("remove_boundaries",)))
