"""C02: neighbours and boundaries of a cell."""
from .common import *
from ..fakes import h_in, b_len

AX = {"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1)}


def adjacent(g, c, a):
    e = AX[a]
    for s in (-1, 1):
        yield tuple(x + s * d for x, d in zip(c, e))


def expected(g, c, a, pred):
    """the cells sharing a face with c across axis a that satisfy pred (decided by the path)"""
    if a not in g.flow:
        return []
    return [t for t in adjacent(g, c, a) if bool(pred(t))]


def same_set(u, label, got, want):
    u.eq(label + ".count", b_len(got), len(want))
    for t in want:
        u.holds(label + ".has", h_in(t, got))


def compare(u, g, label, res, c, pred, key):
    for a in "xyz":
        want = [key(t) for t in expected(g, c, a, pred)]
        same_set(u, f"{label}[{a}]", res[a], want)
    u.eq(label + ".keys", sorted(res.keys()), ["x", "y", "z"])


def neighbors(by):
    def f(u, flow, un):
        g = grid(flow, un, d="scalar", props=False)
        o = g.obj
        c = cell(g)
        key = (lambda t: cid(g, t)) if by == "id" else (lambda t: t)
        kw = {"id": cid(g, c)} if by == "id" else {"coords": c}
        compare(u, g, "neighbors", o.get_cell_neighbors(fmt="dict", **kw), c, lambda t: inside(g, t), key)
        lst = o.get_cell_neighbors(fmt="list", **kw)
        want = [key(t) for a in flow for t in expected(g, c, a, lambda t: inside(g, t))]
        same_set(u, "neighbors list", lst, want)
    return f


def neighbors_all(by):
    def f(u, flow, un):
        g = grid(flow, un, d="scalar", props=False)
        o = g.obj
        c = cell(g, interior=True)
        key = (lambda t: cid(g, t)) if by == "id" else (lambda t: t)
        kw = {"id": cid(g, c)} if by == "id" else {"coords": c}
        compare(u, g, "neighbors(boundary)", o.get_cell_neighbors(boundary=True, fmt="dict", **kw), c, lambda t: valid(g, t), key)
    return f


def boundaries(by):
    def f(u, flow, un):
        g = grid(flow, un, d="scalar", props=False)
        o = g.obj
        c = cell(g, interior=True)
        key = (lambda t: cid(g, t)) if by == "id" else (lambda t: t)
        kw = {"id": cid(g, c)} if by == "id" else {"coords": c}
        compare(u, g, "boundaries", o.get_cell_boundaries(fmt="dict", **kw), c, lambda t: bnot(inside(g, t)), key)
        lst = o.get_cell_boundaries(fmt="list", **kw)
        same_set(u, "boundaries list", lst, [key(t) for a in flow for t in expected(g, c, a, lambda t: bnot(inside(g, t)))])
    return f


def rejected(by):
    def f(u, flow, un):
        g = grid(flow, un, d="scalar", props=False)
        o = g.obj
        c = cell(g)
        cur().assume(bnot(inside(g, c)))
        kw = {"id": cid(g, c)} if by == "id" else {"coords": c}
        u.raises("get_cell_boundaries of a boundary cell", AssertionError, lambda: o.get_cell_boundaries(**kw))
        u.raises("get_cell_neighbors(boundary) of a boundary cell", AssertionError, lambda: o.get_cell_neighbors(boundary=True, **kw))
        u.raises("no cell given", ValueError, lambda: o.get_cell_neighbors())
        u.raises("no cell given", ValueError, lambda: o.get_cell_boundaries())
    return f


def units():
    out = []
    for by in ("id", "coords"):
        out += per_config(f"neighbors by {by}", neighbors(by), ("get_cell_neighbors",))
        out += per_config(f"all neighbors by {by}", neighbors_all(by), ("get_cell_neighbors",))
        out += per_config(f"boundaries by {by}", boundaries(by), ("get_cell_boundaries", "get_cell_neighbors"))
        out += per_config(f"rejected by {by}", rejected(by), ("get_cell_boundaries", "get_cell_neighbors"))
    return out
