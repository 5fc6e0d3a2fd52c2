"""C05: changes of rock properties and the queries made after them."""
from .common import *
from .c04 import CONV, factor, harmonic, samec
from .stubs import modular, nxt

NAMES = ("kx", "ky", "kz", "phi", "z")


def fresh(g, name, tag, how):
    """a new value for all cells (scalar or array) or for one cell: (argument, spec)"""
    pos = name != "z"
    if how == "array":
        f = lambda c: R.atom(f"{name}_{tag}", tuple(x for x, a in zip(c, "xyz") if a in g.flow), pos)
        full = ndarr.NDArr((g.N["z"], g.N["y"], g.N["x"]), lambda idx: f(tuple(ndarr.F(x) for x in idx)[::-1]))
        return full.reshape(-1), f
    v = R.atom(f"{name}_{tag}", (), pos)
    return v, lambda c: v


def change(g, name, how, fn, c1, tag):
    """apply one change through the interface and to the specification state"""
    v, f = fresh(g, name, tag, how)
    kw = {}
    if how == "id":
        kw = dict(id=cid(g, c1))
    elif how == "coords":
        kw = dict(coords=c1)
    if fn == "set_prop":
        g.obj.set_prop(name, v, **kw)
    else:
        g.obj.set_props(**{name: v}, **kw)
    old = g.p[name]
    if kw:
        g.p[name] = lambda c: f(c) if samec(c, c1) else old(c)
    else:
        g.p[name] = f


def ask(u, g, c2, tag, check):
    """all per-cell and array queries of all properties at cell c2"""
    o = g.obj
    id2 = cid(g, c2)
    fi = tuple(v for v, a in zip(c2[::-1], "zyx") if g.unify or a in g.flow)

    def say(label, fn, want):
        got = fn()
        if check:
            u.eq(label + tag, got, want)
    inner = bool(inside(g, c2))
    for nm in NAMES:
        w = g.p[nm](c2)
        say(f"get_prop({nm})", lambda: o.get_prop(nm, True, False)[id2], w)
        say(f"get_prop({nm},fshape)", lambda: o.get_prop(nm)[fi], w)
        say(f"attribute {nm}", lambda: getattr(o, nm)[id2], w)
        if inner:
            fin = tuple(v if a not in g.flow else v - 1 for v, a in zip(c2[::-1], "zyx") if g.unify or a in g.flow)
            say(f"get_prop({nm},interior)", lambda: o.get_prop(nm, False, True)[fin], w)
        if nm[0] != "k":
            continue
        a = nm[1]
        say(f"grid.k[{a}]", lambda: o.k[a][id2], w)
        say(f"get_cells_k({a})", lambda: o.get_cells_k(a, True, False)[id2], w)
        for lab, q in (("(dir,id)", lambda: o.get_cell_k(a, id2)), ("(dir,id=)", lambda: o.get_cell_k(a, id=id2)), ("(dir,None,coords)", lambda: o.get_cell_k(a, None, c2)),
                       ("(dir,coords=)", lambda: o.get_cell_k(a, coords=c2)), ("(dir=,id=)", lambda: o.get_cell_k(dir=a, id=id2)), ("k(id)", lambda: getattr(o, "get_cell_k" + a)(id2)),
                       ("k(coords)", lambda: getattr(o, "get_cell_k" + a)(coords=c2))):
            say(f"get_cell_k({a}){lab}", q, w)


def mkvalues(how, fn):
    def values(u, flow, un):
        g = grid(flow, un)
        c1, c2 = cell(g, "1"), cell(g, "2")
        ask(u, g, c2, "", False)
        for nm in NAMES:
            change(g, nm, how, fn, c1, "new")
        ask(u, g, c2, " after change", True)
        # again, the other way round
        change(g, "kx", "id" if how != "id" else "coords", fn, c2, "third")
        ask(u, g, c2, " after second change", True)
    return values


def mkone(how, fn, name):
    """one property changed, all five asked"""
    def one(u, flow, un):
        g = grid(flow, un)
        c1, c2 = cell(g, "1"), cell(g, "2")
        ask(u, g, c2, "", False)
        change(g, name, how, fn, c1, "new")
        ask(u, g, c2, " after change of " + name, True)
    return one


FLAGS = {"iso": (("is_isotropic", "is_anisotropic"), ("kx", "ky", "kz"), False), "hom": (("is_homogeneous", "is_heterogeneous"), ("phi",), True)}


def mkflags(which, how):
    (pos, neg), names, inner = FLAGS[which]

    def flags(u, flow, un):
        g = grid(flow, un, k="array" if how == "id" else "scalar")
        o = g.obj
        c1 = cell(g, "1")
        if how == "id":
            if inner and bool(inside(g, c1)):
                pass    # interior and boundary cells are told apart
            getattr(o, pos), getattr(o, neg)
            return after(u, g, c1)
        u.holds(f"{pos} when uniform", getattr(o, pos))
        u.holds(f"not {neg} when uniform", bnot(getattr(o, neg)))
        if how == "all":
            change(g, names[-1], how, "set_props", c1, "new")
            u.holds(f"{pos} after a uniform change", getattr(o, pos))
            u.holds(f"not {neg} after a uniform change", bnot(getattr(o, neg)))
            return
        after(u, g, c1)

    def after(u, g, c1):
        o = g.obj
        change(g, names[-1], how, "set_props", c1, "new")
        res = bool(getattr(o, pos))
        u.holds(f"{neg} = not {pos}", bool(getattr(o, neg)) is not res)
        uniform(u, g, names, inner, res, pos)
    return flags


def uniform(u, g, names, inner, res, pos):
    """res says whether each of the properties has one value in all cells"""
    if getattr(u, "concrete", False):
        import itertools
        rng = [range(1, int(g.n[a]) + 1) if inner and a in g.flow else range(int(g.N[a])) for a in "xyz"]
        return u.holds(f"{pos} iff all values are equal", res == all(len({g.p[nm](c) for c in itertools.product(*rng)}) == 1 for nm in names))
    if res:
        a, b = cell(g, "a", inner), cell(g, "b", inner)
        for nm in names:
            u.eq(f"{pos}: {nm} is equal in any two cells", g.p[nm](a), g.p[nm](b))
        return
    c, c0 = ncoords(g, cur().witness, not inner), ncoords(g, 0, not inner)
    r = True
    for nm in names:
        r = band(r, g.p[nm](c) == g.p[nm](c0))
    u.holds(f"not {pos}: two values differ", bnot(r))


def mkfactors(how, by):
    """geometry factors of a cell asked before and after a change"""
    def factors(u, flow, un):
        g = grid(flow, un)
        conv = g.obj.factors[CONV]
        modular(u, g, values=False)
        modular_dA(u, g)
        general(u, g)
        c1, c2 = cell(g, "1"), cell(g, "2", True)

        def get(b):
            return g.obj.get_cell_G(cid(g, c2), None, b) if by == "id" else g.obj.get_cell_G(coords=c2, boundary=b)
        get(False), get(True)
        for nm in ("kx", "ky", "kz"):
            change(g, nm, how, "set_props", c1, "new")
        for b in (False, True):
            G = get(b)
            for a in g.flow:
                for st in (-1, 1):
                    m = nxt(c2, a, st)
                    if valid(g, m) if b else inside(g, m):
                        u.eq(f"G({b}) after change", G[cid(g, m) if by == "id" else m], harmonic(g, a, c2, m, conv))
    return factors


def mkmatrix(sparse):
    def matrix(u, flow, un):
        g = grid(flow, un)
        conv = g.obj.factors[CONV]
        general(u, g)
        g.obj.get_cells_G(False, sparse)
        for nm in ("kx", "ky", "kz"):
            change(g, nm, "array", "set_props", None, "new")
        G = g.obj.get_cells_G(False, sparse)
        c1, c2 = cell(g, "1", True), cell(g, "2", True)

        def loc(c):
            t = [c[q] - (1 if a in g.flow else 0) for q, a in enumerate("xyz")]
            return t[0] + g.n["x"] * (t[1] + g.n["y"] * t[2])
        u.eq("G[a,b] after change", lambda: G[loc(c1), loc(c2)], lambda: factor(g, c1, c2, conv))
    return matrix


def general(u, g):
    """the branch of the formulas for non-uniform grids (the uniform one is proved in C04)"""
    if getattr(u, "concrete", False):
        return
    base = type(g.obj)
    g.obj.__class__ = type(base.__name__, (base,), dict(is_isotropic=False, is_anisotropic=True, is_regular=False, is_irregular=True))


def modular_dA(u, g):
    if getattr(u, "concrete", False):
        return
    from .stubs import where, area, size
    o = g.obj

    def value(spec):
        def f(dir, id=None, coords=None):
            if id is None and coords is None:
                raise ValueError("id or coords argument must be defined.")
            return spec(g, dir, where(g, id, coords))
        return f
    o.get_cell_d, o.get_cell_A = value(size), value(area)


def rejected(u, flow, un):
    g = grid(flow, un)
    c = cell(g)
    u.raises("unknown property", ValueError, lambda: g.obj.set_prop("permeability", 1))
    u.raises("unknown property by id", ValueError, lambda: g.obj.set_prop("KX", 1, id=cid(g, c)))
    u.raises("unknown property asked", ValueError, lambda: g.obj.get_prop("perm"))
    u.raises("no cell", ValueError, lambda: g.obj.get_cell_k("x"))
    u.raises("unknown direction", ValueError, lambda: g.obj.get_cells_k("w"))


def units():
    out = []
    cov = ("set_prop", "set_props", "get_prop", "get_cells_k", "get_cell_k")
    half = lambda b: CONFIGS if thorough() else [(f, (t % 2 == 0) == b) for t, f in enumerate(FLOWS)]
    for fn in ("set_prop", "set_props"):
        for how in ("all", "array", "id", "coords"):
            out += per_config(f"values({fn},{how})", mkvalues(how, fn), cov, half((fn == "set_prop") == (how in ("id", "all"))))
    for w in FLAGS:
        for how in ("all", "array", "id"):
            out += per_config(f"flags({w},{how})", mkflags(w, how), ("is_isotropic", "is_anisotropic", "is_homogeneous", "is_heterogeneous"), half(w == "iso") if how == "id" else CONFIGS)
    for how in ("array", "id", "coords") if thorough() else ("array", "id"):
        for by in ("id", "coords"):
            out += per_config(f"factors({how},by {by})", mkfactors(how, by), ("get_cell_G",),
                              CONFIGS if thorough() else [(f, un) for f, un in half(by == "id") if f != "xyz" or (how, by) == ("array", "id")])
    for sp in (True, False) if thorough() else (True,):
        out += per_config(f"matrix({'sparse' if sp else 'dense'})", mkmatrix(sp), ("get_cells_G",), half(True))
    out += per_config("rejected", rejected, ("set_prop", "get_prop"))
    return out
