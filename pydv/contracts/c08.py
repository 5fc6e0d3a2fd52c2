"""C08: the vectorized assembly."""
from .sim import *


def system(u, s, A, d, ctl, p_old, label):
    g = s.g
    n = total(g, False)
    u.eq(f"{label}: shape", (tuple(A.shape), tuple(d.shape)), ((n, n), (n, 1)))
    c, j = cell(g, "1", True), cell(g, "2", True)

    def rhs():
        s.faces(c)
        u.eq(f"{label}: right-hand side", lambda: d[s.row(c), 0], lambda: s.const(c, ctl, p_old))

    def matrix():
        s.faces(c)
        want = s.entry(c, j, ctl)
        u.eq(f"{label}: matrix", lambda: A[s.row(c), s.row(j)], want)
    locally(rhs)
    locally(matrix)


def controls(wells):
    r = [[]]
    for k in wells:
        r = [x + [y] for x in r for y in (("q", "p") if k == "qp" else (k,))]
    return r


def mkfirst(wells, bounds, comp, sparse):
    def first(u, flow, un):
        s = Sim(u, flow, un, wells, bounds, comp, sparse)
        A, d = s.s.get_matrices_vect()
        system(u, s, A, d, s.start(), lambda c: s.pi, "first step")
    return first


def mklater(wells, bounds, comp, sparse, c0, c1):
    def later(u, flow, un):
        """any later step, after an assembly under controls c0"""
        s = Sim(u, flow, un, wells, bounds, comp, sparse)
        for w, k in zip(s.well, c0):
            control(s, w, k)
        s.s.get_matrices_vect()
        p = advance(s, c1)
        A, d = s.s.get_matrices_vect()
        system(u, s, A, d, c1, p, "later step")
    return later


COV = ("get_matrices_vect", "__init_A", "__init_d", "__update_z", "__calc_b_term", "__calc_w_term", "get_cells_trans")
W1 = [(), ("q",), ("p",), ("qp",)]
B1 = [(), ("p",), ("q",), ("g",)]
SINGLE = [(w, b) for w in W1 for b in B1 if not w or not b]
MULTI = [(("qp", "p"), ()), (("q", "qp"), ()), ((), ("p", "p")), ((), ("p", "q")), ((), ("g", "q")), (("qp",), ("p",)), (("q",), ("g",))]


def plan():
    """(flow, unify, wells, boundaries, compressible, sparse)"""
    out = []
    for w, b in SINGLE + MULTI:
        for un in (True, False):
            for comp, sp in ((True, False), (True, True), (False, un)) if (w, b) in SINGLE else ((True, un),):
                out.append(("x", un, w, b, comp, sp))
    for f, un, sp in (("y", False, True), ("z", True, False)):
        for b in B1:
            out.append((f, un, (), b, True, sp))
    for f, w, b, comp, sp in (("xy", ("qp",), (), True, True), ("xy", (), ("q",), True, False), ("xy", (), ("g",), True, True),
                              ("xz", (), ("p",), True, True), ("yz", (), ("p",), False, False), ("yz", (), ("g",), True, True),
                              ("xyz", (), (), True, False), ("xyz", (), (), False, True)):
        out.append((f, f != "yz", w, b, comp, sp))
    if thorough():
        for f in ("xy", "xz", "yz", "xyz"):
            for w, b in SINGLE + (MULTI if f == "xy" else []):
                if w and f not in ("xy", "xyz"):
                    continue
                for un in (True, False):
                    for comp, sp in ((True, un), (False, not un)):
                        out.append((f, un, w, b, comp, sp))
    return list(dict.fromkeys(out))


def units():
    out = []
    for f, un, w, b, comp, sp in plan():
        tag = f"{f},{'unify' if un else 'flat'},wells={'+'.join(w)},boundaries={'+'.join(b)},{'compressible' if comp else 'incompressible'},{'sparse' if sp else 'dense'}"
        out.append(Unit(f"first({tag})", (lambda fn, f, un: lambda u: fn(u, f, un))(mkfirst(w, b, comp, sp), f, un), COV))
        if len(f) > 1 and not thorough() and not (f == "xy" and not b and not w):
            continue
        for c0 in controls(w):
            for c1 in controls(w):
                if len(w) > 1 and c0 == c1 and not thorough():
                    continue
                out.append(Unit(f"later({tag},{'+'.join(c0)} then {'+'.join(c1)})", (lambda fn, f, un: lambda u: fn(u, f, un))(mklater(w, b, comp, sp, c0, c1), f, un), COV))
    return out
