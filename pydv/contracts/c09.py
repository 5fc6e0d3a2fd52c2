"""C09: the symbolic equations and the assembly made from them."""
from .sim import *
from .c08 import controls
from .c13 import add, tag


def sympy():
    return load.load().solutions.numerical.fdm.sym


def symbol(g, c):
    return sympy().Symbol(f"p{cid(g, c)}")


def equation(u, s, c, eq, ctl, p_old, label):
    """the equation is the mass conservation of cell c, up to a non-zero factor"""
    g = s.g
    lhs, rhs = eq
    u.eq(f"{label}: constants on the right", any(str(k) == "1" for k in lhs.keys()), False)
    rhs = number(rhs)
    s.faces(c)
    diag = lhs[symbol(g, c)]
    want = s.entry(c, c, ctl)
    u.eq(f"{label}: non-zero factor", bool(diag * want > 0) or bool(diag * want < 0), True)
    u.eq(f"{label}: right-hand side", rhs * want, s.const(c, ctl, p_old) * diag)
    j = cell(g, "2", True)

    def coefficient():
        u.eq(f"{label}: coefficients", lhs[symbol(g, j)] * want, s.entry(c, j, ctl) * diag)
    locally(coefficient)


def number(x):
    """value of a sympy expression without symbols"""
    d = x.as_coefficients_dict()
    return d[1]


def mkcelleq(wells, bounds, comp, hist, c0, c1):
    def celleq(u, flow, un):
        """hist: first step; later (after an equation of the first step); fresh (first built at a later step)"""
        s = Sim(u, flow, un, wells, bounds, comp, un)
        g = s.g
        c = cell(g, "1", True)
        id = cid(g, c)
        for w, k in zip(s.well, c0):
            control(s, w, k)
        if hist != "fresh":
            eq = s.s.get_cell_eq(id)
            if hist == "first":
                equation(u, s, c, eq, c0, lambda c: s.pi, "first step")
                return
        p = advance(s, c1)
        equation(u, s, c, s.s.get_cell_eq(id), c1, p, "later step")
    return celleq


def equations(s):
    """contract of get_cell_eq: some equation of the cell and its neighbours, for the state at the call"""
    g, log = s.g, []

    def get_cell_eq(cell_id):
        sym = sympy()
        c = where(g, cell_id, None)
        t = s.s.tstep
        log.append((cell_id, t))
        lhs = 0
        for c2 in [c] + [n for _, n in s.faces(c)]:
            lhs = lhs + coef(s, t, c, c2) * symbol(g, c2)
        return lhs.as_coefficients_dict(), sym.Integer(0) + const(s, t, c)
    s.s.get_cell_eq = get_cell_eq
    return log


def coef(s, t, c, c2):
    return R.atom("L", (t,) + fl(s, c) + fl(s, c2), True)


def const(s, t, c):
    return R.atom("C", (t,) + fl(s, c))


def fl(s, c):
    return tuple(x for x, a in zip(c, "xyz") if a in s.g.flow)


def mkassembly(wells, bounds, sizes, later, threading, sparse):
    def assembly(u, flow, un):
        """the system has the equation of every cell in its row (these numbers of cells)"""
        s = Sim(u, flow, un, wells, bounds, True, sparse, sizes=sizes)
        g = s.g
        log = equations(s)
        A, d = s.s.get_matrices_symb(threading)
        if later:
            advance(s, s.start())
            A, d = s.s.get_matrices_symb(threading)
        t = s.s.tstep
        n = total(g, False)
        u.eq("shape", (tuple(A.shape), tuple(d.shape)), ((n, n), (n, 1)))
        cells = [ncoords(g, i, False) for i in range(n)]
        for i, c in enumerate(cells):
            u.eq("right-hand side", d[i, 0], const(s, t, c))
            near = [c] + [m for _, m in s.faces(c)]
            for j, c2 in enumerate(cells):
                u.eq("matrix", A[i, j], coef(s, t, c, c2) if c2 in near else 0)
    return assembly


COV = ("get_cell_eq", "__calc_n_term", "__calc_b_term", "__calc_w_term", "__calc_a_term", "__simplify_eq", "get_cell_trans")


def units():
    out = []
    for f, sizes in (("x", (2, 1, 1)), ("x", (3, 1, 1)), ("y", (1, 3, 1)), ("xy", (2, 2, 1)), ("xyz", (2, 2, 2)), ("x", (6, 1, 1)), ("xz", (3, 1, 2)), ("yz", (1, 2, 3)), ("z", (1, 1, 4)), ("xyz", (3, 2, 3))):
        for un in (True, False):
            for later in (False, True):
                for th in (False, True):
                    for sp in (False, True):
                        add(out, f"assembly{sizes}({f},{'unify' if un else 'flat'},{'later' if later else 'first'},{'threads' if th else 'plain'},{'sparse' if sp else 'dense'})", mkassembly((), (), sizes, later, th, sp), f, un, COV[:0] + ("get_cells_eq", "get_matrices_symb", "__update_matrices_symb"))
    for f, un in CONFIGS:
        for w in ((), ("qp",), ("p",), ("q",)):
            if w and (f, un) not in WCONF:
                continue
            for b in ((), ("p",), ("q",), ("g",)):
                if w and b and len(f) > 1:
                    continue
                for comp in (True, False):
                    if (w or b) and len(f) > 1 and comp != un:
                        continue
                    for c0 in controls(w):
                        for h in ("first", "later", "fresh"):
                            for c1 in controls(w) if h != "first" else [[]]:
                                if h == "fresh" and comp != un and not thorough():
                                    continue
                                if len(f) > 1 and not thorough():
                                    if b and (f, b, h) not in (("xy", ("p",), "later"), ("xz", ("q",), "later"), ("yz", ("g",), "later")):
                                        continue
                                    if w and (f != "xy" or h != "later" or len(w[0]) > 1 and c0 == c1):
                                        continue
                                    if len(f) > 2 and h == "fresh":
                                        continue
                                if len(f) > 1 and h == "fresh" and c0 != c1:
                                    continue
                                then = f" then {'+'.join(c1)}" if h != "first" else ""
                                add(out, f"{h}({f},{'unify' if un else 'flat'},wells={'+'.join(w)},boundaries={'+'.join(b)},{comp},{'+'.join(c0)}{then})", mkcelleq(w, b, comp, h, c0, c1), f, un, COV)
    return out
