"""C10: boundary conditions."""
from .sim import *
from .. import symstr
from .c08 import system
from .c13 import before, tag, add

ALIAS = {"p": ("pressure", "press", "p"), "q": ("rate", "q"), "g": ("gradient", "grad", "g")}


def initial(u, s, label="set"):
    """the arrays a solution starts from"""
    g, m = s.g, s.m
    c = cell(g, "9")
    P, Q = m.get_init_arrays()

    def arrays():
        want_p = s.pi if bool(inside(g, c)) else None
        want_q = 0
        for b in s.bound:
            if bool(cid(g, b.c) == cid(g, c)):
                if b.kind == "p":
                    want_p = b.v
                else:
                    want_q = s.bflux(b)[0] if b.n is not None else 0
        if want_p is None:
            want_p = fakes.NAN
        u.eq(f"{label}: initial pressures", P[0, cid(g, c)], want_p)
        u.eq(f"{label}: initial rates", Q[0, cid(g, c)], want_q)
    locally(arrays)


def mkname(kind, name, wells=()):
    def named(u, flow, un):
        """one condition under one of its names, in any letter case: what it does to the first system"""
        s = Sim(u, flow, un, (), (kind,), True, un, bnames=[symstr.name(u, name)])
        initial(u, s)
        A, d = s.s.get_matrices_vect()
        system(u, s, A, d, [], lambda c: s.pi, "first step")
    return named


def mklater(kind, name):
    def later(u, flow, un):
        """... and to the systems of later steps, and to the rates reported"""
        s = Sim(u, flow, un, (), (kind,), True, un, bnames=[symstr.name(u, name)])
        s.s.get_matrices_vect()
        p = advance(s, [])
        A, d = s.s.get_matrices_vect()
        system(u, s, A, d, [], p, "later step")
    return later


def reported(u, s, t, q, log, label):
    g, X = s.g, log[-1].X
    for b in s.bound:
        if b.n is None:
            u.eq(f"{label}: no interior neighbour, no rate", s.s.rates[t + 1, b.id], q(t, b.c))
            continue
        k, f = s.bflux(b)
        want = k + f * X[s.row(b.n)] if b.kind == "p" else k
        u.eq(f"{label}: rate of a boundary", s.s.rates[t + 1, b.id], want)
        if b.kind == "p":
            u.eq(f"{label}: pressure of a boundary", s.s.pressures[t + 1, b.id], b.v)
    if len(g.flow) == 1 and len(s.bound) > 1:
        return
    c = cell(g, "8", where=lambda c: ball([bnot(inside(g, c))] + [bnot(cid(g, b.c) == cid(g, c)) for b in s.bound]))
    u.eq(f"{label}: no condition, no rate", s.s.rates[t + 1, cid(g, c)], q(t, c))


def mkrate(kinds, names, sparse, later, vectorize, wells=(), ctl=()):
    def rate(u, flow, un):
        s = Sim(u, flow, un, wells, kinds, True, sparse, bnames=[symstr.name(u, n) for n in names])
        t, p, q = before(s, later, list(ctl))
        asm, log = assembly(s), solvers(s)
        s.s.solve(vectorize=vectorize, isolver=None, check_MB=False)
        reported(u, s, t, q, log, "after the step")
    return rate


def mktwice(k1, k2):
    def twice(u, flow, un):
        """a condition replaced by another one before the run: only the last counts"""
        s = Sim(u, flow, un, (), (k1,), True, un, compiled=False)
        b = s.bound[0]
        b.kind, b.v = k2, R.atom("BVnew", ())
        s.m.set_boundary(b.id, ALIAS[k2][0], b.v)
        s.compile()
        A, d = s.s.get_matrices_vect()
        system(u, s, A, d, [], lambda c: s.pi, "after a change")
    return twice


def mkdict(kinds):
    def several(u, flow, un):
        """set_boundaries: the same as setting each; conditions set before and not mentioned are gone"""
        first = ("p",) if len(kinds) < 2 else ()        # two boundary cells in one dimension
        s = Sim(u, flow, un, (), first + kinds, True, un, compiled=False)
        g = s.g
        m = blackoil(g, s.fl, dt=s.dt)
        if first:
            old, s.bound = s.bound[0], s.bound[1:]
            m.set_boundary(old.id, "pressure", old.v)
        bd = {} if concrete(u) else fakes.SDict()
        for b in s.bound:
            bd[b.id] = (symstr.name(u, ALIAS[b.kind][-1]), b.v)
        m.set_boundaries(bd)
        s.m = m
        s.compile()
        A, d = s.s.get_matrices_vect()
        system(u, s, A, d, [], lambda c: s.pi, "set_boundaries")
    return several


def mkreject(what):
    def reject(u, flow, un):
        s = Sim(u, flow, un, (), (), True, un)
        g, m = s.g, s.m
        b = cell(g, "b0", where=lambda c: bnot(inside(g, c)))
        for k in ALIAS:
            if what == "name":
                u.raises("unknown condition", ValueError, lambda: m.set_boundary(cid(g, b), symstr.unknown(u), R.atom("BV", ())))
            elif what == "interior":
                i = cell(g, "i0", True)
                u.raises("interior cell", (AssertionError, ValueError), lambda: m.set_boundary(cid(g, i), ALIAS[k][0], R.atom("BV", ())))
            elif what == "interior dict":
                i = cell(g, "i0", True)
                u.raises("interior cell", (AssertionError, ValueError), lambda: m.set_boundaries({cid(g, i): (ALIAS[k][0], R.atom("BV", ()))}))
            else:
                i = SInt.var("qout")
                cur().assume(i < 0 if what == "negative" else i >= total(g))
                u.raises("no cell", (AssertionError, ValueError), lambda: m.set_boundary(i, ALIAS[k][0], R.atom("BV", ())))
        initial(u, s, "rejected")
        if what != "interior dict":
            A, d = s.s.get_matrices_vect()
            system(u, s, A, d, [], lambda c: s.pi, "rejected")
    return reject


COV = ("set_boundary", "set_boundaries", "__update_bdict", "__calc_b_term", "__update_boundaries", "get_matrices_vect", "get_init_arrays")


def units():
    out = []
    for f, un in CONFIGS:
        for k in ALIAS:
            for nm in ALIAS[k]:
                if len(f) == 1:
                    add(out, f"name({f},{un},{nm})", mkname(k, nm), f, un, COV)
                    add(out, f"name later({f},{un},{nm})", mklater(k, nm), f, un, COV)
                elif len(f) == 2 and un and nm in ("p", "q", "g") and thorough():
                    add(out, f"name({f},{un},{nm})", mkname(k, nm), f, un, COV)
                for later in (False, True):
                    add(out, f"rate({f},{un},{nm},{later})", mkrate((k,), (nm,), un, later, not un), f, un, COV)
        for ks in (("p", "p"), ("p", "q"), ("g", "p"), ("q", "g")):
            if len(f) < 3 or thorough():
                add(out, f"rates({f},{un},{'+'.join(ks)})", mkrate(ks, [ALIAS[k][0] for k in ks], un, True, un), f, un, COV)
        for what in ("name", "interior", "interior dict", "negative", "too large"):
            if len(f) == 1 or thorough():
                add(out, f"reject({f},{un},{what})", mkreject(what), f, un, COV)
        if len(f) == 1:
            for k1 in ALIAS:
                for k2 in ALIAS:
                    add(out, f"twice({f},{un},{k1},{k2})", mktwice(k1, k2), f, un, COV)
            for ks in ((), ("p",), ("q",), ("g",), ("p", "q"), ("g", "p")):
                if un or len(ks) < 2:
                    add(out, f"set_boundaries({f},{un},{'+'.join(ks)})", mkdict(ks), f, un, COV)
    for f, un in WCONF[:3]:
        for ctl in ("q", "p"):
            add(out, f"rate with a well({f},{un},{ctl})", mkrate(("p",), ("pressure",), un, True, True, ("qp",), (ctl,)), f, un, COV)
    return out
