"""C14: models and solutions that share objects do not influence each other.

Frame contracts: every operation of a model leaves the grid, the fluid, the arrays
handed out before and every other model as they were; every operation of a solution
leaves the results of the other solutions of its model as they were. Any
interleaving is a sequence of such operations."""
from .sim import *
from .. import symstr
from .c08 import system
from .c09 import equation, equations
from .c10 import initial
from .c13 import before, add

ATTRS = ("kx", "ky", "kz", "phi", "z", "dx", "dy", "dz", "Ax", "Ay", "Az", "V", "cells_id")
PLAIN = ("nx", "ny", "nz", "comp", "comp_type", "unit", "unify", "dtype", "mu", "B", "rho", "g")
FULL = [("get_zeros", True, False, False), ("get_zeros", False, False, False), ("get_zeros", True, True, False), ("get_ones", True, False, False), ("get_ones", False, False, False),
        ("get_order", "natural", True, False), ("get_order", "natural", False, False), ("get_cells_i", True), ("get_cells_i", False), ("get_cells_id", True, False, "array"),
        ("get_cells_id", False, False, "array"), ("get_cells_id", False, True, "array"), ("get_cells_coords", True, False, "array"), ("get_cells_V", True, False, False), ("get_cells_V", False, False, False)]
SHORT = [q for q in FULL if q[0] in ("get_zeros", "get_ones", "get_cells_i") and True not in q[2:]] + [("get_cells_V", False, False, False)]


def isarray(v):
    return hasattr(v, "shape") and len(v.shape) > 0


class Shared:
    """what the grid and the fluid of a model are before it is made"""

    def __init__(self, u, s, queries):
        self.u, self.s, self.queries = u, s, queries
        o = s.g.obj
        self.arrays, self.plain = [], []
        for nm in ATTRS:
            v = getattr(o, nm, None)
            if isarray(v):
                self.arrays.append((f"grid.{nm}", (lambda nm: lambda: getattr(o, nm))(nm), v, v.copy()))
            else:
                self.plain.append((f"grid.{nm}", (lambda nm: lambda: getattr(o, nm, None))(nm), v))
        for q in queries:
            ask = (lambda q: lambda: getattr(o, q[0])(*q[1:]))(q)
            v = ask()
            if isarray(v):
                self.arrays.append((f"{q[0]}{q[1:]}", ask, v, v.copy()))
            else:
                self.plain.append((f"{q[0]}{q[1:]}", ask, v))
        for x, nm in ((o, "grid"), (s.fl, "fluid")):
            for a in PLAIN:
                if hasattr(x, a):
                    self.plain.append((f"{nm}.{a}", (lambda x, a: lambda: getattr(x, a))(x, a), getattr(x, a)))
            for a in ("units", "factors"):
                for k in sorted(getattr(x, a)):
                    self.plain.append((f"{nm}.{a}[{k}]", (lambda x, a, k: lambda: getattr(x, a)[k])(x, a, k), getattr(x, a)[k]))

    def handed(self, what, v):
        """an array handed out by a model"""
        self.arrays.append((what, lambda: v, v, v.copy()))

    def same(self, label):
        u = self.u
        for nm, ask, old, keep in self.arrays:
            now = ask()
            u.eq(f"{label}: {nm} is an array", isarray(now), True)
            same_values(u, f"{label}: {nm} unchanged", now, keep)
            if now is not old:
                same_values(u, f"{label}: {nm} handed out before unchanged", old, keep)
        for nm, ask, old in self.plain:
            u.eq(f"{label}: {nm} unchanged", ask(), old)
        g = self.s.g
        c = cell(g, "8")
        u.holds(f"{label}: boundaries", core.SBool(core.bz(fakes.h_in(cid(g, c), g.obj.get_boundaries("id", "set"))) == core.bz(bnot(inside(g, c)))))


def same_values(u, label, now, keep):
    u.same_array(label, now, tuple(keep.shape), lambda *i: ndarr.at(keep, *i))


class Owned:
    """the state a model and its solutions own"""

    def __init__(self, u, s, label):
        self.u, self.s, self.label = u, s, label
        m = s.m
        self.arrays = [(nm, v, v.copy()) for nm, v in self.values()]
        self.wells = {w.id: dict(m.wells[w.id].items()) for w in s.well}
        self.hist = {w.id: list(m.w_pressures[w.id]) for w in s.well}
        self.bounds = [(b.id, m.bdict[b.id]) for b in s.bound]
        self.counts = self.counters()

    def counters(self):
        m = self.s.m
        return [len(m.wells), len(m.bdict), m.dt, m.comp, m.comp_type, m.solution is getattr(self.s, "s", m.solution)] + [(x.tstep, x.nsteps) for x in self.solutions()]

    def solutions(self):
        return [self.s.s] if hasattr(self.s, "s") else []

    def values(self):
        m = self.s.m
        P, Q = m.get_init_arrays()
        out = [("initial pressures", P), ("initial rates", Q)]
        if isarray(m.RHS):
            out.append(("RHS", m.RHS))
        for x in self.solutions():
            out += [("pressures", x.pressures), ("rates", x.rates)]
        return out

    def same(self, label):
        u, s, m = self.u, self.s, self.s.m
        label = f"{label}: {self.label}"
        for (nm, v, keep), (_, now) in zip(self.arrays, self.values()):
            same_values(u, f"{label}: {nm} unchanged", now, keep)
        u.eq(f"{label}: counters", self.counters(), self.counts)
        for w in s.well:
            d = dict(m.wells[w.id].items())
            u.eq(f"{label}: well", (sorted(d), [d.get(k) for k in sorted(self.wells[w.id])]), (sorted(self.wells[w.id]), [self.wells[w.id][k] for k in sorted(self.wells[w.id])]))
            u.eq(f"{label}: well history", list(m.w_pressures[w.id]), self.hist[w.id])
        for b, v in self.bounds:
            u.eq(f"{label}: condition", tuple(m.bdict[b]), tuple(v))


def mkalone(wells, bounds, sparse, comp, queries):
    def alone(u, flow, un):
        """creating, compiling, assembling, solving"""
        sh = []
        s = Sim(u, flow, un, wells, bounds, comp, sparse, hook=lambda s: sh.append(Shared(u, s, queries)))
        sh = sh[0]
        P, Q = s.m.get_init_arrays()
        sh.handed("init pressures", P)
        sh.handed("init rates", Q)
        sh.same("created and compiled")
        sh.handed("T", s.m.get_cells_trans(False, False, True))
        s.s.get_matrices_vect()
        sh.same("assembled")
    return alone


def mkequation(wells, bounds, later, ctl):
    def eqn(u, flow, un):
        """the equation of any cell"""
        sh = []
        s = Sim(u, flow, un, wells, bounds, True, un, hook=lambda s: sh.append(Shared(u, s, SHORT)))
        if later:
            before(s, later, ctl)
        o = Owned(u, s, "arrays")
        c = cell(s.g, "1", True)

        def one():
            s.s.get_cell_eq(cid(s.g, c))
            sh[0].same("equation of a cell")
            o.same("equation of a cell")
        locally(one)
    return eqn


def mksolve(wells, bounds, sparse, later, ctl, vectorize, iso):
    def solve(u, flow, un):
        """a step, from any state"""
        sh = []
        s = Sim(u, flow, un, wells, bounds, True, sparse, hook=lambda s: sh.append(Shared(u, s, SHORT)))
        sh = sh[0]
        P, Q = s.m.get_init_arrays()
        sh.handed("init pressures", P)
        sh.handed("init rates", Q)
        before(s, later, ctl)
        assembly(s), solvers(s)
        s.s.solve(vectorize=vectorize, isolver=iso, check_MB=True)
        sh.same("step")
        u.eq("the model still uses them", (s.m.grid is s.g.obj, s.m.fluid is s.fl), (True, True))
    return solve


def mktwo(w1, b1, w2, b2, later, ctl1, ctl2, op):
    def two(u, flow, un):
        """an operation of one model, while another one is in any state"""
        s1 = Sim(u, flow, un, w1, b1, True, True, name="a")
        s2 = Sim(u, flow, un, w2, b2, True, True, base=s1, name="b")
        if later:
            for s, ctl in ((s1, ctl1), (s2, ctl2)):
                advance(s, ctl, s.nm)
        o = Owned(u, s2, "the other model")
        act(u, s1, op)
        o.same(op)
    return two


def act(u, s, op):
    g, m = s.g, s.m
    if op == "step":
        assembly(s), solvers(s)
        s.s.solve(vectorize=True, isolver="cgs", check_MB=False)
    elif op == "assemble":
        s.s.get_matrices_vect()
    elif op == "equation":
        c = cell(g, "1", True)
        s.s.get_cell_eq(cid(g, c))
    elif op == "well":
        c = cell(g, "5", True)
        m.set_well(cell_id=cid(g, c), q=R.atom("QN", ()), pwf=R.atom("PN", ()), r=R.atom("RN", (), True), s=R.atom("SN", ()))
    elif op == "boundary":
        c = cell(g, "5", where=lambda c: bnot(inside(g, c)))
        m.set_boundary(cid(g, c), "pressure", R.atom("VN", ()))
    elif op == "gradient":
        c = cell(g, "5", where=lambda c: bnot(inside(g, c)))
        m.set_boundary(cid(g, c), "gradient", R.atom("VN", ()))
    elif op == "compile":
        m.compile("numerical", "fdm", False)
    elif op == "arrays":
        P, Q = m.get_init_arrays()
        T = m.get_cells_trans(False, False, True)
        c = cell(g, "5", True)
        for a in (P, Q):
            a[0, cid(g, c)] = R.atom("NEW", ())
        T[s.row(c), s.row(c)] = R.atom("NEW", ())
    else:
        raise KeyError(op)


def mkfresh(w1, b1, w2, b2, ctl1, comp, what):
    def fresh(u, flow, un):
        """a model made on a grid and fluid that another model has used starts as if alone"""
        s1 = Sim(u, flow, un, w1, b1, comp, un, name="a")
        s1.s.get_matrices_vect()
        advance(s1, ctl1, "a")
        act(u, s1, what)
        s2 = Sim(u, flow, un, w2, b2, comp, un, base=s1, name="b")
        if what == "arrays":
            initial(u, s2)
            if len(flow) > 1 and not thorough():
                return
        A, d = s2.s.get_matrices_vect()
        system(u, s2, A, d, s2.start(), lambda c: s2.pi, "second model")
    return fresh


# ---- solutions of one model
METHODS = {"numerical": {"FDM": ("fdm", "finite difference method", "finite-difference-method")},
           "analytical": {"D1P1": ("d1p1", "1d1p", "1-dimension-1-phase", "1dimension1phase")}}
STYPES = {"numerical": ("n", "num", "numerical"), "analytical": ("a", "ana", "analytical")}
MISSING = {"numerical": ("fvm", "fem"), "analytical": ("d1p2", "d3p3"), "neurical": ("pinn", "deeponet")}


def picks(s):
    m = s.m
    return [m.solution, m.compiler] + [m.solutions[k] for k in m.solutions] + [m.compilers[k] for k in m.compilers]


def sameobjs(u, label, a, b):
    u.eq(label, len(a) == len(b) and all(x is y for x, y in zip(a, b)), True)


def current(u, m, name, obj, comp, label):
    u.eq(f"{label}: is current", (m.solution is obj, m.compiler is comp, m.solutions[name] is obj, m.compilers[name] is comp, str(m.compiler)), (True, True, True, True, name))
    u.eq(f"{label}: solve and run are its own", (m.solve == obj.solve, m.run == obj.run), (True, True))


def model1(u, flow, un, **k):
    return Sim(u, flow, un, (), ("p",), True, True, compiled=False, **k)


def names(u, flow, un):
    """any earlier entries, then each solution under each of its names"""
    for st in STYPES:
        for meth in METHODS[st]:
            known = {}
            for sparse in (True, False):
                for a in STYPES[st]:
                    for b in METHODS[st][meth]:
                        s = model1(u, flow, un) if not known else s0
                        if not known:
                            s0 = s
                            old, oldc = object(), object()
                            s.m.solutions["earlier"] = old
                            s.m.compilers["earlier"] = oldc
                        m = s.m
                        keys, had = list(m.get_solutions()), {k: (m.solutions[k], m.compilers[k]) for k in m.get_solutions()}
                        m.compile(symstr.name(u, a), symstr.name(u, b), sparse)
                        new = [k for k in m.get_solutions() if k not in keys]
                        if (st, meth, sparse) in known:
                            name = known[st, meth, sparse]
                            u.eq("compiled again: no further name", new, [])
                        else:
                            u.eq("compile adds one name", len(new), 1)
                            name = known[st, meth, sparse] = new[0]
                        u.eq("no name is lost", all(k in m.get_solutions() for k in keys), True)
                        for k, (x, y) in had.items():
                            if k != name:
                                u.eq("other solutions stay", (m.solutions[k] is x, m.compilers[k] is y), (True, True))
                        current(u, m, name, m.solution, m.compiler, "compiled")
                        u.eq("a solution of its own", all(m.solution is not x for x, _ in had.values()), True)
                        u.eq("of the class and options asked for", (type(m.solution).__name__, m.solution.sparse, m.solution.model is m, m.solution.tstep, m.solution.nsteps), (meth, sparse, True, 0, 1))


def select(u, flow, un):
    s = model1(u, flow, un)
    m = s.m
    ks = [(st, meth, sp) for st in METHODS for meth in METHODS[st] for sp in (True, False)]
    objs = {}
    for k in ks:
        before = set(m.get_solutions())
        m.compile(*k)
        (n,) = [x for x in m.get_solutions() if x not in before]
        objs[n] = (m.solution, m.compiler)
    u.eq("as many as compiled", (len(m.get_solutions()), sorted(m.get_solutions())), (len(ks), sorted(objs)))
    for a in objs:
        for b in objs:
            m.set_solution(a)
            m.set_solution(b)
            current(u, m, b, *objs[b], "selected")
    for n, (x, c) in objs.items():
        u.eq("all are kept", (m.solutions[n] is x, m.compilers[n] is c), (True, True))
    was, p = list(m.get_solutions()), picks(s)
    for bad in ("unknown", ""):
        u.raises("unknown name", ValueError, lambda: m.set_solution(bad))
        sameobjs(u, "unknown name changes nothing", picks(s), p)
    for st in MISSING:
        for meth in MISSING[st]:
            try:
                m.compile(st, meth, True)
                ok = True
            except Exception:
                ok = False
            if not ok:
                sameobjs(u, "failed compile changes nothing", picks(s), p)
    for args in (("numerical", "unknown", True), ("unknown", "fdm", True), ("numerical", "fdm", 1), ("numerical", "d1p1", True)):
        u.raises("bad names", ValueError, lambda: m.compile(*args))
        sameobjs(u, "bad names change nothing", picks(s), p)


def second(u, s, kind, sparse):
    """a further solution of the model of s: (solution, name)"""
    had = list(s.m.get_solutions())
    s.m.compile(*kind, sparse)
    (n,) = [x for x in s.m.get_solutions() if x not in had]
    return s.m.solution, n


def mkruns(wells, bounds, ctl, later, op):
    def runs(u, flow, un):
        """a step (or an assembly) of one solution while another one of the same model is in any state"""
        s = Sim(u, flow, un, wells, bounds, True, True)
        (first,) = s.m.get_solutions()
        A = s.s
        if later:
            advance(s, ctl, "a")
        B, _ = second(u, s, ("numerical", "fdm"), False)
        o = Results(u, s, A)
        s.s, s.sparse = B, False
        if later:
            advance(s, ctl, "b")
        if op == "step":
            assembly(s), solvers(s)
            s.m.solve(vectorize=True, isolver=None, check_MB=False)
        else:
            act(u, s, op)
        o.same("the other solution")
        s.m.set_solution(first)
        u.eq("selected again", (s.m.solution is A, s.m.get_shape(True)), (True, (A.nsteps, total(s.g))))
        o.same("after selecting it")
    return runs


class Results:
    """stored results of a solution"""

    def __init__(self, u, s, x):
        self.u, self.s, self.x = u, s, x
        self.keep = [(v, v.copy()) for v in (x.pressures, x.rates)]
        self.counts = (x.tstep, x.nsteps, x.sparse)

    def same(self, label):
        for nm, v, (old, keep) in zip(("pressures", "rates"), (self.x.pressures, self.x.rates), self.keep):
            same_values(self.u, f"{label}: {nm} unchanged", v, keep)
        self.u.eq(f"{label}: counters unchanged", (self.x.tstep, self.x.nsteps, self.x.sparse), self.counts)


def mkafter(wells, bounds, ctl, what):
    def after(u, flow, un):
        """a solution compiled after another one has run starts as if alone"""
        s = Sim(u, flow, un, wells, bounds, True, True)
        g = s.g
        c = cell(g, "1", True)
        first = s.s

        def one():
            s.s, s.sparse = first, True
            if what == "system":
                s.s.get_matrices_vect()
            elif what == "equation":
                s.s.get_cell_eq(cid(g, c))
            advance(s, ctl, "a")
            assembly(s), solvers(s)
            if what == "arrays":
                s.s.solve(vectorize=True, isolver=None, check_MB=False)
            if [("q" if s.m.wells[w.id]["constrain"] == "q" else "p") for w in s.well] != s.start():
                return      # held at its limit: the known finding
            s.s, _ = second(u, s, ("numerical", "fdm"), False)
            s.sparse = False
            if what == "arrays":
                u.eq("starts at the initial level", (s.s.tstep, s.s.nsteps, s.m.get_shape(True)), (0, 1, (1, total(g))))
                e = cell(g, "7")
                P, Q = s.m.get_init_arrays()
                locally(lambda: u.eq("starts from the initial arrays", lambda: (s.s.pressures[0, cid(g, e)], s.s.rates[0, cid(g, e)]), lambda: (P[0, cid(g, e)], Q[0, cid(g, e)])))
                initial(u, s, "after")
            elif what == "system":
                A, d = s.s.get_matrices_vect()
                system(u, s, A, d, s.start(), lambda c: s.pi, "second solution")
            else:
                equation(u, s, c, s.s.get_cell_eq(cid(g, c)), s.start(), lambda c: s.pi, "second solution: equation")
        locally(one)
    return after


COV = ("__initialize__", "__get_arrays", "get_init_arrays", "compile", "set_solution", "get_solutions", "__add_solution")


def tag(*a):
    return ",".join("+".join(x) if isinstance(x, (tuple, list)) else ("later" if x else "first") if isinstance(x, bool) else str(x) for x in a)


def units():
    out = []
    for f, un in WCONF:
        tag = (lambda f, un: lambda *a: globals()["tag"](f, "unify" if un else "flat", *a))(f, un)
        for w, b in (((), ("p",)), (("qp",), ("q",)), (("p",), ("g",))):
            if f in ("xy", "xyz") and (f == "xyz" or w == ("p",)) and not thorough():
                continue
            add(out, f"alone({tag(w, b)})", mkalone(w, b, un, True, FULL if b == ("p",) else SHORT), f, un, COV)
        for w, ctl, b in (((), [], ("p",)), (("qp",), ["q"], ()), (("p",), ["p"], ())):
            if f == "xyz" and not thorough():
                continue
            add(out, f"equation({tag(w, ctl, b, True)})", mkequation(w, b, True, ctl), f, un, COV)
        for w, ctl in (((), []), (("qp",), ["q"]), (("qp",), ["p"])):
            for later in (False, True):
                if ctl == ["p"] and not later:
                    continue
                add(out, f"step({tag(w, ctl, later)})", mksolve(w, ("p",) if f in ("x", "xy") else (), un, later, ctl, True, "cgs" if un else None), f, un, COV)
        for op in ("step", "assemble", "equation", "well", "boundary", "gradient", "compile", "arrays"):
            for later in (False, True):
                if f == "xyz" and op == "equation" and not thorough():
                    continue
                if (op in ("well", "boundary", "gradient") and later) or (f in ("xy", "xyz") and not later and op not in ("well", "boundary", "gradient")):
                    continue
                b1, b2 = (("p",), ("q",)) if f == "x" else ((), ("p",))
                add(out, f"two models({tag(op, later)})", mktwo(("qp",), b1, ("qp",), b2, later, ["q"], ["q"], op), f, un, COV)
        for what in ("arrays", "step") if f == "x" or thorough() else ("arrays",):
            add(out, f"second model({tag(what, 'wells')})", mkfresh(("qp",), ("p",) if f == "x" else (), ("p",), (), ["p"], True, what), f, un, COV)
            add(out, f"second model({tag(what, 'bounds')})", mkfresh((), ("p",) if f == "x" else ("g",), (), ("g",) if f == "x" else (), [], True, what), f, un, COV)
        for op in ("step", "assemble", "equation") if f != "xyz" or thorough() else ("step",):
            for w, ctl, b in ((("qp",), ["q"], ()), (("qp",), ["p"], ()), ((), [], ("p",)), ((), [], ("q",))):
                for later in (False, True):
                    if ctl == ["p"] and not later:
                        continue
                    if f == "xyz" and not later:
                        continue
                    add(out, f"two solutions({tag(op, w, ctl, b, later)})", mkruns(w, b, ctl, later, op), f, un, COV)
        for w, ctl, b in ((("p",), ["p"], ()), (("q",), ["q"], ()), ((), [], ("p",)), ((), [], ("q",)), ((), [], ("g",))):
            for what in ("arrays", "system", "equation") if f == "x" or thorough() else ("arrays", "equation") if f == "xy" else ("arrays",):
                add(out, f"solution after another({tag(what, w, b)})", mkafter(w, b, ctl, what), f, un, COV)
    for un in (True, False):
        out += per_config("names", names, COV, [("x", un)])
        out += per_config("select", select, COV, [("x", un)])
    return out
