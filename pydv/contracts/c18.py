"""C18: the requested method and solver are used."""
from .sim import *
from .. import symstr
from .c13 import before, history, tag, add, mkfail

STYPES = {"numerical": ["n", "num", "numerical"], "analytical": ["a", "ana", "analytical"], "neurical": ["nn", "neu", "neurical"]}
METHODS = {
    "numerical": {"FDM": ["fdm", "finite difference method", "finite-difference-method"], "FVM": ["fvm", "finite volume method", "finite-volume-method"], "FEM": ["fem", "finite element method", "finite-element-method"]},
    "analytical": {f"D{d}P{p}": [f"d{d}p{p}", f"{d}d{p}p", f"{d}-dimension-{p}-phase", f"{d}dimension{p}phase"] for d in (1, 2, 3) for p in (1, 2, 3)},
    "neurical": {"PINN": ["pinn", "physics informed neural network", "physics-informed-neural-network"], "DeepONet": ["deeponet", "deep operator network", "deep-operator-network"]},
}


class Probe:
    """stands for a solution class: says which one was asked for"""

    def __init__(self, name):
        self.name = name

    def __call__(self, model, sparse=True, **kw):
        r = G()
        r.of, r.model, r.sparse, r.name = self.name, model, sparse, self.name
        r.solve = r.run = lambda *a, **k: None
        return r


class probes:
    def __enter__(self):
        import importlib
        rf = load.load()
        self.old = []
        for st in METHODS:
            for m in METHODS[st]:
                mod = load.module(f"reservoirflow.solutions.{st}.{m.lower()}") if hasattr(load, "module") else importlib.import_module(f"reservoirflow.solutions.{st}.{m.lower()}")
                self.old.append((mod, m, getattr(mod, m)))
                setattr(mod, m, Probe(m))

    def __exit__(self, *a):
        for mod, m, c in self.old:
            setattr(mod, m, c)


def model(u):
    g = grid("x", True)
    return blackoil(g, fluid())


def mknames(st, m):
    def names(u):
        with probes():
            for sn in STYPES[st]:
                for mn in METHODS[st][m]:
                    for sp in (True, False):
                        o = model(u)
                        o.compile(symstr.name(u, sn), symstr.name(u, mn), sp)
                        s = o.solution
                        u.eq("method", (s.of, s.sparse, s.model is o), (m, sp, True))
                        u.eq("type", (o.compiler.stype, o.compiler.method), (st, m))
                        u.eq("registered", [o.solutions[k] is s for k in o.get_solutions()], [True])
    return names


def mkunknown(st):
    def unknown(u):
        with probes():
            for sn in STYPES[st]:
                o = model(u)
                u.raises("unknown method", ValueError, lambda: o.compile(symstr.name(u, sn), symstr.unknown(u)))
                for other in METHODS:
                    if other == st:
                        continue
                    for m in METHODS[other]:
                        for mn in METHODS[other][m]:
                            u.raises("method of another type", ValueError, lambda: o.compile(symstr.name(u, sn), symstr.name(u, mn)))
                u.eq("nothing compiled", (o.solution, len(o.get_solutions())), (None, 0))
            for m in METHODS[st]:
                o = model(u)
                u.raises("unknown type", ValueError, lambda: o.compile(symstr.unknown(u), symstr.name(u, METHODS[st][m][0])))
                u.eq("nothing compiled", (o.solution, len(o.get_solutions())), (None, 0))
    return unknown


def getters(u):
    rf = load.load()
    import sys
    ssl = load.library("scipy.sparse.linalg") if hasattr(load, "library") else sys.modules["scipy.sparse.linalg"]
    get = rf.solutions.numerical.solvers.get_isolver
    for n1 in ITERATIVE:
        for n2 in ITERATIVE:
            u.eq("solver of the name", [get(n1) is getattr(ssl, n1), get(n2) is getattr(ssl, n2), get(n1) is getattr(ssl, n1)], [True] * 3)
        u.raises("unknown solver", ValueError, lambda: get(symstr.unknown(u)))


def mksolve(wells, bounds, sparse, later, ctl, vectorize, isolver, how="solve"):
    def solve(u, flow, un):
        s = Sim(u, flow, un, wells, bounds, True, sparse)
        g = s.g
        t, p, q = before(s, later, ctl)
        asm, log = assembly(s), solvers(s)
        if how == "run":
            s.s.run(nsteps=1, vectorize=vectorize, isolver=isolver, check_MB=False)
        else:
            s.s.solve(vectorize=vectorize, isolver=isolver, check_MB=False)
        want = "solve" if not sparse else isolver or "spsolve"
        u.eq("solver", [r.name for r in log], [want] * len(log))
        c, j = cell(g, "1", True), cell(g, "2", True)
        if concrete(u):
            for r in log[-1:]:
                A = r.A.toarray() if sparse else r.A
                As, ds = s.s.As[t + 1], s.s.ds[t + 1]
                n = total(g, False)
                u.eq("system", (A[s.row(c), s.row(j)], r.b.reshape(-1)[s.row(c)]), (As[s.row(c) * n + s.row(j)], ds[s.row(c)]))
        else:
            want = "get_matrices_vect" if vectorize else "get_matrices_symb"
            if not asm:
                raise core.Unsupported("the system does not come from get_matrices_vect or get_matrices_symb")
            u.eq("assembled", [a.name for a in asm], [want] * len(log))
            for a, r in zip(asm, log):
                def given():
                    u.eq("system", lambda: (r.A[s.row(c), s.row(j)], r.b.reshape(-1)[s.row(c)]), lambda: (a.A[s.row(c), s.row(j)], a.d[s.row(c), 0]))
                locally(given)
                u.eq("for the state", a.state, r.state)
        if want in ITERATIVE or (isolver and sparse):
            for r in log:
                tol = [r.kw[k] for k in ("rtol", "tol", "atol") if k in r.kw]
                u.eq("tolerance not looser than the default", all(v <= 1e-5 for v in tol), True)
        i = cell(g, "3", True)
        X = log[-1].X
        locally(lambda: u.eq("its answer is stored", lambda: s.s.pressures[t + 1, cid(g, i)], lambda: X[s.row(i)]))
    return solve


def mkbad(later, how):
    def bad(u, flow, un):
        s = Sim(u, flow, un, (), ("p",), True, True)
        t, p, q = before(s, later, [])
        asm, log = assembly(s), solvers(s)
        f = s.s.run if how == "run" else s.s.solve
        u.raises("unknown solver", ValueError, lambda: f(isolver=symstr.unknown(u)))
        u.eq("no solver called", len(log), 0)
        history(u, s, t, p, q, "unknown solver", t + 1)
    return bad


COV = ("solve", "run", "get_isolver")


def units():
    out = []
    for st in METHODS:
        for m in METHODS[st]:
            out.append(Unit(f"names({st},{m})", mknames(st, m), ("compile", "Compiler", "__set_stype", "__set_method", "__add_solution")))
        out.append(Unit(f"unknown({st})", mkunknown(st), ("compile", "Compiler", "__set_stype", "__set_method")))
    out.append(Unit("get_isolver", getters, ("get_isolver",)))
    for f, un in WCONF[1:]:
        for iso in ITERATIVE + (None,):
            for later, w, ctl, b in ((False, (), [], ("p",)), (True, ("qp",), ["q"], ()), (True, ("qp",), ["p"], ())):
                for sp in (True, False):
                    if not sp and iso not in ("cgs", None):
                        continue
                    for v in (True, False):
                        for how in ("solve", "run"):
                            if (f, v) != ("x", True) and (iso not in ("cgs", None) or how == "run") and not thorough():
                                continue
                            n = tag(f, un, w, ctl, b, sp, later, "vectorized" if v else "symbolic", iso, how)
                            add(out, f"solver({n})", mksolve(w, b, sp, later, ctl, v, iso, how), f, un, COV)
                if iso and (f == "x" or thorough()):
                    for k in (0, 1) if w else (0,):
                        n = tag(f, un, w, ctl, b, True, later, "vectorized", iso, k)
                        add(out, f"failing({n})", mkfail(w, b, later, ctl, True, iso, k), f, un, COV)
        for later in (False, True):
            for how in ("solve", "run"):
                add(out, f"unknown solver({f},{later},{how})", mkbad(later, how), f, un, COV)
    return out
