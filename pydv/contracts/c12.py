"""C12: mass balance and its reported error."""
from .sim import *
from .c13 import before, tag, add


def flux(s, a, c, n, X):
    """mass flux into c from its interior neighbour n at pressures X"""
    return s.T(a, c, n) * (X(n) - X(c) - s.grav() * (s.z(n) - s.z(c)))


def mkbalance(wells, bounds, comp, sparse, later, ctl, vectorize):
    def balance(u, flow, un):
        """the reported rates at and around a cell are those of its solved equation; internal fluxes cancel"""
        s = Sim(u, flow, un, wells, bounds, comp, sparse)
        g = s.g
        t, p, q = before(s, later, ctl)
        asm, log = assembly(s), solvers(s)
        s.s.solve(vectorize=vectorize, isolver=None, check_MB=False)
        r = log[-1]
        st = [dict(r.state[1:])[w.id] for w in s.well]
        st = ["q" if k == "q" else "p" for k in st]
        X = lambda c: r.X[s.row(c)]
        c = cell(g, "1", True)

        def term(b):
            k, f = s.bflux(b)
            return k + f * X(b.n) if b.kind == "p" else k

        def wterm(w, k):
            a, f = s.wflux(w, k)
            return a + f * X(w.c)
        for b in s.bound:
            if b.n is not None:
                u.eq("reported rate of a boundary is its flux", s.s.rates[t + 1, b.id], term(b))
        for w, k in zip(s.well, st):
            u.eq("reported rate of a well is its flux", s.s.rates[t + 1, w.id], wterm(w, k))

        def row():
            # residual of row c (C08) at the solution
            old = lambda e: p(t, e)
            res = s.entry(c, c, st) * X(c) - s.const(c, st, old)
            acc = s.RHS(c) * (s.s.pressures[t + 1, cid(g, c)] - s.s.pressures[t, cid(g, c)]) if comp else 0
            tot = 0
            for a, n in s.faces(c):
                res = res + s.T(a, c, n) * X(n)
                tot = tot + flux(s, a, c, n, X)
            for b in s.bound:
                if s.touches(b, c):
                    tot = tot + term(b)
            for w, k in zip(s.well, st):
                if bool(s.samecell(w.c, c)):
                    tot = tot + wterm(w, k)
            u.eq("accumulation = fluxes and reported rates", tot - acc, res)

        def cancel():
            for a, n in s.faces(c):
                u.eq("internal fluxes cancel", flux(s, a, c, n, X), -1 * flux(s, a, n, c, X))

        def others():
            e = cell(g, "4")
            if any(bool(cid(g, x.c) == cid(g, e)) for x in s.bound + s.well):
                return
            u.eq("no rate elsewhere", s.s.rates[t + 1, cid(g, e)], q(t, e))
        locally(row)
        locally(cancel)
        locally(others)
        for b in s.bound:
            if b.n is None:
                u.eq("rate of a boundary no cell feels", s.s.rates[t + 1, b.id], q(t, b.c))
    return balance


def zero(u, flow, un):
    """rates are zero before conditions and wells are set"""
    s = Sim(u, flow, un, (), (), True, un)
    e = cell(s.g, "4")
    u.eq("initial rates", s.s.rates[0, cid(s.g, e)], 0)


def total_of(s, f):
    """sum over interior cells"""
    g = s.g
    n = total(g, False)
    return ndarr.array_sum(ndarr.NDArr((n,), lambda idx: f(ncoords(g, ndarr.F(idx[0]), False))))


def mkerror(comp, given, wells=(), bounds=()):
    def error(u, flow, un):
        """check_MB after any step of any history"""
        s = Sim(u, flow, un, wells, bounds, comp, un)
        g = s.g
        before(s, True, ["q"] * len(wells))
        t = s.t
        fakes.WARNED.clear()
        kw = {}
        thr = 0.1
        if given:
            thr = R.atom("THR", (), True)
            kw["error_threshold"] = thr
        s.s.check_MB(**kw)
        rates = s.s.rates
        n = total(g)
        S = ndarr.array_sum(ndarr.NDArr((n,), lambda idx: rates[t, ndarr.F(idx[0])]))
        if comp:
            acc = total_of(s, lambda c: s.RHS(c) * (s.s.pressures[t, cid(g, c)] - s.s.pressures[t - 1, cid(g, c)]))
            want = abs(acc / S - 1)
        else:
            want = S
        u.eq("reported error", s.s.error, want)
        high = bool(abs(want) > thr)
        u.eq("warned", len(fakes.WARNED) > 0, high)
    return error


COV = ("check_MB", "solve", "__update_wells", "__update_boundaries")


def units():
    out = []
    for f, un in CONFIGS:
        add(out, f"zero({f},{un})", zero, f, un, COV)
        for comp in (True, False):
            for given in (True, False):
                add(out, f"error({f},{un},{comp},{given})", mkerror(comp, given), f, un, COV)
        for b in (("p",), ("q",), ("g",)):
            for comp in (True, False):
                if (un == comp or len(f) == 1) and (comp or b[0] == "p"):
                    add(out, f"balance({tag(f, un, (), [], b, un, True, comp)})", mkbalance((), b, comp, un, True, [], un), f, un, COV)
    for f, un in WCONF:
        for w, ctl in ((("qp",), ["q"]), (("qp",), ["p"]), (("q",), ["q"]), (("p",), ["p"]), (("qp", "p"), ["q", "p"])):
            for later in (False, True):
                for b in ((), ("p",)):
                    if b and (len(f) > 1 or len(w) > 1) or len(w) > 1 and len(f) > 1 or not later and ctl != ["q" if k != "p" else "p" for k in w]:
                        continue
                    comp = not b
                    add(out, f"balance({tag(f, un, w, ctl, b, un, later, comp)})", mkbalance(w, b, comp, un, later, ctl, un), f, un, COV)
    return out
