"""C13: a step appends one time level and changes nothing before it."""
from .sim import *


def before(s, later, ctl):
    """the state a step starts from; returns (t, pressure, rate) of it"""
    g = s.g
    if later:
        advance(s, ctl)
        n = total(g, False)
        s.s.As = ndarr.NDArr((s.t + 1, n * n), lambda idx: R.atom("AS", (ndarr.F(idx[0]), ndarr.F(idx[1]))))
        s.s.ds = ndarr.NDArr((s.t + 1, n), lambda idx: R.atom("DS", (ndarr.F(idx[0]), ndarr.F(idx[1]))))
        t = s.t
    else:
        t = 0
    s.hist = {}
    for w in s.well:
        h = s.m.w_pressures[w.id]
        if later:
            h.append(R.atom("HW", (w.id,)))
        s.hist[w.id] = list(h)
    pr, ra = s.s.pressures, s.s.rates
    keep = (pr.copy(), ra.copy())
    return t, lambda lv, c: keep[0][lv, cid(g, c)], lambda lv, c: keep[1][lv, cid(g, c)]


def level(t):
    return ranged("level", 0, t)


def history(u, s, t, p, q, label, rows):
    """levels 0..t are as before and there are rows levels"""
    g = s.g
    n = total(g)
    u.eq(f"{label}: shape", (tuple(s.s.pressures.shape), tuple(s.s.rates.shape)), ((rows, n), (rows, n)))
    u.eq(f"{label}: counters", (s.s.tstep, s.s.nsteps, s.m.get_shape(True)), (rows - 1, rows, (rows, n)))
    lv, c = level(t), cell(g, "0")

    def same():
        u.eq(f"{label}: earlier levels", lambda: (s.s.pressures[lv, cid(g, c)], s.s.rates[lv, cid(g, c)]), lambda: (p(lv, c), q(lv, c)))
    locally(same)


def mkstep(wells, bounds, sparse, later, ctl, vectorize, isolver, check=True):
    def step(u, flow, un):
        s = Sim(u, flow, un, wells, bounds, True, sparse)
        g = s.g
        t, p, q = before(s, later, ctl)
        asm, log = assembly(s), solvers(s)
        s.s.solve(vectorize=vectorize, isolver=isolver, check_MB=False)
        history(u, s, t, p, q, "step", t + 2)
        u.eq("solves", len(log) >= 1, True)
        r = log[-1]
        i, b = cell(g, "1", True), cell(g, "2", where=lambda c: bnot(inside(g, c)))

        def interior():
            u.eq("interior pressures solve the system", lambda: s.s.pressures[t + 1, cid(g, i)], lambda: r.X[s.row(i)])
        locally(interior)

        def boundary():
            u.eq("boundary pressures are carried over", lambda: s.s.pressures[t + 1, cid(g, b)], lambda: p(t, b))
        locally(boundary)
        n = total(g, False)
        u.eq("matrix history", (tuple(s.s.As.shape), tuple(s.s.ds.shape)), ((t + 2, n * n), (t + 2, n)))
        for w in s.well:
            h = list(s.m.w_pressures[w.id])
            u.eq("well history", (len(h), h[:-1]), (len(s.hist[w.id]) + 1, s.hist[w.id]))
            u.eq("well history: last", h[-1], s.m.wells[w.id]["pwf"])
    return step


def mkdry(wells, bounds, sparse, later, ctl, vectorize, isolver):
    def dry(u, flow, un):
        """solving without update"""
        s = Sim(u, flow, un, wells, bounds, True, sparse)
        t, p, q = before(s, later, ctl)
        asm, log = assembly(s), solvers(s)
        wd = {w.id: dict(s.m.wells[w.id].items()) for w in s.well}
        s.s.solve(update=False, vectorize=vectorize, isolver=isolver)
        history(u, s, t, p, q, "no update", t + 1)
        for w in s.well:
            u.eq("no update: well", dict(s.m.wells[w.id].items()) == wd[w.id], True)
            u.eq("no update: well history", list(s.m.w_pressures[w.id]), s.hist[w.id])
    return dry


def mkfail(wells, bounds, later, ctl, vectorize, isolver, at):
    def fail(u, flow, un):
        """the solver reports failure in attempt `at` of the step"""
        s = Sim(u, flow, un, wells, bounds, True, True)
        t, p, q = before(s, later, ctl)
        e = SInt.var("qexit")
        cur().assume(bnot(e == 0))
        asm, log = assembly(s), solvers(s, lambda k: e if k == at else 0)
        try:
            s.s.solve(vectorize=vectorize, isolver=isolver, check_MB=False)
            ok = True
        except (AssertionError, RuntimeError, ValueError, ArithmeticError):
            ok = False
        u.eq("a failed solve fails the step", ok, len(log) <= at)
        if not ok:
            history(u, s, t, p, q, "failed", t + 1)
            for w in s.well:
                u.eq("failed: well history", list(s.m.w_pressures[w.id]), s.hist[w.id])
    return fail


def mkrun(wells, bounds, sparse, later, ctl, nsteps, kw):
    def run(u, flow, un):
        """run = nsteps times solve with the options given (contract of solve: one step)"""
        s = Sim(u, flow, un, wells, bounds, True, sparse)
        t, p, q = before(s, later, ctl)
        s.m.verbose = bool(kw.get("verbose"))
        opts = {k: v for k, v in kw.items() if k != "verbose"}
        calls, inside_step = [], []
        real = s.s.solve

        def solve(threading=False, vectorize=True, check_MB=True, update=True, print_arrays=False, isolver="cgs"):
            if not inside_step:
                calls.append((vectorize, update, print_arrays, isolver, check_MB))
            inside_step.append(1)      # a step may be solved again by a nested call
            real(threading=threading, vectorize=vectorize, check_MB=check_MB, update=update, print_arrays=False, isolver=isolver)
            inside_step.pop()
        s.s.solve = solve
        asm, log = assembly(s), solvers(s)
        s.s.run(nsteps=nsteps, **opts)
        u.eq("steps", len(calls), nsteps)
        for c in calls:
            u.eq("options of the steps", c[:4], (opts.get("vectorize", True), True, False, opts.get("isolver")))
        history(u, s, t, p, q, "run", t + 1 + nsteps)
        for w in s.well:
            h = list(s.m.w_pressures[w.id])
            u.eq("well history", (len(h), h[:len(s.hist[w.id])]), (len(s.hist[w.id]) + nsteps, s.hist[w.id]))
        u.eq("verbose is restored", s.m.verbose, bool(kw.get("verbose")))
    return run


COV = ("solve", "__update_wells", "__update_boundaries", "get_shape")


def tag(f, un, w, ctl, b, sp, later, *rest):
    return f"{f},{'unify' if un else 'flat'},wells={'+'.join(w)}/{'+'.join(ctl)},boundaries={'+'.join(b)},{'sparse' if sp else 'dense'},{'later' if later else 'first'}" + "".join("," + str(r) for r in rest)


def add(out, name, fn, f, un, cov=COV):
    out.append(Unit(name, (lambda fn, f, un: lambda u: fn(u, f, un))(fn, f, un), cov))


def plan():
    """(flow, unify, wells, controls, boundaries, sparse, later, vectorize, isolver)"""
    out = []
    for f, un in CONFIGS:
        for sp, v, iso in ((False, True, None), (False, False, "cgs"), (True, True, "cgs"), (True, False, None)):
            out.append((f, un, (), [], ("p",), sp, True, v, iso))
        out.append((f, un, (), [], ("q", "g"), un, False, un, "bicgstab"))
        out.append((f, un, (), [], ("p", "p"), un, True, un, "cgs"))
    for f, un in WCONF:
        for sp, v, iso in ((True, True, "cgs"), (False, True, "cgs"), (True, False, "cgs"), (True, True, None)):
            for later, ctl in ((False, ["q"]), (True, ["q"]), (True, ["p"])):
                out.append((f, un, ("qp",), ctl, (), sp, later, v, iso))
        out.append((f, un, ("qp",), ["q"], ("p",), un, True, True, "cgs"))
        out.append((f, un, ("p",), ["p"], ("p",), un, True, True, "cgs"))
        out.append((f, un, ("q",), ["q"], (), un, True, True, "cgs"))
        for ctl in (["q", "p"], ["q", "q"]):
            if f == "x" or thorough():
                out.append((f, un, ("qp", "qp"), ctl, (), un, True, True, "cgs"))
    return out


def units():
    out = []
    for f, un, w, ctl, b, sp, later, v, iso in plan():
        n = tag(f, un, w, ctl, b, sp, later, "vectorized" if v else "symbolic", iso)
        add(out, f"step({n})", mkstep(w, b, sp, later, ctl, v, iso), f, un)
        if len(w) < 2:
            add(out, f"dry({n})", mkdry(w, b, sp, later, ctl, v, iso), f, un)
        if sp and iso and later:
            add(out, f"failed({n})", mkfail(w, b, later, ctl, v, iso, 0), f, un)
            if w:
                add(out, f"failed again({n})", mkfail(w, b, later, ctl, v, iso, 1), f, un)
    for f, un in WCONF:
        for w, ctl, b in (((), [], ("p",)), (("qp",), ["q"], ()), (("p",), ["p"], ())):
            for k, (n, kw) in enumerate(((0, dict(check_MB=False)), (1, dict(isolver="cgs", vectorize=False)), (3 if f == "x" else 2, dict(isolver="bicg", check_MB=False)), (1, dict(vectorize=False, verbose=True)))):
                if n > 1 and w == ("qp",):
                    n, kw = 1, dict(isolver="cgs", check_MB=False)
                    if k == 3:
                        continue
                for later in (False, True):
                    add(out, f"run({tag(f, un, w, ctl, b, bool(k % 2), later, n, *[f'{a}={v}' for a, v in kw.items()])})", mkrun(w, b, bool(k % 2), later, ctl, n, kw), f, un, COV + ("run",))
    return list({u.name: u for u in out}.values())
