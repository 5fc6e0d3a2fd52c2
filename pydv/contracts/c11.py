"""C11: wells keep their rate until their pressure limit."""
from .sim import *
from .c13 import before, tag, add


def solved(s, log):
    """controls the last solve of the step was made with"""
    st = dict(log[-1].state[1:])
    return {w.id: st[w.id] for w in s.well}


def check(u, s, t, log, label):
    st = solved(s, log)
    r = log[-1]
    for w in s.well:
        d = s.m.wells[w.id]
        p = r.X[s.row(w.c)]
        unit = s.muB / w.G
        u.eq(f"{label}: pressure of the cell", s.s.pressures[t + 1, w.id], p)
        rate = s.s.rates[t + 1, w.id]
        if w.kind == "p":
            u.eq(f"{label}: pressure well", (st[w.id], rate, d["pwf"], d["constrain"]), ("pwf", (w.pwf - p) / unit, w.pwf, "pwf"))
            continue
        est = p + w.q * unit
        if st[w.id] == "q":
            u.eq(f"{label}: at its target", (rate, d["pwf"]), (w.q, est))
            u.le(f"{label}: not below the limit", w.pwf, est)
        else:
            u.eq(f"{label}: held at the limit", (rate, d["pwf"]), ((w.pwf - p) / unit, w.pwf))
        feasible = bool(est > w.pwf)
        if concrete(s.u) and abs(est - w.pwf) < 1e-9 * (1 + abs(est)):
            continue
        if feasible:
            u.eq(f"{label}: target feasible, back to it", (d["constrain"], d["q"]), ("q", w.q))
        else:
            u.eq(f"{label}: target not feasible", (d["constrain"], d["pwf"]), ("pwf", w.pwf))
        u.eq(f"{label}: target and limit kept", (d["q_sp"], d["pwf_sp"]), (w.q, w.pwf))


def discarded(u, s, t, log):
    """a solve that left a well at its target below its limit is discarded"""
    for k, r in enumerate(log):
        st = dict(r.state[1:])
        u.eq("every solve is of the same step", r.state[0], t)
        bad = False
        for w in s.well:
            if w.kind != "p" and st[w.id] == "q" and not bad:
                bad = bool(r.X[s.row(w.c)] + w.q * s.muB / w.G < w.pwf)
        u.eq("solved again when a limit is violated", bad and k == len(log) - 1, False)


def mkstep(wells, bounds, sparse, later, ctl, vectorize, isolver):
    def step(u, flow, un):
        s = Sim(u, flow, un, wells, bounds, True, sparse)
        t, p, q = before(s, later, ctl)
        asm, log = assembly(s), solvers(s)
        s.s.solve(vectorize=vectorize, isolver=isolver, check_MB=False)
        if not concrete(u):
            if not asm:
                raise core.Unsupported("the system does not come from get_matrices_vect or get_matrices_symb")
            u.eq("the system is assembled for the controls it is solved with", [a.state for a in asm], [r.state for r in log])
        check(u, s, t, log, "after the step")
        discarded(u, s, t, log)
        e = cell(g := s.g, "1", True)
        if all(not bool(s.samecell(w.c, e)) for w in s.well):
            u.eq("no well, no rate", s.s.rates[t + 1, cid(g, e)], q(t, e))
    return step


def mktwo(wells, bounds, sparse, ctl, isolver):
    def two(u, flow, un):
        """two steps in a row: the second one starts from what the first one left"""
        s = Sim(u, flow, un, wells, bounds, True, sparse)
        t, p, q = before(s, True, ctl)
        asm, log = assembly(s), solvers(s)
        s.s.solve(isolver=isolver, check_MB=False)
        n = len(log)
        s.s.solve(isolver=isolver, check_MB=False)
        check(u, s, t + 1, log, "second step")
        for w in s.well:
            if w.kind == "p":
                continue
            first = dict(log[n].state[1:])[w.id]
            X = log[n - 1].X[s.row(w.c)]
            est = X + w.q * s.muB / w.G
            if concrete(s.u) and abs(est - w.pwf) < 1e-9 * (1 + abs(est)):
                continue
            u.eq("second step starts with", first, "q" if bool(est > w.pwf) else "pwf")
    return two


COV = ("__update_wells", "solve", "__calc_w_term", "set_well")


def units():
    out = []
    for f, un in WCONF:
        for kinds in (("q",), ("qp",), ("p",)):
            for ctl in ((["p"],) if kinds == ("p",) else (["q"], ["p"])):
                for later in (False, True):
                    if not later and ctl != ([("p" if k == "p" else "q") for k in kinds]):
                        continue
                    for b in ((), ("p",)) if f in ("x", "xy") else ((),):
                        for sp, v, iso in ((True, True, "cgs"), (False, False, None)):
                            n = tag(f, un, kinds, ctl, b, sp, later, "vectorized" if v else "symbolic", iso)
                            add(out, f"step({n})", mkstep(kinds, b, sp, later, ctl, v, iso), f, un, COV)
        for kinds in (("qp", "qp"), ("qp", "p"), ("q", "qp"), ("p", "qp")):
            ctls = [["p"] if k == "p" else ["q", "p"] for k in kinds]
            for c0 in ctls[0]:
                for c1 in ctls[1]:
                    if (f, un) != ("x", True) and not thorough() and (c0, c1, un) != ("q", "q", True):
                        continue
                    n = tag(f, un, kinds, [c0, c1], (), un, True)
                    add(out, f"step({n})", mkstep(kinds, (), un, True, [c0, c1], True, "cgs"), f, un, COV)
        for kinds, ctl in ((("qp",), ["q"]), (("qp",), ["p"]), (("q",), ["q"])):
            add(out, f"two steps({tag(f, un, kinds, ctl, (), un, True)})", mktwo(kinds, (), un, ctl, None), f, un, COV)
    return out
