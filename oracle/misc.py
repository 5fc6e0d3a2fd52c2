"""Concrete oracles of C06, C07, C16, C18."""
import subprocess
from common import *
from grids import grid_cases

FACT = {
    "field": {"gravitational acceleration": 32.174, "transmissibility conversion": 0.001127, "gravity conversion": 0.21584e-3, "volume conversion": 5.614583},
    "metric": {"gravitational acceleration": 9.806635, "transmissibility conversion": 0.0864, "gravity conversion": 0.001, "volume conversion": 1},
    "lab": {"gravitational acceleration": 980.6635, "transmissibility conversion": 1, "gravity conversion": 0.986923e-6, "volume conversion": 1},
}
UNIT = {"field": {"pressure": "psia", "time": "days", "rate": "stb/day", "length": "ft", "permeability": "md", "viscosity": "cp", "density": "lbm/ft^3", "compressibility": "psi^{-1}"},
        "metric": {"pressure": "kpa", "time": "days", "rate": "m^3/day", "length": "m", "permeability": "m^2", "viscosity": "mpa.sec", "density": "kg/m^3", "compressibility": "kpa^{-1}"},
        "lab": {"pressure": "atm", "time": "sec", "rate": "cm^3/sec", "length": "cm", "permeability": "darcy", "viscosity": "cp", "density": "g/cm^3", "compressibility": "atm^{-1}"}}


class C06:
    rule = "all unit systems x random fluid and rock values and histories of settings; non-trivial: every case sets and re-sets values"

    @staticmethod
    def cases(rng, tier):
        for t in range(60 if tier == "quick" else 600):
            yield dict(unit=["field", "metric", "lab"][t % 3], unit2=str(rng.choice(["field", "metric", "lab"])),
                       rho=float(rng.choice([0, 1, 50, rng.uniform(0, 1e3)])), rho2=float(rng.uniform(0, 100)),
                       mu=float(rng.uniform(.1, 5)), B=float(rng.uniform(.5, 2)),
                       cf=float(rng.choice([0, 1e-5, 1, rng.uniform(0, 1e-3), 1e-30])), cr=float(rng.choice([0, 1e-6, rng.uniform(0, 1e-3), 5e-324])))

    @staticmethod
    def check(c):
        quiet(C06._check, c)

    @staticmethod
    def _check(c):
        r = rf()
        u = c["unit"]
        def units(o, u, what):
            require(o.unit == u, what + ": unit", o.unit, u)
            for k, v in FACT[u].items():
                require(o.factors[k] == v, what + ": factor " + k, o.factors.get(k), v)
            for k, v in UNIT[u].items():
                require(o.units[k] == v, what + ": unit name " + k, o.units.get(k), v)
        def ctype(o, v, what):
            require(o.comp == v and o.comp_type == ("incompressible" if v == 0 else "compressible"), what + ": compressibility type", o.comp, o.comp_type, v)
        F = r.fluids.SinglePhase(mu=c["mu"], B=c["B"], rho=c["rho"], comp=c["cf"], unit=u)
        G = r.grids.RegularCartesian(3, 1, 1, 10, 10, 10, kx=10, phi=.2, comp=c["cr"], unit=u)
        M = r.models.BlackOil(G, F, pi=100, unit=u)
        for o, w in ((F, "fluid"), (G, "grid"), (M, "model")):
            units(o, u, w)
        grav = lambda rho: FACT[u]["gravity conversion"] * rho * FACT[u]["gravitational acceleration"]
        require(F.rho == c["rho"] and close(F.g, grav(c["rho"]), 1e-12, 0), "hydrostatic gradient", F.g)
        require(F.mu == c["mu"] and F.B == c["B"], "viscosity or volume factor")
        ctype(F, c["cf"], "fluid")
        ctype(G, c["cr"], "grid")
        tot = c["cf"] + c["cr"]
        require(close(M.comp, tot, 1e-14, 0) and M.comp_type == ("incompressible" if tot == 0 else "compressible"), "total compressibility", M.comp, M.comp_type)
        F.set_rho(c["rho2"])
        require(F.rho == c["rho2"] and close(F.g, grav(c["rho2"]), 1e-12, 0), "hydrostatic gradient after set_rho", F.g)
        F.set_props(rho=c["rho"])
        require(F.mu == c["mu"] and close(F.g, grav(c["rho"]), 1e-12, 0), "hydrostatic gradient after set_props", F.g)
        ctype(F, c["cf"], "fluid after set_props")
        for o in (F, G, M):
            for v in (0, 1e-7, c["cf"]):
                o.set_comp(v)
                ctype(o, v, "set_comp")
            require(raises(o.set_comp, -1e-9) and raises(o.set_comp, -1), "negative compressibility accepted")
        require(raises(r.fluids.SinglePhase, mu=1, B=1, comp=-1e-6), "negative compressibility accepted by fluid")
        require(raises(r.grids.RegularCartesian, 2, 1, 1, 1, 1, 1, comp=-1e-6), "negative compressibility accepted by grid")
        D = r.fluids.SinglePhase(mu=1, B=1, unit=u)
        require(D.rho == 0 and D.g == 0, "default density")
        ctype(D, 0, "default fluid")
        Gd = r.grids.RegularCartesian(2, 1, 1, 1, 1, 1, unit=u)
        ctype(Gd, 0, "default grid")
        for o in (F, G, M):
            o.set_units(c["unit2"])
            units(o, c["unit2"], "set_units")
            if o is F:
                u2 = FACT[c["unit2"]]
                require(close(F.g, u2["gravity conversion"] * c["rho"] * u2["gravitational acceleration"], 1e-12, 0), "hydrostatic gradient after set_units", F.g)
            require(raises(o.set_units, "imperial") and raises(o.set_units, u.upper()), "unknown unit system accepted")
            units(o, c["unit2"], "rejected set_units")
        require(raises(r.fluids.SinglePhase, mu=1, B=1, unit="si"), "unknown unit system accepted")
        X = r.fluids.SinglePhase(mu=1, B=1)
        units(X, "field", "default")


class C07:
    rule = "every shape with flow in x, xy or xyz and both conventions; every cell id (interior, boundary and out of range); random skins, radii, rates, limits; non-trivial: all"

    @staticmethod
    def cases(rng, tier):
        for c in grid_cases(rng, tier, 2, ["all", "near", "hetero"]):
            R = Ref(*c["grid"]["shape"])
            if R.flow in ("x", "xy", "xyz"):
                c["w"] = []
                for _ in range(4):
                    c["w"].append(dict(cell=int(rng.choice(R.interior)), r=float(np.round(rng.uniform(.5, 5), 3)), s=[None, 0.0, 1.5, float(rng.uniform(-1, 4))][int(rng.integers(4))],
                                       q=[None, -300.0, 0.0, 120.0][int(rng.integers(4))], pwf=[None, 1000.0, 0.0, 3000.0][int(rng.integers(4))], obj=bool(rng.random() < .4)))
                c["bad"] = [int(v) for v in rng.choice(R.boundary, min(6, len(R.boundary)), False)] + [-1, len(R.ids), len(R.ids) + 7]
                yield c

    @staticmethod
    def check(c):
        quiet(C07._check, c)

    @staticmethod
    def _check(c):
        r = rf()
        gs = c["grid"]
        g = build_grid(gs)
        R = GridRef(gs)
        F = r.fluids.SinglePhase(mu=.5, B=1.1, rho=50, comp=1e-6)
        m = r.models.BlackOil(g, F, pi=4000)
        for b in c["bad"]:
            require(raises(m.set_well, cell_id=b, q=-1, r=1, s=0), "well accepted outside the reservoir", b)
            require(b not in m.wells, "rejected well is registered", b)
            W = r.wells.SingleCell(cell_id=b, q=-1, s=0, r=1)
            require(raises(m.set_well, W), "well object accepted outside the reservoir", b)
        for w in c["w"]:
            i = w["cell"]
            m = r.models.BlackOil(g, F, pi=4000)
            kw = {k: w[k] for k in ("q", "pwf", "r", "s") if w[k] is not None}
            if w["obj"] and "pwf" not in kw:
                m.set_well(r.wells.SingleCell(cell_id=i, q=w["q"], s=w["s"], r=w["r"]))
            else:
                m.set_well(cell_id=i, **kw)
            o = m.wells[i]
            kx, ky = R.props["kx"][i], R.props["ky"][i]
            dx, dy, dz = (R.size(i, a) for a in range(3))
            if R.flow == "x":
                req, kH = 0.14 * (dx**2 + dy**2) ** .5, kx
            else:
                req = 0.28 * ((ky / kx) ** .5 * dx**2 + (kx / ky) ** .5 * dy**2) ** .5 / ((ky / kx) ** .25 + (kx / ky) ** .25)
                kH = (kx * ky) ** .5
            den = np.log(12 * req / w["r"]) + (w["s"] or 0)
            require(close(o["r_eq"], req), "equivalent radius", o["r_eq"], req)
            require(close(o["G"], 2 * np.pi * R.c * kH * dz / den), "productivity", o["G"], 2 * np.pi * R.c * kH * dz / den)
            if w["q"] is not None:
                require(o["q"] == w["q"] and o["constrain"] == "q", "rate control", o)
            elif w["pwf"] is not None:
                require(o["constrain"] == "pwf", "pressure control", o)
            if w["pwf"] is not None:
                require(o["pwf"] == w["pwf"], "pressure limit", o)
            if w["r"] is not None:
                require(o["r"] == w["r"], "radius", o)
            require(set(m.wells) == {i}, "other wells", list(m.wells))


class C16:
    rule = "random arrays (1D and 2D, also constant sign, large and tiny) x ranges x axes x histories of set range / transform / inverse"

    @staticmethod
    def cases(rng, tier):
        for t in range(150 if tier == "quick" else 1500):
            sh = [int(rng.integers(2, 7))] + ([int(rng.integers(1, 4))] if rng.random() < .6 else [])
            sc = float(rng.choice([1, 1e-6, 1e5]))
            v = (rng.normal(size=sh) * sc + float(rng.choice([0, 3, -500]))).round(9 if sc < 1 else 3)
            lo = float(rng.choice([0, -1, 2, -5]))
            yield dict(v=v.tolist(), out=[lo, lo + float(rng.choice([1, 2, .5, 10]))], out2=[float(rng.uniform(-3, 0)), float(rng.uniform(.5, 3))],
                       axis=[0, None][int(rng.integers(2))], inp=[None, [float(v.min() - 1), float(v.max() + 2)]][int(rng.integers(2))])

    @staticmethod
    def check(c):
        quiet(C16._check, c)

    @staticmethod
    def _check(c):
        S = rf().scalers
        v = np.array(c["v"])
        lo, hi = c["out"]
        ax = c["axis"]
        if np.any(v.max(axis=ax) == v.min(axis=ax)):
            return
        s = S.MinMax(tuple(c["out"]))
        require(raises(s.transform, v) and raises(s.inverse_transform, v), "scaler used before its range is known")
        keep = v.copy()
        require(s.fit(v, axis=ax) is s, "fit returns the scaler")
        def laws(s, lo, hi, v, mn, mx, fitted):
            t = s.transform(v)
            want = lo + (hi - lo) * (v - mn) / (mx - mn)
            require(t.shape == v.shape and close(t, want, 1e-7, 1e-9), "transform", t, want)
            if fitted:
                require(close(t.min(axis=ax), np.broadcast_to(lo, t.min(axis=ax).shape), 1e-7, 1e-9) and close(t.max(axis=ax), np.broadcast_to(hi, t.max(axis=ax).shape), 1e-7, 1e-9), "range of fitted data")
            require(close(s.inverse_transform(t), v, 1e-7, 1e-7 * np.abs(v).max()), "inverse", s.inverse_transform(t), v)
            x = np.linspace(lo - 1, hi + 1, 5).reshape((-1,) + (1,) * (v.ndim - 1)) * np.ones((1,) + v.shape[1:])
            require(close(s.transform(s.inverse_transform(x)), x, 1e-7, 1e-7 * (1 + np.abs(v).max() / np.abs(np.max(mx - mn)))), "inverse of inverse")
        mn, mx = v.min(axis=ax), v.max(axis=ax)
        laws(s, lo, hi, v, mn, mx, True)
        require(np.array_equal(v, keep), "input changed")
        require(s.set_output_range(tuple(c["out2"])) is s, "set_output_range returns the scaler")
        laws(s, *c["out2"], v, mn, mx, True)
        s2 = S.MinMax(tuple(c["out"]))
        require(close(s2.fit_transform(v, axis=ax), s.set_output_range(tuple(c["out"])).transform(v)), "fit_transform")
        w = v * 2 - 1
        s2.fit(w, axis=ax)
        laws(s2, lo, hi, w, w.min(axis=ax), w.max(axis=ax), True)
        if c["inp"]:
            s3 = S.MinMax(tuple(c["out"]), tuple(c["inp"]))
            laws(s3, lo, hi, v, c["inp"][0], c["inp"][1], False)
            s3.fit(v, axis=ax)
            laws(s3, lo, hi, v, mn, mx, True)
        require(raises(S.MinMax((0, 1)).fit, np.zeros((2, 2, 2)), 0), "axis=0 for three dimensions accepted")
        t3 = np.arange(8.).reshape(2, 2, 2)
        require(close(S.MinMax((0, 1)).fit_transform(t3, axis=None), t3 / 7), "three dimensions, all axes")
        d = S.Dummy(None)
        for o in (d.transform(v), d.inverse_transform(v), d.fit_transform(v), d.fit(v).transform(v), d.set_output_range((0, 1)).transform(v)):
            require(np.array_equal(o, v), "dummy scaler")


NAMES = {
    "numerical": {"FDM": ["fdm", "finite difference method", "finite-difference-method"], "FVM": ["fvm", "finite volume method", "finite-volume-method"], "FEM": ["fem", "finite element method", "finite-element-method"]},
    "analytical": {f"D{d}P{p}": [f"d{d}p{p}", f"{d}d{p}p", f"{d}-dimension-{p}-phase", f"{d}dimension{p}phase"] for d in (1, 2, 3) for p in (1, 2, 3)},
    "neurical": {"PINN": ["pinn", "physics informed neural network", "physics-informed-neural-network"], "DeepONet": ["deeponet", "deep operator network", "deep-operator-network"]},
}
STYPES = {"numerical": ["n", "num", "numerical"], "analytical": ["a", "ana", "analytical"], "neurical": ["nn", "neu", "neurical"]}
IS = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]
READY = {"FDM", "D1P1"}


class C18:
    rule = "every documented name of solution types, methods and solvers, in several letter cases, and misspelled names; solver calls recorded with the system they are given, incl. re-solved steps and failing solvers"

    @staticmethod
    def cases(rng, tier):
        for st in NAMES:
            for m in NAMES[st]:
                for a in NAMES[st][m]:
                    yield dict(kind="name", stype=str(rng.choice(STYPES[st])), st=st, method=m, alias=a, case=int(rng.integers(3)))
        for st in STYPES:
            for s in STYPES[st]:
                yield dict(kind="name", stype=s, st=st, method=list(NAMES[st])[0], alias=NAMES[st][list(NAMES[st])[0]][0], case=int(rng.integers(3)))
        yield dict(kind="unknown")
        yield dict(kind="getters")
        runs = []
        for n in IS + [None]:
            for rs in (False, True):
                for vec in (True, False) if tier != "quick" or n in ("cgs", "bicgstab", None) else (True,):
                    runs.append(dict(name=n, resolve=rs, vec=vec, fail=False, how=str(rng.choice(["run", "solve"]))))
        for n in IS:
            runs.append(dict(name=n, resolve=False, vec=True, fail=True, how=str(rng.choice(["run", "solve"]))))
        runs.append(dict(name="cgs", resolve=True, vec=True, fail=2, how="solve"))
        for t in range(0, len(runs), 14):
            yield dict(kind="solver", runs=runs[t : t + 14])
        yield dict(kind="dense")

    @staticmethod
    def check(c):
        quiet(C18._check, c)

    @staticmethod
    def _model(resolve):
        r = rf()
        g = r.grids.RegularCartesian(4, 1, 1, 300, 350, 40, kx=270, phi=.27, comp=1e-6)
        F = r.fluids.SinglePhase(mu=.5, B=1, rho=50, comp=1e-5)
        m = r.models.BlackOil(g, F, pi=4000, dt=5)
        m.set_well(cell_id=4, q=-600, s=1.5, r=3.5, pwf=3960 if resolve else 100)
        m.set_boundaries({0: ("pressure", 4000), 5: ("rate", 0)})
        return m

    @staticmethod
    def _check(c):
        r = rf()
        if c["kind"] == "name":
            f = [str.lower, str.upper, str.title][c["case"]]
            m = C18._model(False)
            try:
                m.compile(f(c["stype"]), f(c["alias"]), True)
                ok = True
            except Exception as e:
                ok = False
                err = e
            if c["method"] in READY:
                require(ok, "documented name rejected", c["stype"], c["alias"], None if ok else repr(err))
            if not ok:  # a method that is not implemented yet may refuse, but not as an unknown name
                require("unknown" not in str(err).lower() and "unkown" not in str(err).lower(), "documented name unknown", c["stype"], c["alias"], str(err))
                from reservoirflow.solutions.compiler import Compiler
                K = Compiler.__new__(Compiler)
                return
            require(m.compiler.stype == c["st"] and m.compiler.method == c["method"], "wrong method selected", c["alias"], m.compiler.stype, m.compiler.method)
            require(type(m.solution).__name__ == c["method"], "wrong solution object", type(m.solution).__name__, c["method"])
            key = [k for k in m.get_solutions() if m.solutions[k] is m.solution]
            require(len(key) == 1 and c["method"] in key[0] and c["st"] in key[0], "registered name", m.get_solutions())
        elif c["kind"] == "unknown":
            for st, me in (("num", "fdmm"), ("numerical", "d1p1"), ("analytical", "fdm"), ("ana", "d4p1"), ("neu", "fdm"), ("nu", "fdm"), ("", "fdm"), ("numerical", ""), ("nn", "pin"), ("analytic", "d1p1")):
                m = C18._model(False)
                require(raises(m.compile, st, me), "unknown name accepted", st, me)
                require(m.solution is None and m.solutions == {}, "rejected name changed the model", st, me)
            m = C18._model(False)
            require(raises(m.compile, "numerical", "fdm", 1) and raises(m.compile, "numerical", "fdm", None), "sparse must be bool")
            require(raises(m.set_solution, "nothing"), "unknown solution accepted")
            from reservoirflow.solutions.numerical import solvers
            for n in ("bicgg", "", "BICG ", "direct", "spsolve"):
                require(raises(solvers.get_isolver, n), "unknown solver accepted", n)
                m = C18._model(False)
                m.compile("numerical", "fdm", True)
                if n:
                    p0 = m.solution.pressures.copy()
                    require(raises(m.solution.solve, isolver=n), "unknown solver accepted by solve()", n)
                    require(np.array_equal(m.solution.pressures, p0, equal_nan=True) and m.solution.tstep == 0, "state changed by unknown solver")
        elif c["kind"] == "getters":
            import scipy.sparse.linalg as ssl
            from reservoirflow.solutions.numerical import solvers
            order = IS + IS[::-1]
            for n in order:
                require(solvers.get_isolver(n) is getattr(ssl, n), "wrong solver for name", n, solvers.get_isolver(n))
        elif c["kind"] == "dense":
            m = C18._model(True)
            m.compile("numerical", "fdm", False)
            for _ in range(3):
                m.solution.solve(isolver="cgs")
            s = m.solution
            for t in range(1, 4):
                A = s.As[t].reshape(4, 4)
                require(close(A @ s.pressures[t, 1:5], s.ds[t].reshape(-1), 1e-8, 1e-6), "dense solve", t)
        else:
            p = subprocess.run([sys.executable, os.path.abspath(__file__), json.dumps(c)], capture_output=True, text=True, timeout=300)
            last = (p.stdout.strip().splitlines() or [""])[-1]
            if last.startswith("MISMATCH "):
                raise Mismatch(last[9:])
            require(last == "OK", "recorded solver run crashed", last[-300:], p.stderr[-600:])


_REAL = {}


def _solver_run(c):
    """In its own process: every solver of scipy.sparse.linalg records its calls."""
    import scipy.sparse.linalg as ssl
    from reservoirflow.solutions.numerical import solvers
    if not _REAL:
        _REAL.update({n: getattr(ssl, n) for n in IS + ["spsolve"]})
    for o in vars(solvers).values():
        if hasattr(o, "cache_clear"):
            o.cache_clear()
    calls = []
    fail = {"at": None}

    def wrap(n, orig):
        def f(A, b, *a, **k):
            calls.append((n, (A.toarray() if hasattr(A, "toarray") else np.array(A)).copy(), np.array(b.toarray() if hasattr(b, "toarray") else b).reshape(-1).copy()))
            if n != "spsolve" and fail["at"] is not None and len(calls) >= fail["at"]:
                return np.zeros(A.shape[0]), 7
            if n == "spsolve":
                return orig(A, b, *a, **k)
            x = ssl_sp(A.tocsc() if hasattr(A, "tocsc") else A, b)
            return x, 0
        return f
    ssl_sp = _REAL["spsolve"]
    for n in IS + ["spsolve"]:
        setattr(ssl, n, wrap(n, _REAL[n]))
    m = C18._model(c["resolve"])
    m.compile("numerical", "fdm", True)
    s = m.solution
    want = c["name"] or "spsolve"

    def step(n=1):
        if c["how"] == "run":
            s.run(nsteps=n, isolver=c["name"], vectorize=c["vec"], threading=False)
        else:
            for _ in range(n):
                s.solve(isolver=c["name"], vectorize=c["vec"], threading=False)
    if not c["fail"]:
        step(3)
        require({n for n, _, _ in calls} == {want}, "solver used", sorted({n for n, _, _ in calls}), want)
        require(len(calls) == (4 if c["resolve"] else 3), "number of solver calls", len(calls))
        acc = calls[1:] if c["resolve"] else calls
        for t in range(1, 4):
            n, A, b = acc[t - 1]
            require(np.allclose(A, s.As[t].reshape(4, 4)) and np.allclose(b, s.ds[t].reshape(-1)), "system given to the solver is not the assembled one", t)
            require(np.allclose(A @ s.pressures[t, 1:5], b, rtol=1e-8, atol=1e-6), "solution not used", t)
        from_spec = C18._model(c["resolve"])
        from_spec.compile("numerical", "fdm", False)
        for _ in range(3):
            from_spec.solution.solve(vectorize=True)
        require(np.allclose(from_spec.solution.pressures, s.pressures, rtol=1e-7, equal_nan=True), "differs from the dense solution")
    else:
        if c["fail"] == 2:  # the re-solve of the step fails
            fail["at"] = 2
        else:
            step(1)
            fail["at"] = len(calls) + 1
        n = s.tstep
        p0, q0 = s.pressures.copy(), s.rates.copy()
        try:
            step(1)
            ok = False
        except Exception:
            ok = True
        require(ok, "a step with failing solver was accepted")
        if c["fail"] != 2:
            require(s.tstep == n and np.array_equal(p0, s.pressures, equal_nan=True) and np.array_equal(q0, s.rates), "a step that did not converge was stored")


if __name__ == "__main__":
    try:
        for _c in json.loads(sys.argv[1])["runs"]:
            quiet(_solver_run, _c)
        print("OK")
    except Mismatch as e:
        print("MISMATCH " + str(e) + " in " + json.dumps(_c))
