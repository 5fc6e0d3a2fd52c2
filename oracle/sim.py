"""Concrete oracles of C08-C15 and C17: independent assembly of the flow equations."""
import datetime
from common import *
from grids import grid_cases

PN = ["pressure", "press", "p", "Pressure", "PRESS", "P", "pReSs"]
RN = ["rate", "q", "Rate", "Q", "RATE"]
GN = ["gradient", "grad", "g", "Gradient", "GRAD", "G"]
ALPHA = {"field": 5.614583, "metric": 1.0, "lab": 1.0}


def model_spec(rng, gs, nb=None, wells=None, limits=False, comp=None, uniform_pi=None):
    R = Ref(*gs["shape"])
    unit = gs.get("unit", "field")
    m = dict(grid=gs, mu=float(np.round(rng.uniform(.3, 2), 3)), B=float(np.round(rng.uniform(.9, 1.3), 3)), rho=float(rng.choice([0, 50, 62.4])),
             cf=float(rng.choice([0, 1e-5, 1e-4])) if comp is None else comp, dt=int(rng.integers(1, 8)), unit=unit)
    if comp == 0:
        gs["comp"] = 0.0
    if m["cf"] + gs["comp"] == 0 and rng.random() < .5 and comp is None:
        m["cf"] = 1e-5
    pi = 4000.0
    m["pi"] = pi if (uniform_pi or rng.random() < .6) else [float(v) for v in np.round(rng.uniform(3500, 4200, len(R.interior)), 2)]
    faced = [b for b in R.boundary if sum(map(len, R.interior_faces(b).values()))]
    nb = int(rng.integers(0, len(faced) + 1)) if nb is None else min(nb, len(faced))
    bd = []
    for b in [int(v) for v in rng.permutation(faced)[:nb]]:
        k = int(rng.integers(3))
        name = str(rng.choice([PN, RN, GN][k]))
        val = [[0.0, 4000.0, float(np.round(rng.uniform(3000, 5000), 2))], [0.0, 25.0, -40.0], [0.0, .1, -.3]][k][int(rng.integers(3))]
        bd.append([b, name, val])
    m["bd"] = bd
    m["w"] = []
    if wells is None:
        wells = int(rng.integers(0, 3))
    if R.flow in ("x", "xy", "xyz"):
        for c in [int(v) for v in rng.permutation(R.interior)[:wells]]:
            w = dict(cell_id=c, r=float(rng.uniform(.5, 3.5)), s=float(rng.choice([0, 1.5])))
            t = int(rng.integers(3))
            if limits:
                w["q"] = float(rng.choice([-300, -50, -5, -1000]))
                w["pwf"] = float(rng.choice([3900, 3500, 2000, 3990]))
                if rng.random() < .25:
                    del w["q"]
            elif t == 0:
                w["q"] = float(rng.choice([-1e-2, 3.0, -2.0]))
            elif t == 1:
                w["pwf"] = float(rng.choice([3000.0, 3900.0, 0.0]))
            else:
                w["q"], w["pwf"] = -1e-3, 1.0
            m["w"].append(w)
    if m["cf"] + gs["comp"] == 0 and not any(b[1].lower()[0] == "p" for b in bd):
        if faced:  # an incompressible model needs a pressure somewhere
            b = faced[0]
            m["bd"] = [x for x in bd if x[0] != b] + [[b, "pressure", 4000.0]]
    return m


def build_model(m, grid=None):
    g = grid if grid is not None else build_grid(m["grid"])
    F = rf().fluids.SinglePhase(mu=m["mu"], B=m["B"], rho=m["rho"], comp=m["cf"], unit=m["unit"])
    pi = np.array(m["pi"]) if isinstance(m["pi"], list) else m["pi"]
    M = rf().models.BlackOil(g, F, pi=pi, dt=m["dt"], unit=m["unit"], start_date=datetime.date(2020, 1, 1))
    for w in m["w"]:
        M.set_well(**w)
    if m["bd"]:
        M.set_boundaries({b: (n, v) for b, n, v in m["bd"]})
    return M


class Flow(GridRef):
    """Independent mass conservation of every interior cell."""

    def __init__(self, m):
        super().__init__(m["grid"])
        self.m = m
        self.muB = m["mu"] * m["B"]
        self.comp = m["cf"] + m["grid"]["comp"]
        fa = {"field": (0.21584e-3, 32.174), "metric": (0.001, 9.806635), "lab": (0.986923e-6, 980.6635)}[m["unit"]]
        self.grav = fa[0] * m["rho"] * fa[1]
        self.c = C[m["unit"]]
        n = len(self.ids)
        self.RHS = np.array([self.volume(c) for c in self.ids]) * self.props["phi"] * self.comp / (ALPHA[m["unit"]] * m["B"] * m["dt"])
        self.pos = {c: t for t, c in enumerate(self.interior)}
        self.bd = {b: (v[0].lower()[0], v[1]) for b, *v in [(x[0], x[1], x[2]) for x in m["bd"]]}
        self.bd = {b: ({"p": "p", "r": "q", "q": "q", "g": "g"}[k], v) for b, (k, v) in self.bd.items()}

    def T(self, c, b):
        return self.G(c, b) / self.muB

    def well_G(self, w):
        i = w["cell_id"]
        kx, ky = self.props["kx"][i], self.props["ky"][i]
        dx, dy, dz = (self.size(i, a) for a in range(3))
        if self.flow == "x":
            req, kH = 0.14 * (dx**2 + dy**2) ** .5, kx
        else:
            req = 0.28 * ((ky / kx) ** .5 * dx**2 + (kx / ky) ** .5 * dy**2) ** .5 / ((ky / kx) ** .25 + (kx / ky) ** .25)
            kH = (kx * ky) ** .5
        return 2 * np.pi * self.c * kH * dz / (np.log(12 * req / w["r"]) + w.get("s", 0))

    def touch(self, b):
        return [c for c in sum(self.interior_faces(b).values(), [])]

    def bterm(self, b):
        """(constant, coefficient of p_cell, cell) of the flux through boundary b."""
        c = self.touch(b)[0]
        k, v = self.bd[b]
        T, z = self.T(c, b), self.props["z"]
        if k == "p":
            return 2 * T * (v - self.grav * (z[b] - z[c])), -2 * T, c
        if k == "q":
            return v, 0.0, c
        return T * self.size(c, self.axis(c, b)) * v, 0.0, c

    def system(self, p_old, wells):
        """rows A p = d of: sum fluxes - RHS p = - RHS p_old; wells: {cell: ('q', q) | ('pwf', limit, G)}."""
        n = len(self.interior)
        A, d = np.zeros((n, n)), np.zeros(n)
        z = self.props["z"]
        for c in self.interior:
            r = self.pos[c]
            for b in sum(self.interior_faces(c).values(), []):
                T = self.T(c, b)
                A[r, self.pos[b]] += T
                A[r, r] -= T
                d[r] += T * self.grav * (z[b] - z[c])
            A[r, r] -= self.RHS[c]
            d[r] -= self.RHS[c] * p_old[c] if self.RHS[c] else 0
        for b in self.bd:
            k0, k1, c = self.bterm(b)
            A[self.pos[c], self.pos[c]] += k1
            d[self.pos[c]] -= k0
        for c, w in wells.items():
            r = self.pos[c]
            if w[0] == "q":
                d[r] -= w[1]
            else:
                A[r, r] -= w[2] / self.muB
                d[r] -= w[2] / self.muB * w[1]
        return A, d

    def start_wells(self):
        o = {}
        for w in self.m["w"]:
            G = self.well_G(w)
            o[w["cell_id"]] = ("q", w["q"]) if "q" in w else ("pwf", w["pwf"], G)
        return o

    def p0(self):
        p = np.full(len(self.ids), np.nan)
        p[self.interior] = self.m["pi"]
        for b, (k, v) in self.bd.items():
            if k == "p":
                p[b] = v
        return p


def dense(M):
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)


def rows_equal(A, d, A0, d0):
    """Same equations, each row up to a non-zero factor."""
    A, d = dense(A), dense(d).reshape(-1)
    for r in range(len(d)):
        a, b = np.append(A[r], d[r]).astype(float), np.append(A0[r], d0[r])
        t = int(np.argmax(np.abs(b)))
        if a[t] == 0 or not np.all(np.isfinite(a)):
            return r
        a = a * (b[t] / a[t])
        k = int(np.argmax(np.abs(b[:-1]))) if np.abs(b[:-1]).max() else t
        if abs(a[k] - b[k]) > 1e-7 * abs(b[k]):
            return r
        s = b[k] / a[k]
        if not np.allclose(a[:-1] * s, b[:-1], rtol=1e-7, atol=1e-9 * np.abs(b[:-1]).max()):
            return r
        if abs(a[-1] * s - b[-1]) > 1e-7 * (abs(b[-1]) + np.abs(b[:-1]).max() * 1e-3):
            return r
    return None


def sim_cases(rng, tier, reps=1, small=False, **kw):
    lst = [s for s in list(SHAPES) + [(4, 1, 1), (1, 5, 1), (4, 2, 1), (5, 1, 3), (1, 4, 3), (2, 3, 4)]]
    if small:
        lst = [s for s in lst if np.prod(s) <= 12]
        rng.shuffle(lst)
        lst = [tuple(int(v) for v in s) for s in lst]
    lst = lst * (reps if tier == "quick" else reps * 4)
    styles = ["all", "uniform", "hetero", "near", "irregular", "layered"]
    for t, s in enumerate(lst):
        gs = grid_spec(rng, s, bool((t + t // len(SHAPES)) % 2), styles[t % 6], unit=["field", "field", "metric", "lab"][int(rng.integers(4))] if not kw.get("field") else "field")
        if isinstance(gs["z"], list) and rng.random() < .3:
            gs["z"] = 0.0
        k = {a: b for a, b in kw.items() if a != "field"}
        m = model_spec(rng, gs, **k)
        if m["w"]:
            gs["unit"] = m["unit"] = "field"
        yield dict(model=m, sparse=bool(rng.random() < .5), seed=int(rng.integers(1 << 30)))


class _Assembly:
    @classmethod
    def check(cls, c):
        quiet(cls._check, c)

    @classmethod
    def _check(cls, c):
        m = c["model"]
        f = Flow(m)
        M = build_model(m)
        M.compile("numerical", "fdm", c["sparse"])
        s = M.solution
        wells = f.start_wells()
        p_old = f.p0()
        for step in range(3):
            limit_ok = True
            A0, d0 = f.system(p_old, wells)
            if step != 1 or c["seed"] % 2:
                A, d = cls.matrices(s)
                r = rows_equal(A, d, A0, d0)
                require(r is None, f"{cls.what}: row of cell {None if r is None else f.interior[r]} in step {step} (sparse={c['sparse']})", None if r is None else (dense(A)[r].tolist(), float(dense(d).reshape(-1)[r])), None if r is None else (A0[r].tolist(), d0[r]))
            cls.extra(M, s, f, p_old, wells, A0, d0)
            try:
                np.linalg.cholesky(-A0)
            except np.linalg.LinAlgError:
                return
            p = np.linalg.solve(A0, d0)
            for w in m["w"]:  # a violated limit belongs to C11
                if "q" in w:
                    q = w["q"]
                    if p[f.pos[w["cell_id"]]] + q * f.muB / f.well_G(w) <= w.get("pwf", 0) + 1e-6:
                        limit_ok = False
            if not limit_ok:
                return
            s.solve(vectorize=cls.vec, isolver=None, threading=False)
            got = s.pressures[-1][f.interior]
            require(np.allclose(got, p, rtol=1e-6, atol=1e-5), f"{cls.what}: pressures of step {step + 1}", got.tolist(), p.tolist())
            if step == 0:
                A, d = (s.As[1].reshape(len(p), -1), s.ds[1])
                r = rows_equal(A, d, A0, d0)
                require(r is None, f"{cls.what}: stored system of the step", r)
            p_old = p_old.copy()
            p_old[f.interior] = p


class C08(_Assembly):
    what, vec = "vectorized equations", True
    rule = "all shapes in {1,2,3}^3 and larger x rock/fluid values x random sets of boundary conditions and wells x first and later steps; non-trivial: compared with an independent assembly"

    @staticmethod
    def cases(rng, tier):
        yield from sim_cases(rng, tier, 5)

    @staticmethod
    def matrices(s):
        return s.get_matrices_vect()

    @staticmethod
    def extra(*a):
        pass


class C09(_Assembly):
    what, vec = "symbolic equations", False
    rule = C08.rule

    @staticmethod
    def cases(rng, tier):
        yield from sim_cases(rng, tier, 2, small=True)

    @staticmethod
    def matrices(s):
        return s.get_matrices_symb()

    @staticmethod
    def extra(M, s, f, p_old, wells, A0, d0):
        for c in f.interior:
            lhs, rhs = s.get_cell_eq(c)
            A, d = np.zeros((1, len(d0))), np.array([float(rhs)])
            for k, v in lhs.items():
                name = str(k)
                if name == "1":
                    d[0] -= float(v)
                    continue
                require(name[0] == "p" and int(name[1:]) in f.pos, "unknown in the equation", name, c)
                A[0, f.pos[int(name[1:])]] += float(v)
            r = f.pos[c]
            require(rows_equal(A, d, A0[r : r + 1], d0[r : r + 1]) is None, "equation of cell", c, (A[0].tolist(), d[0]), (A0[r].tolist(), d0[r]))


class C10:
    rule = "every boundary cell x accepted name in several cases x values incl. zero, set one by one, as a dict, all at once, before and after compile; rejected names and cells"

    @staticmethod
    def cases(rng, tier):
        for c in sim_cases(rng, tier, 3, wells=0, uniform_pi=True, field=True):
            m = c["model"]
            if not m["cf"]:
                m["cf"] = 1e-5
            c["how"] = str(rng.choice(["dict", "each", "after", "later"]))
            c["all"] = [str(rng.choice(PN + RN + GN)), float(rng.choice([0, 4000, 3900.5, 3]))]
            c["vec"] = bool(rng.random() < .7) or len(Ref(*m["grid"]["shape"]).interior) > 9
            yield c

    @staticmethod
    def check(c):
        quiet(C10._check, c)

    @staticmethod
    def _run(M, c, n=2):
        if M.solution is None:
            M.compile("numerical", "fdm", c["sparse"])
        for _ in range(n):
            M.solution.solve(vectorize=c["vec"], isolver=None, threading=False)
        return M.solution

    @staticmethod
    def _expect(f, n=2):
        p = f.p0()
        hist = [p]
        for _ in range(n):
            A, d = f.system(p, {})
            p = p.copy()
            p[f.interior] = np.linalg.solve(A, d)
            hist.append(p)
        return hist

    @staticmethod
    def _verify(s, f, hist, what):
        for t, p in enumerate(hist):
            require(np.allclose(s.pressures[t][f.interior], p[f.interior], rtol=1e-7, atol=1e-5), f"{what}: pressures of step {t}", s.pressures[t].tolist(), p.tolist())
            for b in f.bd:
                k0, k1, cc = f.bterm(b)
                want = k0 + (k1 * p[cc] if k1 else 0)
                if t > 0 or f.bd[b][0] != "p":
                    require(np.allclose(s.rates[t][b], want, rtol=1e-6, atol=1e-4), f"{what}: rate of boundary {b} in step {t}", s.rates[t][b], want)
                if f.bd[b][0] == "p":
                    require(s.pressures[t][b] == f.bd[b][1], f"{what}: pressure of boundary {b} in step {t}", s.pressures[t][b])
            for b in f.boundary:
                if b not in f.bd:
                    require(s.rates[t][b] == 0, f"{what}: rate of the closed boundary {b}", s.rates[t][b])

    @staticmethod
    def _check(c):
        m = c["model"]
        f = Flow(m)
        hist = C10._expect(f)
        M = build_model(dict(m, bd=[] if c["how"] != "dict" else m["bd"]))
        if c["how"] == "later":
            M.compile("numerical", "fdm", c["sparse"])
            M.set_boundaries({b: (n, v) for b, n, v in m["bd"]})
        elif c["how"] in ("each", "after"):
            if c["how"] == "after":
                M.compile("numerical", "fdm", c["sparse"])
            for b, n, v in m["bd"]:
                M.set_boundary(b, n, v)
        C10._verify(C10._run(M, c), f, hist, "boundaries set by " + c["how"])
        # all at once == each of them
        name, v = c["all"]
        kind = {"p": "p", "r": "q", "q": "q", "g": "g"}[name.lower()[0]]
        fa = [b for b in f.boundary if f.touch(b)]
        m2 = dict(m, bd=[[b, name, v] for b in fa])
        f2 = Flow(m2)
        hist2 = C10._expect(f2)
        M2 = build_model(dict(m, bd=[]))
        M2.set_all_boundaries(name, v)
        s2 = C10._run(M2, c)
        for t, p in enumerate(hist2):
            require(np.allclose(s2.pressures[t][f.interior], p[f.interior], rtol=1e-7, atol=1e-5), f"set_all_boundaries({name!r}, {v}): pressures of step {t}", s2.pressures[t].tolist(), p.tolist())
            for b in fa:
                k0, k1, cc = f2.bterm(b)
                if t > 0 or kind != "p":
                    require(np.allclose(s2.rates[t][b], k0 + (k1 * p[cc] if k1 else 0), rtol=1e-6, atol=1e-4), f"set_all_boundaries({name!r}): rate of boundary {b} in step {t}")
        M3 = build_model(dict(m, bd=[]))
        M3.set_boundaries({b: (name, v) for b in f.boundary})
        s3 = C10._run(M3, c)
        require(np.allclose(s3.pressures[:, f.interior], s2.pressures[:, f.interior]) and np.allclose(s3.rates, s2.rates), "setting all boundaries differs from setting each")
        # rejected
        M4 = build_model(dict(m, bd=[]))
        for nm in ("", "flux", "pressures", "r", "x", "const p"):
            require(raises(M4.set_boundary, f.boundary[0], nm, 1.0), "unknown condition accepted", nm)
        for cell in [*f.interior[:3], -1, len(f.ids), len(f.ids) + 3]:
            require(raises(M4.set_boundaries, {cell: ("pressure", 1.0)}), "condition in a cell that is no boundary cell accepted", cell)
            for nm in ("pressure", "rate", "gradient"):
                require(raises(M4.set_boundary, cell, nm, 1.0), "condition in a cell that is no boundary cell accepted by set_boundary", cell, nm)


class C11:
    rule = "random limits, targets, boundary conditions and numbers of wells over 8 steps, run in random chunks; non-trivial: wells with a limit"

    @staticmethod
    def cases(rng, tier):
        for t, c in enumerate(sim_cases(rng, tier, 4, limits=True, field=True, uniform_pi=True)):
            if not c["model"]["w"]:
                continue
            if not c["model"]["cf"]:
                c["model"]["cf"] = 1e-5
            c["vec"] = len(Ref(*c["model"]["grid"]["shape"]).interior) > 6 or bool(rng.random() < .7)
            c["change"] = [int(rng.integers(2, 7)), float(rng.choice([-1.0, -600.0]))] if rng.random() < .3 else None
            yield c
        # a well that becomes feasible again: strong pressure support far away
        for k in range(6 if tier == "quick" else 30):
            gs = grid_spec(rng, (int(rng.integers(2, 5)), 1, 1), bool(k % 2), "uniform")
            m = dict(grid=gs, mu=1.0, B=1.0, rho=0.0, cf=1e-5, dt=int(rng.integers(1, 4)), unit="field", pi=float(rng.choice([2050, 2500, 2900])), bd=[[gs["shape"][0] + 1, "pressure", 6000.0]],
                     w=[dict(cell_id=1, q=float(-rng.uniform(1, 30)), pwf=2000.0, r=3.5, s=0.0)])
            gs["d"] = [300.0, 350.0, 40.0]
            gs["kx"] = float(rng.choice([2, 5, 20]))
            gs["phi"], gs["comp"] = .27, 1e-6
            yield dict(model=m, sparse=bool(k % 3), seed=k, vec=bool(k % 2), change=None, steps=25)

    @staticmethod
    def check(c):
        quiet(C11._check, c)

    @staticmethod
    def _check(c):
        m = json.loads(json.dumps(c["model"]))
        f = Flow(m)
        M = build_model(m)
        M.compile("numerical", "fdm", c["sparse"])
        s = M.solution
        W = {w["cell_id"]: w for w in m["w"]}
        steps = c.get("steps", 8)
        state = {i: ("q" if "q" in w else "pwf") for i, w in W.items()}
        p = f.p0()
        for t in range(1, steps + 1):
            if c["change"] and c["change"][0] == t:
                i = m["w"][0]["cell_id"]
                W[i]["q"] = c["change"][1]
                M.set_well(cell_id=i, q=c["change"][1])
                state[i] = "q"
            s.solve(vectorize=c["vec"], isolver=None, threading=False)
            require(s.tstep == t and s.rates.shape[0] == t + 1, "one level per step", s.tstep, s.rates.shape)
            pr, q = s.pressures[t], s.rates[t]
            used = {}
            for i, w in W.items():
                G = f.well_G(w)
                lim = w.get("pwf", 0.0)
                J = G / f.muB
                pw = M.w_pressures[i][t]
                require(len(M.w_pressures[i]) == t + 1, "length of the pressure history of the well", i, len(M.w_pressures[i]), t + 1)
                tol = 1e-6 * (1 + abs(lim)) + 1e-6
                at_q = "q" in w and np.isclose(q[i], w["q"], rtol=1e-9) and abs(pw - (pr[i] + w["q"] / J)) < tol and pw >= lim - tol
                at_p = abs(pw - lim) < tol and np.isclose(q[i], -J * (pr[i] - lim), rtol=1e-6, atol=1e-6)
                require(at_q or at_p, f"well {i} in step {t}: neither its target nor its limit", dict(q=q[i], target=w.get("q"), pwf=pw, limit=lim, p=pr[i], at_limit_rate=-J * (pr[i] - lim)))
                used[i] = ("q", w["q"]) if at_q else ("pwf", lim, G)
                if at_p and not at_q and "q" in w and pr[i] + w["q"] / J > lim + 1:
                    # target estimated feasible although held at the limit: allowed only in the step of the return
                    require(state[i] != "q!", f"well {i} not returned to its target in step {t}", pr[i] + w["q"] / J, lim)
                    state[i] = "ret"
                elif at_p and not at_q:
                    state[i] = "pwf"
                else:
                    state[i] = "q"
            # reported rates and pressures satisfy the solved equations
            A, d = f.system(p, used)
            res = A @ pr[f.interior] - d
            require(np.abs(res).max() <= 1e-6 * (np.abs(A).max() * np.abs(pr[f.interior]).max() + 1), f"step {t}: reported wells do not satisfy the equations", np.abs(res).max(), {k: v[0] for k, v in used.items()})
            # a well whose target was feasible at the last step must have tried it: then at the limit only if infeasible there
            for i, w in W.items():
                if used[i][0] == "pwf" and "q" in w and len(W) == 1:
                    tr = dict(used)
                    tr[i] = ("q", w["q"])
                    A2, d2 = f.system(p, tr)
                    pq = np.linalg.solve(A2, d2)[f.pos[i]] + w["q"] / (f.well_G(w) / f.muB)
                    if prev_feasible.get(i) if t > 1 else True:
                        require(pq <= w.get("pwf", 0) + 1e-3, f"well {i} held at its limit in step {t} although its target is feasible", pq, w.get("pwf", 0))
                if used[i][0] == "q" and len(W) == 1:
                    pass
            prev_feasible = {i: "q" in w and pr[i] + w["q"] / (f.well_G(w) / f.muB) > w.get("pwf", 0) + 1e-6 for i, w in W.items()}
            p = pr.copy()


class C12:
    rule = "random models with wells and mixed conditions, up to 4 steps; non-trivial: non-zero rates"

    @staticmethod
    def cases(rng, tier):
        for t, c in enumerate(sim_cases(rng, tier, 4, limits=True)):
            c["vec"] = len(Ref(*c["model"]["grid"]["shape"]).interior) > 6 or bool(rng.random() < .7)
            c["corner"] = bool(rng.random() < .3)
            yield c
        for c in sim_cases(rng, tier, 1, limits=True, comp=0.0):
            c["vec"] = True
            c["corner"] = False
            yield c

    @staticmethod
    def check(c):
        quiet(C12._check, c)

    @staticmethod
    def _check(c):
        m = c["model"]
        f = Flow(m)
        M = build_model(m)
        if c["corner"] and m["bd"]:
            for b in f.boundary:
                if not f.touch(b):
                    M.set_boundary(b, "rate", 17.0)
        M.compile("numerical", "fdm", c["sparse"])
        s = M.solution
        comp = f.comp > 0
        Tmax = np.abs(f.system(f.p0(), {})[0]).max()
        for t in range(1, 5):
            thr = [0.1, 1e-30, 1e30][t % 3]
            with warnings.catch_warnings(record=True) as wl:
                warnings.simplefilter("always")
                s.solve(vectorize=c["vec"], isolver=None, threading=False)
                del wl[:]
                s.check_MB(error_threshold=thr)
                warned = any("material balance" in str(w.message).lower() for w in wl)
            p1, p0 = s.pressures[t][f.interior], s.pressures[t - 1][f.interior]
            acc = (f.RHS[f.interior] * (p1 - p0)).sum()
            qs = s.rates[t].sum()
            scale = np.abs(s.rates[t]).sum() + np.abs(f.RHS[f.interior] * (p1 - p0)).sum() + 1e-9 * np.abs(f.RHS * 4000).sum() + 1e-3 + 1e-6 * Tmax * 4000
            require(abs(acc - qs) <= 1e-5 * scale, f"mass balance of step {t}", acc, qs)
            with np.errstate(all="ignore"):
                want = abs(acc / qs - 1) if comp else qs
            require((np.isnan(want) and np.isnan(s.error)) or np.isclose(s.error, want, rtol=1e-6, atol=1e-6 if not comp else 1e-6 + 1e-6 / max(abs(qs), 1e-30)), f"reported error of step {t}", s.error, want)
            if not np.isnan(s.error):
                require(warned == (abs(s.error) > thr), "warning about the balance error", s.error, thr, warned)


class C13:
    rule = "random sequences of solve / run / solve(update=False) with random options; non-trivial: at least one accepted step"

    @staticmethod
    def cases(rng, tier):
        for c in sim_cases(rng, tier, 3, limits=True, field=True, small=True):
            ops = []
            for _ in range(int(rng.integers(2, 5))):
                k = str(rng.choice(["solve", "run", "dry", "solve"]))
                ops.append([k, int(rng.integers(0, 4)), bool(rng.random() < .6), bool(rng.random() < .5), bool(rng.random() < .3)])
            c["ops"] = ops
            yield c

    @staticmethod
    def check(c):
        quiet(C13._check, c)

    @staticmethod
    def _check(c):
        m = c["model"]
        f = Flow(m)
        M = build_model(m)
        M.compile("numerical", "fdm", c["sparse"])
        s = M.solution
        n = 0
        N = len(f.ids)
        for k, cnt, vec, mb, thr in c["ops"]:
            P, Q = s.pressures.copy(), s.rates.copy()
            wp = {i: list(v) for i, v in M.w_pressures.items()}
            if k == "solve":
                s.solve(vectorize=vec, check_MB=mb, isolver=None, threading=thr)
                add = 1
            elif k == "dry":
                wl = json.dumps({str(i): {a: float(b) if not isinstance(b, (str, type(None))) else b for a, b in w.items()} for i, w in M.wells.items()}, sort_keys=True)
                s.solve(vectorize=vec, check_MB=False, update=False, isolver=None, threading=thr)
                add = 0
                require(json.dumps({str(i): {a: float(b) if not isinstance(b, (str, type(None))) else b for a, b in w.items()} for i, w in M.wells.items()}, sort_keys=True) == wl, "solve without update changed the wells")
            else:
                s.run(nsteps=cnt, vectorize=vec, check_MB=mb and cnt > 0, isolver=None, threading=thr)
                add = cnt
            require(s.tstep == n + add, f"{k}: step counter", s.tstep, n + add)
            require(s.pressures.shape == (n + add + 1, N) and s.rates.shape == (n + add + 1, N), f"{k}: number of levels", s.pressures.shape, s.rates.shape)
            require(np.array_equal(s.pressures[: n + 1], P, equal_nan=True) and np.array_equal(s.rates[: n + 1], Q, equal_nan=True), f"{k}: earlier levels changed")
            require(tuple(int(v) for v in M.get_shape(True)) == (n + add + 1, N) and s.nsteps == n + add + 1, f"{k}: reported shape", M.get_shape(True))
            require(len(s.As) == len(s.ds) == n + add + 1, f"{k}: stored systems", len(s.As), len(s.ds))
            for i, v in M.w_pressures.items():
                require(len(v) == n + add + 1 and v[: n + 1] == wp[i], f"{k}: pressure history of well {i}")
            for t in range(n + 1, n + add + 1):
                A, d, p = s.As[t].reshape(len(f.interior), -1), np.asarray(s.ds[t]).reshape(-1), s.pressures[t][f.interior]
                require(np.allclose(A @ p, d, rtol=1e-6, atol=1e-7 * np.abs(A).max() * np.abs(p).max()), f"{k}: interior pressures do not solve the system of step {t}")
                require(np.array_equal(s.pressures[t][f.boundary], s.pressures[t - 1][f.boundary], equal_nan=True), f"{k}: boundary pressures not carried over in step {t}")
            n += add


def fingerprint(g, F):
    o = {}
    for nm in ("kx", "ky", "kz", "phi", "z", "dx", "dy", "dz", "Ax", "Ay", "Az", "V"):
        o[nm] = np.asarray(getattr(g, nm)).tobytes()
    for b in (True, False):
        for fn in ("get_zeros", "get_ones"):
            o[fn + str(b)] = np.asarray(getattr(g, fn)(b, False, False)).tobytes()
        o["ids" + str(b)] = np.asarray(g.get_cells_id(b, False, "array")).tobytes()
        o["order" + str(b)] = np.asarray(g.get_order("natural", b, False)).tobytes()
        o["i" + str(b)] = np.asarray(g.get_cells_i(b)).tobytes()
        o["V" + str(b)] = np.asarray(g.get_cells_V(b, False, False)).tobytes()
    o["G"] = str(g.get_cells_G(False, False).tolist())
    o["bnd"] = str(g.get_boundaries("id", "tuple"))
    o["cells_id"] = g.cells_id.tobytes()
    o["nb"] = str([g.get_cell_neighbors(int(i), None, False, "dict") for i in g.cells_id])
    o["G1"] = str([g.get_cell_G(int(i), None, True) for i in g.cells_id[:5]])
    o["comp"] = (g.comp, g.comp_type, F.mu, F.B, F.rho, F.g, F.comp, F.comp_type)
    return o


class C14:
    rule = "two or three models on one grid and fluid, with their own conditions and wells, created / compiled / run in random interleavings, compared with each model alone; several solutions of one model; non-trivial: at least two models"

    @staticmethod
    def cases(rng, tier):
        for c in sim_cases(rng, tier, 2, limits=True, field=True, small=True):
            gs = c["model"]["grid"]
            ms = [c["model"]] + [model_spec(rng, gs, limits=True) for _ in range(int(rng.integers(1, 3)))]
            for m in ms[1:]:
                m["unit"] = ms[0]["unit"]
                for k in ("mu", "B", "rho", "cf"):
                    m[k] = ms[0][k]
                m["bd"] = m["bd"] or [[Flow(m).boundary[0], "q", 0.0]]
                if ms[0]["cf"] + gs["comp"] == 0:
                    m["bd"] = ms[0]["bd"] + [x for x in m["bd"] if x[0] not in {y[0] for y in ms[0]["bd"]}]
            ops = []
            for _ in range(8):
                ops.append([str(rng.choice(["solve", "new", "query", "solve"])), int(rng.integers(len(ms))), bool(rng.random() < .6)])
            yield dict(models=ms, ops=ops, sparse=c["sparse"], kind="models")
        for k in range(8):
            yield dict(kind="solutions", seed=int(rng.integers(1 << 30)), wells=False)
        yield dict(kind="solutions", seed=1, wells=True)

    @staticmethod
    def known(case, msg):
        if case.get("kind") == "solutions" and case.get("wells") and "rate-limited well" in msg:
            return "second-solution-after-rate-limited-well"
        return None

    @staticmethod
    def check(c):
        quiet(C14._check, c)

    @staticmethod
    def _check(c):
        if c["kind"] == "solutions":
            return C14._solutions(c)
        ms = c["models"]

        def alone(k):
            M = build_model(ms[k])
            M.compile("numerical", "fdm", c["sparse"])
            return M
        g = build_grid(ms[0]["grid"])
        m0 = ms[0]
        F = rf().fluids.SinglePhase(mu=m0["mu"], B=m0["B"], rho=m0["rho"], comp=m0["cf"], unit=m0["unit"])
        fp = fingerprint(g, F)
        refs, objs = {}, {}
        handed = []

        def shared(k):
            m = ms[k]
            pi = np.array(m["pi"]) if isinstance(m["pi"], list) else m["pi"]
            pic = np.copy(pi)
            M = rf().models.BlackOil(g, F, pi=pi, dt=m["dt"], unit=m["unit"])
            for w in m["w"]:
                M.set_well(**w)
            bd = {b: (n, v) for b, n, v in m["bd"]}
            bc = dict(bd)
            if bd:
                M.set_boundaries(bd)
            require(bd == bc and np.array_equal(pi, pic), "arguments changed by the model")
            M.compile("numerical", "fdm", c["sparse"])
            return M
        for op, k, vec in c["ops"]:
            if k not in objs or op == "new":
                objs[k], refs[k] = shared(k), alone(k)
            if op == "solve":
                for M in (objs[k], refs[k]):
                    M.solution.solve(vectorize=vec, isolver=None, threading=False)
            if op == "query":
                for a in (g.get_zeros(True, False, False), g.get_zeros(False, False, False), g.get_ones(True, False, False), g.get_cells_id(False, False, "array"), objs[k].get_init_arrays()[0], objs[k].get_init_arrays()[1],
                          objs[k].get_cells_trans(False, False, True), g.get_cells_V(True)):
                    handed.append((a, a.copy()))
            for j in objs:
                require(np.allclose(objs[j].solution.pressures, refs[j].solution.pressures, rtol=1e-9, equal_nan=True) and np.allclose(objs[j].solution.rates, refs[j].solution.rates, rtol=1e-9, equal_nan=True), f"model {j} differs from the same model alone after {op} of model {k}")
            for a, b in handed:
                require(np.array_equal(a, b, equal_nan=True), "an array handed out earlier changed")
        now = fingerprint(g, F)
        for k in fp:
            require(fp[k] == now[k], f"models changed the grid or fluid: {k}")

    @staticmethod
    def _solutions(c):
        rng = np.random.default_rng(c["seed"])

        def mk():
            g = rf().grids.RegularCartesian(4, 1, 1, 300, 350, 40, kx=270, phi=.27, comp=1e-6)
            F = rf().fluids.SinglePhase(mu=.5, B=1, rho=50, comp=1e-5)
            M = rf().models.BlackOil(g, F, pi=4000, dt=5)
            if c["wells"]:
                M.set_well(cell_id=4, q=-600, s=1.5, r=3.5, pwf=3900)
            M.set_boundaries({0: ("pressure", 4000), 5: ("rate", 0.0)} if c["wells"] else {0: ("pressure", 4200), 5: ("pressure", 3900)})
            return M
        M = mk()
        kinds = [("numerical", "fdm", True), ("numerical", "fdm", False), ("analytical", "d1p1", True)]
        if c["wells"]:
            kinds = kinds[:2]
        alone, names = {}, {}
        for k in kinds:
            A = mk()
            A.compile(*k)
            if k[0] == "numerical":
                for _ in range(3):
                    A.solution.solve(isolver=None, threading=False)
            else:
                A.solution.run(nsteps=3)
            alone[k] = A.solution
        for t in rng.permutation(len(kinds)):
            before = set(M.get_solutions())
            M.compile(*kinds[t])
            new = set(M.get_solutions()) - before
            require(len(new) == 1 and before <= set(M.get_solutions()), "compile adds one solution", M.get_solutions())
            names[kinds[t]] = new.pop()
            require(M.solution is M.solutions[names[kinds[t]]], "compiled solution is current")
        objs = {k: M.solutions[n] for k, n in names.items()}
        require(len({id(o) for o in objs.values()}) == len(kinds), "solutions are distinct objects")
        for t in rng.permutation(len(kinds)):
            k = kinds[t]
            M.set_solution(names[k])
            require(M.solution is objs[k] and M.solve == objs[k].solve and M.run == objs[k].run and str(M.compiler) == names[k], "selected solution is current", k)
            stored = {j: (objs[j].pressures.copy(), objs[j].rates.copy(), objs[j].tstep, objs[j].nsteps) for j in kinds if j != k}
            if k[0] == "numerical":
                for _ in range(3):
                    M.solve(isolver=None, threading=False)
            else:
                M.run(nsteps=3)
            for j in stored:
                p, q, a, b = stored[j]
                require(np.array_equal(objs[j].pressures, p, equal_nan=True) and np.array_equal(objs[j].rates, q) and (objs[j].tstep, objs[j].nsteps) == (a, b), "running one solution changed another", k, j)
            msg = "rate-limited well: solution differs from the same alone" if c["wells"] else "solution differs from the same alone"
            require(np.allclose(objs[k].pressures, alone[k].pressures, equal_nan=True) and np.allclose(objs[k].rates, alone[k].rates), msg, k)
        for k in kinds:
            M.set_solution(names[k])
            require(M.solution is objs[k], "selecting again")


class C15:
    rule = "random models run a random number of steps x column names x options; non-trivial: at least one step"

    @staticmethod
    def cases(rng, tier):
        cols = ["t", "time", "d", "date", "q", "rates", "cells", "cells_rate", "p", "pressures", "cells_pressure", "wells", "wells_rate", "wells_pressure", "Time", "P"]
        for c in sim_cases(rng, tier, 3, limits=True, field=True, small=True):
            c["n"] = int(rng.integers(0, 5))
            c["dt"] = c["model"]["dt"] = [c["model"]["dt"], 0.1, 0.3, 2.5][int(rng.integers(4))]
            c["cols"] = [[str(v) for v in rng.choice(cols, int(rng.integers(1, 3)), False)] for _ in range(4)]
            c["opt"] = [[bool(v) for v in rng.random(4) < .5] for _ in range(4)]
            yield c

    @staticmethod
    def check(c):
        quiet(C15._check, c)

    @staticmethod
    def _check(c):
        m = c["model"]
        f = Flow(m)
        M = build_model(m)
        M.compile("numerical", "fdm", c["sparse"])
        s = M.solution
        for _ in range(c["n"]):
            s.solve(isolver=None, threading=False)
        n = c["n"] + 1
        times = np.array([t * c["dt"] for t in range(n)])
        tv = np.asarray(M.get_time()).reshape(-1)
        require(tv.shape == (n,) and close(tv, times, 1e-12), "time vector", tv.tolist(), times.tolist())
        N = len(f.ids)
        wells = list(M.wells)
        groups = {"cells_rate": ["q", "rates", "cells", "cells_rate"], "cells_pressure": ["p", "pressures", "cells", "cells_pressure"], "wells_rate": ["q", "rates", "wells", "wells_rate"],
                  "wells_pressure": ["p", "pressures", "wells", "wells_pressure"], "time": ["t", "time"], "date": ["d", "date"]}
        dates = None
        if float(c["dt"]).is_integer():
            dates = [(datetime.date(2020, 1, 1) + datetime.timedelta(days=int(t))).strftime("%d.%m.%Y") for t in times]
        for cols, (b, units, dn, dz) in zip(c["cols"], c["opt"]):
            if dates is None and any(x.lower() in ("d", "date") for x in cols):
                continue
            if not wells and all(x.lower() in ("wells", "wells_rate", "wells_pressure") for x in cols):
                continue  # a table of no columns
            ids = f.ids if b else f.interior
            df = M.get_df(columns=cols, boundary=b, units=units, melt=False, scale=False, drop_nan=dn, drop_zero=dz)
            require(len(df) == n and list(df.index) == list(range(n)), "one row per level", len(df), n)
            exp = {}
            u = lambda name, un: name + (f" [{un}]" if units else "")
            order = []
            for x in [v.lower() for v in cols]:
                if x in groups["time"]:
                    order.append((u("Time", "days"), times))
                if x in groups["date"]:
                    order.append((u("Date", "d.m.y"), dates))
                if x in groups["cells_rate"]:
                    order += [(u(f"Q{i}", "stb/day"), s.rates[:, i]) for i in ids]
                if x in groups["cells_pressure"]:
                    order += [(u(f"P{i}", "psia"), s.pressures[:, i]) for i in ids]
                if x in groups["wells_rate"]:
                    order += [(u(f"Qw{i}", "stb/day"), s.rates[:, i]) for i in wells]
                if x in groups["wells_pressure"]:
                    order += [(u(f"Pwf{i}", "psia"), np.array(M.w_pressures[i], dtype=float)) for i in wells]
            def keep(v):
                if isinstance(v, list):
                    return True
                v = np.asarray(v, dtype=float)
                if dn and np.all(np.isnan(v)):
                    return False
                if dz and np.all(v == 0):
                    return False
                return True
            order = [(a, v) for a, v in order if keep(v)]
            require([str(x) for x in df.columns] == [a for a, _ in order], "columns", list(df.columns), [a for a, _ in order])
            for t, (a, v) in enumerate(order):
                col = df.iloc[:, t]
                ok = list(col) == v if isinstance(v, list) else close(col.to_numpy(dtype=float), v)
                require(ok, f"values of column {a}", col.tolist(), v)
            # melted
            df = M.get_df(columns=cols, boundary=b, units=units, melt=True, scale=False, drop_nan=False, drop_zero=dz)
            require(len(df) == n * len(ids), "one row per level and cell", len(df), n * len(ids))
            require(df["id"].tolist() == list(ids) * n and df["Step"].tolist() == [t for t in range(n) for _ in ids], "id and step of melted rows")
            for a, ax in enumerate("xyz"):
                if ax in f.flow:
                    require(close(df[ax].to_numpy(), np.array([f.center(i)[a] for i in ids] * n)), f"coordinate {ax} of melted rows")
            for x in [v.lower() for v in cols]:
                if x in groups["time"]:
                    require(close(df[[u("Time", "days")]].iloc[:, 0].to_numpy(), np.repeat(times, len(ids))), "time of melted rows")
                if x in groups["date"]:
                    require(df[[u("Date", "d.m.y")]].iloc[:, 0].tolist() == [d for d in dates for _ in ids], "date of melted rows")
                if x in groups["cells_rate"]:
                    q = df[u("Q", "stb/day")]
                    q = q if q.ndim == 1 else q.iloc[:, 0]
                    require(close(q.to_numpy(), s.rates[:, ids].reshape(-1)), "rates of melted rows")
                if x in groups["cells_pressure"]:
                    q = df[u("P", "psia")]
                    q = q if q.ndim == 1 else q.iloc[:, 0]
                    require(close(q.to_numpy(), s.pressures[:, ids].reshape(-1)), "pressures of melted rows")
            df2 = M.get_df(columns=cols, boundary=b, units=units, melt=True, scale=False, drop_nan=True)
            require(len(df2) == int((~df.isna().any(axis=1)).sum()), "melted rows without nan")
        for bad in ("velocity", "", "timee", "cell"):
            require(raises(M.get_df, columns=["time", bad]), "unknown column accepted", bad)
        t, x = M.get_domain(False, True)
        require(close(np.asarray(t).reshape(-1), times), "time domain")
        require(close(x, np.array([[f.center(i)["xyz".index(a)] for a in f.flow] for i in f.ids])), "space domain")


class C17:
    rule = "random 1D problems along x: pressures, sizes, numbers of cells, times, numbers of terms; compared with an independent series; non-trivial: pressures differ"

    @staticmethod
    def cases(rng, tier):
        for t in range(24 if tier == "quick" else 200):
            n = int(rng.integers(2, 9))
            p0, pn, pi = [float(v) for v in rng.permutation([4000.0, float(rng.uniform(3000, 3999)), float(rng.uniform(1000, 2999))])]
            if rng.random() < .3:
                pi = p0
            if rng.random() < .2:
                pn = pi
            if p0 == pn == pi:
                pn += 100
            d = float(rng.uniform(50, 400)) if rng.random() < .6 else [float(v) for v in rng.uniform(50, 400, n + 2)]
            yield dict(n=n, p=[p0, pn, pi], dx=d, kx=float(rng.uniform(1, 300)), phi=float(rng.uniform(.1, .3)), mu=float(rng.uniform(.3, 2)), B=float(rng.choice([1, 1.2])),
                       cf=1e-5, cr=float(rng.choice([0, 1e-6])), dt=int(rng.choice([1, 5, 30])), steps=int(rng.integers(1, 6)), N=int(rng.choice([1, 2, 3, 50, 1000])), unify=bool(t % 2), unit=["field", "metric", "lab"][t % 3], hist=str(rng.choice(["run", "calc", "both"])))

    @staticmethod
    def check(c):
        quiet(C17._check, c)

    @staticmethod
    def _series(c, x, t, N, clip):
        p0, pn, pi = c["p"]
        alpha = C[c["unit"]] * c["kx"] / (c["mu"] * c["B"]) / (c["phi"] * (c["cf"] + c["cr"]) / (ALPHA[c["unit"]] * c["B"]))
        L = x[-1] - x[0]
        X, T = np.meshgrid((x - x[0]) / L, t * alpha / L**2)
        P = p0 + (pn - p0) * X
        for n in range(1, N + 1):
            P = P + 2 / (n * np.pi) * ((pi - p0) + (pn - pi) * (-1) ** n) * np.sin(n * np.pi * X) * np.exp(-(n**2) * np.pi**2 * T)
        return np.clip(P, min(c["p"]), max(c["p"])) if clip else P

    @staticmethod
    def _check(c):
        dx = np.array(c["dx"]) if isinstance(c["dx"], list) else c["dx"]
        g = rf().grids.RegularCartesian(c["n"], 1, 1, dx, 350, 40, kx=c["kx"], phi=c["phi"], comp=c["cr"], unify=c["unify"], unit=c["unit"])
        F = rf().fluids.SinglePhase(mu=c["mu"], B=c["B"], rho=0, comp=c["cf"], unit=c["unit"])
        p0, pn, pi = c["p"]
        M = rf().models.BlackOil(g, F, pi=pi, dt=c["dt"], unit=c["unit"])
        M.set_boundaries({0: ("pressure", p0), c["n"] + 1: ("pressure", pn)})
        d = np.array(c["dx"]) if isinstance(c["dx"], list) else np.full(c["n"] + 2, c["dx"])
        x = np.cumsum(d) - d / 2
        M.compile("analytical", "d1p1", True)
        s = M.solution
        span = max(c["p"]) - min(c["p"])
        def laws(p, t, N):
            require(p.shape == (len(t), c["n"] + 2), "one row per level and one column per cell", p.shape)
            require(close(p[:, 0], np.full(len(t), p0), 1e-9) and close(p[:, -1], np.full(len(t), pn), 1e-9), "pressures at the ends", p[:, [0, -1]].tolist(), (p0, pn))
            require(p.min() >= min(c["p"]) - 1e-9 * span and p.max() <= max(c["p"]) + 1e-9 * span, "maximum principle", p.min(), p.max())
            w = C17._series(c, x, t, N, True)
            require(np.allclose(p, w, atol=1e-7 * span, rtol=0), "series", np.abs(p - w).max())
        if c["hist"] in ("calc", "both"):
            X, p = s.calc_solution(N=c["N"], clean=True)
            t = np.arange(s.tstep + 1) * c["dt"]
            laws(p, t, c["N"])
            require(close(X[..., 0], np.repeat(t[:, None], c["n"] + 2, 1)) and close(X[..., 1], np.repeat(x[None], len(t), 0)), "domain of the solution")
            X, p = s.calc_solution(N=c["N"], clean=False)
            require(np.allclose(p, C17._series(c, x, t, c["N"], False), atol=1e-7 * span, rtol=0), "series without clipping")
        if c["hist"] in ("run", "both"):
            s.run(nsteps=c["steps"])
            t = np.arange(c["steps"] + 1) * c["dt"]
            laws(s.pressures, t, 1000)
            require(tuple(int(v) for v in M.get_shape(True)) == (c["steps"] + 1, c["n"] + 2), "reported shape", M.get_shape(True))
