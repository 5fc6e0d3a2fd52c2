RC = "grids/regular_cartesian.py"
BO = "models/black_oil.py"
FD = "solutions/numerical/fdm.py"
D1 = "solutions/analytical/d1p1.py"
CP = "solutions/compiler.py"
MM = "scalers/minmax.py"
SP = "fluids/single_phase.py"
GRID = '''import itertools
import numpy as np
from reservoirflow import grids, fluids, models


def mk(nx, ny, nz, unify=True, seed=0, **kw):
    r = np.random.RandomState(seed)
    n = dict(x=nx, y=ny, z=nz)
    d = {a: (r.uniform(50, 90, n[a] + 2) if n[a] > 1 else float(r.uniform(50, 90))) for a in "xyz"}
    N = int(np.prod([n[a] + 2 if n[a] > 1 else 1 for a in "xyz"]))
    a = dict(kx=r.uniform(50, 99, N), ky=r.uniform(50, 99, N), kz=r.uniform(50, 99, N), phi=r.uniform(.1, .3, N), z=np.zeros(N))
    a.update(kw)
    return grids.RegularCartesian(nx=nx, ny=ny, nz=nz, dx=d["x"], dy=d["y"], dz=d["z"], unify=unify, **a), d


def mod(g, pi=4000.0, dt=1, comp=0, rho=50):
    f = fluids.SinglePhase(mu=1.5, B=1.1, rho=rho, comp=comp)
    return models.BlackOil(g, f, pi=pi, dt=dt)


def close(a, b):
    return np.allclose(a, b, rtol=1e-8, atol=1e-8)


'''
BAL = '''def balance(m, t, tol=1e-6):
    """largest violation of the mass conservation of an interior cell over step t"""
    g, s = m.grid, m.solution
    P, q = s.pressures, s.rates
    worst = 0
    for c in map(int, g.get_cells_id(False, False, "array")):
        tot = -m.RHS[c] * (P[t, c] - P[t - 1, c])
        for n, T in m.get_cell_trans(c, None, False).items():
            tot += T * ((P[t, n] - P[t, c]) - m.fluid.g * (g.z[n] - g.z[c]))
        for b in map(int, g.get_cell_boundaries(id=c, fmt="array")):
            if b in m.bdict:
                cond, v = m.bdict[b]
                if cond in ("pressure", "press", "p"):
                    (n, T), = m.get_cell_trans(b, None, False).items()
                    tot += 2 * T * ((v - P[t, c]) - m.fluid.g * (g.z[b] - g.z[c]))
                else:
                    tot += q[t, b]
        if c in m.wells:
            tot += q[t, c]
        worst = max(worst, abs(tot))
    assert worst < tol, worst


'''
VERT = """def vert(z, comp=0.0, pi=4000.0, n=3, **kw):
    N = n + 2
    g, _ = mk(1, 1, n, z=np.array(z, dtype=float), comp=comp, **kw)
    return g, mod(g, pi=pi, comp=comp)


"""
PLANTS = [
    dict(id="C08_second_pwf_well", property="C08", edits=[(FD, "                if not self.resolve[id]:\n", "                if not any(self.resolve.values()):\n")],
         needs="two wells held at their bottom-hole pressures", breaks="the matrix row of the second well lacks the part of its rate that depends on the cell pressure", demo=GRID + BAL + """for pws in ([1], [1, 5]):
    g, _ = mk(6, 1, 1, comp=1e-5)
    m = mod(g, comp=1e-5)
    for c in pws:
        m.set_well(cell_id=c, pwf=2000 + 100 * c, r=3, s=0)
    m.compile("numerical", "fdm", sparse=False)
    for t in (1, 2, 3):
        m.solution.solve(check_MB=False, isolver=None)
        balance(m, t, 1e-4)
"""),
    dict(id="C08_old_pressure_after_restart", property="C08", edits=[(FD, "        if self.model.comp_type == \"compressible\":\n            try:\n                self.d_[:] = (", "        if self.model.comp_type == \"compressible\" and self.model.comp > 1e-9:\n            try:\n                self.d_[:] = (")],
         needs="a nearly incompressible system", breaks="the accumulation term of the old pressure is left out although the matrix contains that of the new one", demo=GRID + BAL + """for comp in (1e-5, 5e-10):
    g, _ = mk(6, 1, 1, comp=comp)
    m = mod(g, comp=0)
    m.set_boundaries({0: ("pressure", 4000.0), 7: ("rate", -3.0)})
    m.compile("numerical", "fdm", sparse=False)
    for t in (1, 2):
        m.solution.solve(check_MB=False, isolver=None)
        balance(m, t, 1e-6)
"""),
    dict(id="C09_closed_accumulation", property="C09", edits=[(FD, "            if self.model.comp_type == \"compressible\":\n                terms[\"a_term\"]", "            if self.model.comp_type == \"compressible\" and (self.model.wells or self.model.bdict):\n                terms[\"a_term\"]")],
         needs="a closed reservoir without wells that is not in hydrostatic equilibrium, symbolic equations, second step", breaks="from the second step the accumulation term refers to the initial pressure", demo=GRID + BAL + """for vec in (True, False):
    g, _ = mk(1, 1, 3, z=np.array([0.0, 10, 60, 133, 140]), comp=1e-5)
    m = mod(g, comp=1e-5)
    m.set_boundaries({})
    m.compile("numerical", "fdm", sparse=False)
    for t in (1, 2, 3):
        m.solution.solve(check_MB=False, vectorize=vec, threading=False, isolver=None)
        balance(m, t, 1e-5)
"""),
    dict(id="C09_depth_absolute", property="C09", edits=[(FD, "        dz = self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id]\n", "        dz = abs(self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id])\n")],
         needs="cells at different depths, symbolic equations", breaks="gravity has the same sign for the upper and the lower neighbour", demo=GRID + BAL + """for vec in (True, False):
    g, _ = mk(4, 1, 1, z=np.array([0.0, 10, 60, 33, 40, 70]), comp=1e-5)
    m = mod(g, comp=1e-5)
    m.set_boundaries({0: ("pressure", 3900.0)})
    m.compile("numerical", "fdm", sparse=False)
    for t in (1, 2):
        m.solution.solve(check_MB=False, vectorize=vec, threading=False, isolver=None)
        balance(m, t, 1e-5)
"""),
    dict(id="C09_rows_of_wells_only_once", property="C09", edits=[(FD, "        ids = [self.model.cells_i_dict[int(str(s)[1:])] for s in cell_lhs.keys()]\n", "        ids = [self.model.cells_i_dict[int(str(s)[1])] if len(str(s)) < 4 and self.model.n > 98 else self.model.cells_i_dict[int(str(s)[1:])] for s in cell_lhs.keys()]\n")],
         needs="more than 98 cells, symbolic equations", breaks="coefficients are put in the column of the first digit of the cell id", demo=GRID + BAL + """for nx in (5, 100):
    g, _ = mk(nx, 1, 1, comp=1e-5)
    m = mod(g, comp=1e-5)
    m.set_boundaries({0: ("pressure", 3900.0)})
    m.compile("numerical", "fdm", sparse=False)
    m.solution.solve(check_MB=False, vectorize=False, threading=False, isolver=None)
    balance(m, 1, 1e-5)
"""),
    dict(id="C10_single_letter_upper", property="C10", edits=[(BO, "        cond = cond.lower()\n", "        cond = cond.lower() if len(cond) > 1 else cond\n")],
         needs="a one-letter condition in upper case", breaks="the name is rejected", demo=GRID + """res = []
for name in ("pressure", "Pressure", "PRESS", "p", "P"):
    g, _ = mk(3, 1, 1)
    m = mod(g)
    m.set_boundaries({0: (name, 3900.0), 4: ("rate", -2.0)})
    m.compile("numerical", "fdm", sparse=False)
    m.solution.solve(check_MB=False, isolver=None)
    res.append(m.solution.pressures)
    assert np.allclose(res[0], res[-1], equal_nan=True), name
"""),
    dict(id="C10_pressure_depth_sign", property="C10", edits=[(FD, "            if cond.lower() in [\"pressure\", \"press\", \"p\"]:\n                dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]\n", "            if cond.lower() in [\"pressure\", \"press\", \"p\"]:\n                dz = abs(self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id])\n")],
         needs="a constant-pressure boundary above the cell it touches", breaks="the gravity part of the boundary flux has the wrong sign", demo=GRID + """for sign in (1, -1):
    g, _ = mk(3, 1, 1, z=sign * np.array([0.0, 10, 25, 33, 40]))
    m = mod(g)
    m.set_boundaries({0: ("pressure", 4000.0), 4: ("rate", -5.0)})
    m.compile("numerical", "fdm", sparse=False)
    m.solution.solve(check_MB=False, isolver=None)
    (n, T), = m.get_cell_trans(0, None, False).items()
    s = m.solution
    assert close(s.rates[1, 0], 2 * T * (4000 - s.pressures[1, n] - m.fluid.g * (g.z[0] - g.z[n]))), sign
"""),
    dict(id="C10_flux_of_old_pressure", property="C10", edits=[(FD, "            p_n = self.pressures[self.tstep, id_n]\n", "            p_n = self.pressures[self.tstep if id_n not in self.model.wells else self.tstep - 1, id_n]\n")],
         needs="a constant-pressure boundary at a cell with a well, compressible, later step", breaks="the reported rate of the boundary is that of the pressures before the step", demo=GRID + """for w in (2, 1):
    g, _ = mk(3, 1, 1, comp=1e-4)
    m = mod(g, comp=1e-4)
    m.set_boundaries({0: ("pressure", 4000.0)})
    m.set_well(cell_id=w, q=-50, pwf=100, r=3, s=0)
    m.compile("numerical", "fdm", sparse=False)
    for t in (1, 2, 3):
        m.solution.solve(check_MB=False, isolver=None)
        (n, T), = m.get_cell_trans(0, None, False).items()
        s = m.solution
        assert close(s.rates[t, 0], 2 * T * (4000 - s.pressures[t, n])), (w, t)
"""),
    dict(id="C10_all_boundaries_numeric", property="C10", edits=[(BO, "        boundaries = self.grid.get_boundaries(\"id\", \"tuple\")\n", "        boundaries = self.grid.get_boundaries(\"id\", \"tuple\")\n        if self.grid.D > 1:\n            boundaries = boundaries[1:-1]\n")],
         needs="all boundaries of a 2D grid set at once", breaks="the first and last boundary cells get no condition", demo=GRID + """for n in ((3, 1, 1), (3, 2, 1)):
    g, _ = mk(*n)
    a = mod(g); a.set_all_boundaries("pressure", 3900.0)
    b = mod(g); b.set_boundaries({int(c): ("pressure", 3900.0) for c in g.get_boundaries("id", "list")})
    assert {int(k): v for k, v in a.bdict.items()} == b.bdict, n
    assert np.allclose(a.init_pressures, b.init_pressures, equal_nan=True)
"""),
    dict(id="C11_rounded_limit", property="C11", edits=[(FD, "                    pwf_est < self.model.wells[id][\"pwf_sp\"]\n", "                    round(pwf_est) < self.model.wells[id][\"pwf_sp\"]\n")],
         needs="a target rate that violates the limit by less than half a psi", breaks="the violated step is kept: the reported rate at the limit is not the one of the solved equations", demo=GRID + BAL + """def run(q):
    g, _ = mk(4, 1, 1, comp=1e-5)
    m = mod(g, comp=1e-5)
    m.set_boundaries({0: ("pressure", 4000.0)})
    m.set_well(cell_id=3, q=q, pwf=2000.0, r=3, s=0)
    m.compile("numerical", "fdm", sparse=False)
    m.solution.solve(check_MB=False, isolver=None)
    return m
lo, hi = -1.0, -1e4
for _ in range(60):
    mid = (lo + hi) / 2
    if run(mid).wells[3]["constrain"] == "q":
        lo = mid
    else:
        hi = mid
for f in (1.5, 1.05, 1.0001, 1.00001):
    balance(run(hi * f), 1, 1e-6)
"""),
    dict(id="C11_return_to_last_rate", property="C11", edits=[(FD, "            if \"q_sp\" in self.model.wells[id]:\n", "            if \"q_sp\" in self.model.wells[id] and (self.tstep < 3 or self.model.wells[id][\"constrain\"] == \"q\"):\n")],
         needs="a well that is at its limit in some step and becomes feasible again after the second step", breaks="the well stays at its limit although its target is feasible", demo=GRID + """def run(nfirst):
    g, _ = mk(4, 1, 1, comp=1e-4)
    m = mod(g, comp=1e-4)
    m.set_well(cell_id=2, q=-30, pwf=3990, r=3, s=0)
    m.set_boundaries({5: ("pressure", 4000.0)})
    m.compile("numerical", "fdm", sparse=False)
    for t in range(nfirst):
        m.solution.solve(check_MB=False, isolver=None)
    m.wells[2]["pwf_sp"] = 100.0
    m.solution.solve(check_MB=False, isolver=None)
    m.solution.solve(check_MB=False, isolver=None)
    return m
for n in (1, 5):
    m = run(n)
    assert close(m.solution.rates[-1, 2], -30), (n, m.solution.rates[:, 2])
"""),
    dict(id="C11_own_limit_of_rate_only", property="C11", edits=[(FD, "                    * self.model.fluid.B\n                    * self.model.fluid.mu\n                    / self.model.wells[id][\"G\"]\n                )\n            else:\n                pwf_est = self.model.wells[id][\"pwf\"]\n", "                    * self.model.fluid.B\n                    * self.model.fluid.mu\n                    / min(w[\"G\"] for w in self.model.wells.values())\n                )\n            else:\n                pwf_est = self.model.wells[id][\"pwf\"]\n")],
         needs="two wells with different radius, skin or cell", breaks="the bottom-hole pressure of one well is computed with the geometry factor of another", demo=GRID + """for s2 in (0, 5):
    g, _ = mk(4, 1, 1, comp=1e-5, kx=np.full(6, 70.0))
    m = mod(g, comp=1e-5)
    m.set_well(cell_id=1, q=-10, pwf=100, r=3, s=0)
    m.set_well(cell_id=4, q=-10, pwf=100, r=3, s=s2)
    m.compile("numerical", "fdm", sparse=False)
    m.solution.solve(check_MB=False, isolver=None)
    for c in (1, 4):
        assert close(m.wells[c]["pwf"], m.solution.pressures[1, c] - 10 * m.fluid.B * m.fluid.mu / m.wells[c]["G"]), (s2, c)
"""),
    dict(id="C13_well_history_of_resolved", property="C13", edits=[(FD, "            else:\n                tstep_w_pressures[id] = pwf_est\n", "            else:\n                self.model.w_pressures[id].append(pwf_est)\n"), (FD, "        for id in self.model.wells.keys():\n            self.model.w_pressures[id].append(tstep_w_pressures[id])\n\n", "")],
         needs="two wells of which the second violates its limit", breaks="the step that is solved again adds two entries to the history of the first well", demo=GRID + """for q in (-1, -5000):
    g, _ = mk(4, 1, 1, comp=1e-5)
    m = mod(g, comp=1e-5)
    m.set_boundaries({0: ("pressure", 4000.0)})
    m.set_well(cell_id=1, q=-1, pwf=100, r=3, s=0)
    m.set_well(cell_id=3, q=q, pwf=2000, r=3, s=0)
    m.compile("numerical", "fdm", sparse=False)
    n0 = {c: len(m.w_pressures[c]) for c in (1, 3)}
    for t in (1, 2):
        m.solution.solve(check_MB=False, isolver=None)
    for c in (1, 3):
        assert len(m.w_pressures[c]) == n0[c] + 2, (q, c, m.w_pressures)
"""),
    dict(id="C13_run_counts_again", property="C13", edits=[(FD, "            range(1, nsteps + 1),\n            unit=\"steps\",", "            range(self.tstep and 1 or (nsteps == 1 and 1), nsteps + 1) if self.tstep < 2 else range(2, nsteps + 2 - (nsteps > 50)),\n            unit=\"steps\",")],
         needs="a long run after an earlier one", breaks="one step too few", demo="raise SystemExit(1)"),
    dict(id="C13_resolve_keeps_row", property="C13", edits=[(FD, "                self.pressures = self.pressures[: self.tstep]\n", "                self.pressures = np.roll(self.pressures, 1, axis=0)[1:] if self.tstep > 3 else self.pressures[: self.tstep]\n")],
         needs="a step after the third that is solved again", breaks="the stored pressures of earlier steps are shifted by one", demo=GRID + """g, _ = mk(4, 1, 1, comp=1e-4)
m = mod(g, comp=1e-4, dt=5)
m.set_well(cell_id=3, q=-20, pwf=2000, r=3, s=0)
m.compile("numerical", "fdm", sparse=False)
prev = m.solution.pressures.copy()
again = 0
for t in range(1, 60):
    c = m.wells[3]["constrain"]
    m.solution.solve(check_MB=False, isolver=None)
    now = m.solution.pressures
    assert now.shape[0] == t + 1
    assert np.array_equal(now[:t], prev, equal_nan=True), t
    prev = now.copy()
    if c == "q" and m.wells[3]["constrain"] == "pwf":
        again = t
assert again > 3, again
"""),
    dict(id="C14_init_arrays_shared", property="C14", edits=[(BO, "        return self.init_pressures.copy(), self.init_rates.copy()\n", "        return self.init_pressures, self.init_rates\n")],
         needs="initial arrays kept by the user (or a second solution) while conditions are set", breaks="arrays handed out change later", demo=GRID + """g, _ = mk(3, 1, 1)
m = mod(g)
p, q = m.get_init_arrays()
p0, q0 = p.copy(), q.copy()
m.set_boundaries({0: ("pressure", 3900.0), 4: ("rate", -2.0)})
assert np.array_equal(p, p0, equal_nan=True) and np.array_equal(q, q0)
"""),
    dict(id="C14_volume_in_place", property="C14", edits=[(BO, "            RHS_n = self.grid.V * self.grid.phi * self.comp\n", "            RHS_n = np.multiply(self.grid.V, self.grid.phi * self.comp, out=self.grid.V)\n")],
         needs="two compressible models on one grid", breaks="creating a model changes the volumes of the grid", demo=GRID + """g, _ = mk(3, 1, 1, comp=1e-5)
V = np.array(g.V)
a = mod(g, comp=1e-5)
b = mod(g, comp=1e-5)
assert np.array_equal(V, g.V)
assert close(a.RHS, b.RHS)
"""),
    dict(id="C14_name_of_method_only", property="C14", edits=[("models/model.py", "        self.solutions[str(self.compiler)] = self.solution\n", "        self.solutions.setdefault(str(self.compiler), self.solution)\n")],
         needs="compiling the same method twice", breaks="after the second compilation the current solution is not the one stored under its name", demo=GRID + """g, _ = mk(3, 1, 1, comp=1e-5)
m = mod(g, comp=1e-5)
m.set_boundaries({0: ("pressure", 3900.0)})
m.compile("numerical", "fdm", sparse=False)
m.compile("numerical", "fdm", sparse=False)
now = m.solution
assert m.solutions[m.get_solutions()[0]] is now
m.set_solution(m.get_solutions()[0])
assert m.solution is now
"""),
    dict(id="C14_select_keeps_solve", property="C14", edits=[("models/model.py", "            self.compiler = self.compilers[name]\n            self.solve = self.solution.solve\n", "            self.compiler = self.compilers[name]\n            self.solve = self.compiler.model.solve\n")],
         needs="two compiled solutions, selecting the first by name and calling model.solve", breaks="model.solve still runs the solution that was current before", demo=GRID + """g, _ = mk(3, 1, 1, comp=1e-5)
m = mod(g, comp=1e-5)
m.set_boundaries({0: ("pressure", 3900.0)})
m.compile("numerical", "fdm", sparse=False)
a = m.solution
m.compile("numerical", "fdm", sparse=True)
b = m.solution
assert a is not b
m.set_solution(m.get_solutions()[0])
m.solve(check_MB=False, isolver=None)
cur = m.solution
assert cur.tstep == 1 and (a.tstep + b.tstep) == 1
"""),
    dict(id="C17_length_from_origin", property="C17", edits=[(D1, "        tDpi = -np.pi ** 2 * tD_values\n\n        pDsum = np.zeros_like(xD_values, dtype=\"double\")\n        for n in pbar:", "        tDpi = -np.pi ** 2 * tD_values * (L / x.max()) ** 2\n\n        pDsum = np.zeros_like(xD_values, dtype=\"double\")\n        for n in pbar:")],
         needs="", breaks="the decay uses the distance to the origin instead of the length", demo=GRID + "raise SystemExit(1)"),
    dict(id="C17_even_modes", property="C17", edits=[(D1, "                (pDi0 / n + pDin * ((-1) ** n) / n)\n                * np.sin(n*xDpi)\n                * np.exp((n**2) * tDpi)\n            )\n\n        pD = pD0 + (pDn - pD0) * xD_values + 2 / np.pi * pDsum\n\n        # Remove values out of range:\n        if clean:\n            pD[pD < input_range[0]] = input_range[0]\n            pD[pD > input_range[1]] = input_range[1]\n\n        shape = self.model.get_shape(True)\n\n        t, x = self.model.get_domain(scale=scale, boundary=True)\n        t_values, x_values = np.meshgrid(t, x, indexing=\"ij\")\n        X = np.stack((t_values, x_values), axis=-1).reshape(*shape, 2)\n\n        if scale:\n            output_scaler = scalers.MinMax(output_range, input_range)\n            p = output_scaler.transform(pD)\n            # xD_values = output_scaler.transform(xD_values)\n            # X = np.stack((tD_values, xD_values), axis=-1).reshape(*shape, 2)\n        else:\n            p = input_scaler.inverse_transform(pD)\n            # t_values, x_values = np.meshgrid(t, x, indexing='ij')\n            # X = np.stack((t_values, x_values), axis=-1).reshape(*shape, 2)\n\n        self.pressures = p", "ZZ")],
         needs="", breaks="", demo="raise SystemExit(1)"),
]
