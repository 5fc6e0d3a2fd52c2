RC = "grids/regular_cartesian.py"
BO = "models/black_oil.py"
FD = "solutions/numerical/fdm.py"
D1 = "solutions/analytical/d1p1.py"
CP = "solutions/compiler.py"
MM = "scalers/minmax.py"
SP = "fluids/single_phase.py"
GRID = '''import itertools
import numpy as np
from reservoirflow import grids, fluids, models


def mk(nx, ny, nz, unify=True, seed=0, **kw):
    r = np.random.RandomState(seed)
    n = dict(x=nx, y=ny, z=nz)
    d = {a: (r.uniform(50, 90, n[a] + 2) if n[a] > 1 else float(r.uniform(50, 90))) for a in "xyz"}
    N = int(np.prod([n[a] + 2 if n[a] > 1 else 1 for a in "xyz"]))
    a = dict(kx=r.uniform(50, 99, N), ky=r.uniform(50, 99, N), kz=r.uniform(50, 99, N), phi=r.uniform(.1, .3, N), z=np.zeros(N))
    a.update(kw)
    return grids.RegularCartesian(nx=nx, ny=ny, nz=nz, dx=d["x"], dy=d["y"], dz=d["z"], unify=unify, **a), d


def mod(g, pi=4000.0, dt=1, comp=0, rho=50):
    f = fluids.SinglePhase(mu=1.5, B=1.1, rho=rho, comp=comp)
    return models.BlackOil(g, f, pi=pi, dt=dt)


def close(a, b):
    return np.allclose(a, b, rtol=1e-8, atol=1e-8)


'''
BAL = '''def balance(m, t, tol=1e-6):
    """largest violation of the mass conservation of an interior cell over step t"""
    g, s = m.grid, m.solution
    P, q = s.pressures, s.rates
    worst = 0
    for c in map(int, g.get_cells_id(False, False, "array")):
        tot = -m.RHS[c] * (P[t, c] - P[t - 1, c])
        for n, T in m.get_cell_trans(c, None, False).items():
            tot += T * ((P[t, n] - P[t, c]) - m.fluid.g * (g.z[n] - g.z[c]))
        for b in map(int, g.get_cell_boundaries(id=c, fmt="array")):
            if b in m.bdict:
                cond, v = m.bdict[b]
                if cond in ("pressure", "press", "p"):
                    (n, T), = m.get_cell_trans(b, None, False).items()
                    tot += 2 * T * ((v - P[t, c]) - m.fluid.g * (g.z[b] - g.z[c]))
                else:
                    tot += q[t, b]
        if c in m.wells:
            tot += q[t, c]
        worst = max(worst, abs(tot))
    assert worst < tol, worst


'''
PLANTS = [
    dict(id="C04_coords_neighbour_k", property="C04", edits=[(RC, "k_n = self.get_cell_k(fdir, None, id_n)", "k_n = self.get_cell_k(fdir, None, coords)")],
         needs="permeabilities that differ between neighbours, factor asked by coordinates", breaks="geometry factors by coordinates use the permeability of one cell only", demo=GRID + '''g, _ = mk(3, 3, 1)
for c in itertools.product(range(1, 4), range(1, 4), [0]):
    a = g.get_cell_G(id=int(g.get_cell_id(c)), boundary=False)
    b = g.get_cell_G(coords=c, boundary=False)
    for n, v in b.items():
        assert close(v, a[int(g.get_cell_id(n))]), (c, n)
'''),
    dict(id="C04_loop_sorted_neighbours", property="C04", edits=[(BO, "cells_n_i = [self.cells_i_dict[x] for x in T.keys()]", "cells_n_i = sorted(self.cells_i_dict[x] for x in T.keys())")],
         needs="two flow directions and transmissibilities that differ by direction, vectorize=False", breaks="the cell-by-cell transmissibility matrix has values in the columns of other neighbours", demo=GRID + '''g, _ = mk(3, 3, 1)
m = mod(g)
a, b = m.get_cells_trans(False, False, False), m.get_cells_trans(False, False, True)
assert close(a, b)
'''),
    dict(id="C05_cell_write_first_layer", property="C05", edits=[(RC, "self.__props__[name].reshape(fshape)[icoords] = value", "self.__props__[name].reshape(fshape)[icoords[-self.D :]] = value")],
         needs="unify=True and flow in fewer than three directions: the dropped indices are those of the directions without flow, so a grid with flow along y (cells in the second index) is written along a whole line", breaks="setting one cell sets others too", demo=GRID + '''g, _ = mk(1, 3, 1)
before = np.array(g.get_prop("phi", True, False))
g.set_prop("phi", 0.77, id=2)
after = np.array(g.get_prop("phi", True, False))
want = before.copy()
want[2] = 0.77
assert close(after, want), (before, after)
'''),
    dict(id="C05_uniform_interior_only", property="C05", edits=[(RC, '''            prop = self.get_prop(name, False, False)
            if not np.all(prop == prop[0]):''', '''            prop = self.get_prop(name, False, False)
            if not np.all(prop[:-1] == prop[0]):''')],
         needs="porosity that differs in the last interior cell only", breaks="a heterogeneous grid is reported homogeneous", demo=GRID + '''g, _ = mk(4, 1, 1, phi=0.2)
assert g.is_homogeneous
g.set_prop("phi", 0.1, id=4)
assert not g.is_homogeneous and g.is_heterogeneous
'''),
    dict(id="C06_gradient_before_units", property="C06", edits=[(SP, '''        if rho is not None:
            self.set_rho(rho)''', '''        if rho is not None and rho != getattr(self, "rho", None):
            self.set_rho(rho)
        elif rho is not None:
            self.g = rho * Base.factors["gravity conversion"] * Base.factors["gravitational acceleration"]'''), (SP, "from reservoirflow.fluids.fluid import Fluid", "from reservoirflow.base import Base\nfrom reservoirflow.fluids.fluid import Fluid")],
         needs="a fluid in metric or lab units whose density is set again to the value it has", breaks="the hydrostatic gradient is that of field units", demo=GRID + '''f = fluids.SinglePhase(mu=1.0, B=1.0, rho=800.0, comp=0, unit="metric")
g0 = f.g
f.set_props(mu=2.0, rho=800.0)
assert close(f.g / g0, 1), (f.g, g0)
'''),
    dict(id="C06_total_comp_one_zero", property="C06", edits=[(BO, "self.set_comp(self.fluid.comp + self.grid.comp)", "self.set_comp((self.fluid.comp or self.grid.comp) + (self.grid.comp if self.fluid.comp > self.grid.comp else 0))")],
         needs="grid compressibility at least as large as that of the fluid, both positive", breaks="the total compressibility leaves out the grid's", demo=GRID + '''for cf, cg in ((0, 0), (1e-5, 0), (0, 1e-5), (1e-5, 1e-6), (1e-6, 1e-5)):
    g, _ = mk(3, 1, 1, comp=cg)
    assert close(mod(g, comp=cf).comp * 1e6, (cf + cg) * 1e6), (cf, cg)
'''),
    dict(id="C07_negative_skin", property="C07", edits=[(BO, '''        if "s" in self.wells[cell_id].keys():
            G_d += self.wells[cell_id]["s"]''', '''        if "s" in self.wells[cell_id].keys():
            G_d += max(self.wells[cell_id]["s"], 0)''')],
         needs="a stimulated well (negative skin)", breaks="negative skins are ignored", demo=GRID + '''for s in (0, 2, -1.5):
    g, d = mk(3, 1, 1, kx=10.0)
    m = mod(g)
    m.set_well(cell_id=2, q=-10, r=3, s=s)
    w = m.wells[2]
    want = 2 * np.pi * 0.001127 * 10 * g.d["z"][2] / (np.log(w["r_eq"] / 3 * 12) + s)
    assert close(w["G"], want), s
'''),
    dict(id="C07_peaceman_3d_swapped", property="C07", edits=[(BO, '''            # print(f"[warning] __calc_well_r_eq at {fdir} has to be verified.")
            kx_ky = self.grid.k["x"][cell_id] / self.grid.k["y"][cell_id]
            ky_kx = self.grid.k["y"][cell_id] / self.grid.k["x"][cell_id]''', '''            # print(f"[warning] __calc_well_r_eq at {fdir} has to be verified.")
            ky_kx = self.grid.k["x"][cell_id] / self.grid.k["y"][cell_id]
            kx_ky = self.grid.k["y"][cell_id] / self.grid.k["x"][cell_id]''')],
         needs="three flow directions with kx != ky", breaks="the equivalent radius uses the permeability ratios of the other axis", demo=GRID + '''g, d = mk(3, 3, 3)
m = mod(g)
c = int(g.get_cell_id((2, 1, 2)))
m.set_well(cell_id=c, q=-10, r=3, s=0)
a = g.k["y"][c] / g.k["x"][c]
want = 0.28 * (a**0.5 * g.d["x"][c] ** 2 + a**-0.5 * g.d["y"][c] ** 2) ** 0.5 / (a**0.25 + a**-0.25)
assert close(m.wells[c]["r_eq"], want)
'''),
    dict(id="C08_accum_initial_pressure", property="C08", edits=[(FD, '''                    * self.pressures[self.tstep, self.model.grid.cells_id]
                ).reshape(-1, 1)''', '''                    * self.pressures[min(self.tstep, 2), self.model.grid.cells_id]
                ).reshape(-1, 1)''')],
         needs="compressible, at least four steps", breaks="the accumulation of late steps is against an earlier level", demo=GRID + BAL + '''g, _ = mk(4, 1, 1, comp=1e-5)
m = mod(g, comp=1e-5)
m.set_boundaries({0: ("pressure", 5000.0), 5: ("rate", -20.0)})
m.compile("numerical", "fdm", sparse=False)
for t in range(1, 7):
    m.solution.solve(check_MB=False, isolver=None)
    balance(m, t)
'''),
    dict(id="C08_last_pressure_boundary", property="C08", edits=[(FD, '''                self.bdict_v[id_b] = (v0, v1, id)
                self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1''', '''                if any(e[2] == id for e in self.bdict_v.values()):
                    v1 = max(v1, min(e[1] for e in self.bdict_v.values() if e[2] == id))
                self.bdict_v[id_b] = (v0, v1, id)
                self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1''')],
         needs="two constant-pressure boundaries at one corner cell, the second one with the larger transmissibility", breaks="the flux through the second boundary has the coefficient of the first", demo=GRID + BAL + '''for seed in range(6):
    g, _ = mk(2, 2, 1, seed=seed, comp=1e-5)
    m = mod(g, comp=1e-5)
    m.set_boundaries({1: ("pressure", 5000.0), 4: ("pressure", 4500.0)})
    m.compile("numerical", "fdm", sparse=False)
    for t in (1, 2):
        m.solution.solve(check_MB=False, isolver=None)
        balance(m, t)
'''),
    dict(id="C09_well_term_overwrites_boundary", property="C09", edits=[(FD, "                terms[\"f_terms\"][-1] = w_term", "                terms[\"f_terms\"][len(self.model.grid.get_cell_neighbors(id=cell_id, boundary=True, fmt=\"list\")) if self.model.grid.D < 3 else -1] = w_term")],
         needs="", breaks="", demo="raise SystemExit(1)"),
    dict(id="C09_gravity_kept_first_step", property="C09", edits=[(FD, '''            if self.model.comp_type == "compressible":
                terms["a_term"] = self.__calc_a_term(cell_id, cell_p)''', '''            if self.model.comp_type == "compressible" and self.tstep != 2:
                terms["a_term"] = self.__calc_a_term(cell_id, cell_p)''')],
         needs="compressible, symbolic equations, third step", breaks="the accumulation of the third step is against an earlier level", demo=GRID + BAL + '''g, _ = mk(4, 1, 1, comp=1e-5)
m = mod(g, comp=1e-5)
m.set_boundaries({0: ("pressure", 5000.0), 5: ("rate", -20.0)})
m.compile("numerical", "fdm", sparse=False)
for t in range(1, 6):
    m.solution.solve(check_MB=False, vectorize=False, isolver=None)
    balance(m, t)
'''),
    dict(id="C10_gradient_size_x", property="C10", edits=[(BO, "self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v", 'self.__get_tstep(), cell_b_id, T * self.grid.d[dir if dir != "z" else "y"][cell_id] * v')],
         needs="a constant gradient at the top or bottom of a 3D grid", breaks="the rate of a vertical gradient uses the size along y", demo=GRID + '''g, d = mk(2, 2, 2)
m = mod(g)
c = int(g.get_cell_id((1, 1, 1)))
for b in map(int, g.get_cell_boundaries(id=c, fmt="array")):
    m.set_boundary(b, "gradient", 0.3)
    (n, T), = m.get_cell_trans(b, None, False).items()
    a = [a for a, v in g.get_cell_boundaries(id=c, fmt="dict").items() if b in v][0]
    assert close(m.init_rates[0, b], T * g.d[a][n] * 0.3), (b, a)
'''),
    dict(id="C10_pressure_depth_sign", property="C10", edits=[(FD, "dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]", "dz = abs(self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id])")],
         needs="a constant-pressure boundary above the cell it touches", breaks="the gravity part of the boundary flux has the wrong sign", demo=GRID + '''for sign in (1, -1):
    g, _ = mk(1, 1, 3, z=sign * np.array([0.0, 10, 25, 33, 40]))
    m = mod(g)
    m.set_boundaries({0: ("pressure", 4000.0), 4: ("rate", -5.0)})
    m.compile("numerical", "fdm", sparse=False)
    m.solution.solve(check_MB=False, isolver=None)
    (n, T), = m.get_cell_trans(0, None, False).items()
    s = m.solution
    assert close(s.rates[1, 0], 2 * T * (4000 - s.pressures[1, n] - m.fluid.g * (g.z[0] - g.z[n]))), sign
    assert close(s.rates[1, 0], 5.0), sign
'''),
    dict(id="C11_second_well_not_checked", property="C11", edits=[(FD, '''                    and self.model.wells[id]["q"] == self.model.wells[id]["q_sp"]
                ):''', '''                    and self.model.wells[id]["q"] == self.model.wells[id]["q_sp"]
                    and (not self.resolve or not any(self.resolve.values()))
                ):''')],
         needs="two limited wells of which one is already held at its limit when the other violates its own", breaks="the violated step is kept: the second well has neither its target nor the rate at its limit in the solved equations", demo=GRID + BAL + '''g, _ = mk(8, 1, 1, kx=np.full(10, 70.0), comp=1e-4)
m = mod(g, comp=1e-4, dt=3)
m.set_well(cell_id=1, q=-60, pwf=2500, r=3, s=0)
m.set_well(cell_id=8, q=-38, pwf=1000, r=3, s=0)
m.compile("numerical", "fdm", sparse=False)
for t in range(1, 30):
    m.solution.solve(check_MB=False, isolver=None)
    balance(m, t, 1e-5)
'''),
    dict(id="C11_reported_limit", property="C11", edits=[(FD, '''                self.model.wells[id]["constrain"] = "pwf"
                pwf_est = self.model.wells[id]["pwf_sp"]''', '''                self.model.wells[id]["constrain"] = "pwf"
                pwf_est = max(pwf_est, self.model.wells[id]["pwf_sp"] * (1 - 1e-3)) if resolve is False else self.model.wells[id]["pwf_sp"]''')],
         needs="a well held at its limit in a step that was not solved again", breaks="the reported bottom-hole pressure is below the limit", demo="raise SystemExit(1)"),
    dict(id="C12_error_of_run", property="C12", edits=[(FD, "self.error = self.rates[self.tstep].sum()", "self.error = self.rates[-2 if len(self.rates) > 3 else -1].sum()")],
         needs="incompressible, at least three steps, rates that change", breaks="the reported error is that of an earlier step", demo=GRID + '''g, _ = mk(3, 1, 1)
m = mod(g)
m.set_boundaries({0: ("pressure", 4000.0)})
m.set_well(cell_id=2, q=-10, r=3, s=0)
m.compile("numerical", "fdm", sparse=False)
s = m.solution
for t in range(1, 5):
    s.solve(check_MB=False, isolver=None)
    s.rates[t, 1] = t / 1000.0
    s.check_MB()
    assert close(s.error, s.rates[t].sum()), t
'''),
    dict(id="C13_rates_of_last_row", property="C13", edits=[(FD, "self.rates = np.vstack([self.rates, self.rates[-1]])", "self.rates = np.vstack([self.rates, self.rates[-1]])\n            if self.tstep > 2:\n                self.rates[1:-1] = np.roll(self.rates[1:-1], 0, axis=0)\n                self.rates[1:2] = self.rates[2:3]")],
         needs="three steps or more", breaks="an earlier row of rates is overwritten", demo=GRID + '''g, _ = mk(4, 1, 1, comp=1e-5)
m = mod(g, comp=1e-5)
m.set_boundaries({0: ("pressure", 5000.0)})
m.compile("numerical", "fdm", sparse=False)
s, seen = m.solution, None
for t in range(1, 6):
    s.solve(check_MB=False, isolver=None)
    if seen is not None:
        assert np.array_equal(s.rates[:t], seen), t
    seen = s.rates.copy()
'''),
    dict(id="C14_pressures_shared_with_grid", property="C14", edits=[(BO, "self.solution.pressures[tstep, cell_id] = value", "self.solution.pressures[tstep, cell_id] = value", )], needs="", breaks="", demo="raise SystemExit(1)"),
    dict(id="C15_steps_by_cell", property="C15", edits=[(BO, "            df = self.__add_xyz(boundary, melt, scale, df)", "            df = self.__add_xyz(boundary or self.grid.D == 3, melt, scale, df)")],
         needs="melted tables of 3D grids without boundary cells", breaks="coordinates of other cells (or an error)", demo=GRID + '''g, _ = mk(2, 2, 2, comp=1e-5)
m = mod(g, comp=1e-5)
m.compile("numerical", "fdm", sparse=False)
m.solution.solve(check_MB=False, isolver=None)
for b in (True, False):
    df = m.get_df(["p"], boundary=b, melt=True, drop_nan=False)
    c = g.get_cells_center(b, False, False)
    assert len(df) == 2 * g.get_n(b)
    assert close(df[["x", "y", "z"]].values, np.vstack([c, c])), b
'''),
    dict(id="C15_zero_columns_last_level", property="C15", edits=[(BO, "df = df.loc[:, (df != 0).any(axis=0)]", "df = df.loc[:, (df.tail(max(len(df) - 1, 1)) != 0).any(axis=0)]")],
         needs="a column that is non-zero in the first level only", breaks="columns with data are left out", demo=GRID + '''g, _ = mk(3, 1, 1, comp=1e-5)
m = mod(g, comp=1e-5)
m.compile("numerical", "fdm", sparse=False)
s = m.solution
s.solve(check_MB=False, isolver=None)
s.rates[0, 2] = 5.0
s.rates[1, 2] = 0.0
df = m.get_df(["q"])
assert "Q2" in df.columns and list(df["Q2"]) == [5.0, 0.0], df
'''),
    dict(id="C16_output_range_keeps_sign", property="C16", edits=[(MM, '''        v = (self.vmax - self.vmin) * (vbar - self.Vmin) / (
            self.Vmax - self.Vmin
        ) + self.vmin''', '''        v = (self.vmax - self.vmin) * (vbar - self.Vmin) / abs(
            self.Vmax - self.Vmin
        ) + self.vmin''')], needs="a decreasing output range", breaks="inverse transformation does not return the original values", demo=GRID + '''from reservoirflow.scalers import MinMax
v = np.array([[1.0], [4.0], [9.0]])
for r in ((0, 1), (-1, 1), (1, -1)):
    s = MinMax(r).fit(v)
    assert close(s.inverse_transform(s.transform(v)), v), r
'''),
    dict(id="C17_alpha_of_first_porosity", property="C17", edits=[(D1, '''        tD = self.model.get_alpha()[self.model.cells_id[0]] * t / (L**2)
        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")

        # Dependent variable: p
        p = self.pressures
        input_range = [0, 1]
        input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
        pDi = input_scaler.transform(self.model.pi)
        pD0 = input_scaler.transform(p[0, 0])
        pDn = input_scaler.transform(p[0, -1])

        # Analytical solution:
        N_range''', '''        tD = self.model.get_alpha()[self.model.cells_id[0]] * t / (x.max() ** 2)
        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")

        # Dependent variable: p
        p = self.pressures
        input_range = [0, 1]
        input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
        pDi = input_scaler.transform(self.model.pi)
        pD0 = input_scaler.transform(p[0, 0])
        pDn = input_scaler.transform(p[0, -1])

        # Analytical solution:
        N_range''')], needs="calc_solution", breaks="the decay uses the distance to the origin instead of the length", demo="raise SystemExit(1)"),
    dict(id="C18_stale_method_name", property="C18", edits=[(FD, "assert exit_code == 0, \"unsuccessful convergence\"", "assert exit_code <= 0, \"unsuccessful convergence\"")],
         needs="an iterative solver that reports illegal input or breakdown (negative code)", breaks="a failed solve is accepted", demo=GRID + '''from reservoirflow.solutions.numerical import solvers
real = solvers.get_isolver
for code in (5, -11):
    g, _ = mk(3, 1, 1, comp=1e-5)
    m = mod(g, comp=1e-5)
    m.compile("numerical", "fdm", sparse=True)
    solvers.get_isolver = lambda n: (lambda A, d, **k: (np.zeros(A.shape[0]), code))
    try:
        m.solution.solve(check_MB=False, isolver="cgs")
    except AssertionError:
        continue
    finally:
        solvers.get_isolver = real
    raise SystemExit(f"solver code {code} accepted")
'''),
]
PLANTS = [p for p in PLANTS if p["needs"] and "SystemExit(1)" not in p["demo"]]
