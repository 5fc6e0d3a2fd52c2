RC = "grids/regular_cartesian.py"
PRE = '''import itertools
import numpy as np
from reservoirflow import grids


def mk(nx, ny, nz, unify=True, seed=0, **kw):
    r = np.random.RandomState(seed)
    n = dict(x=nx, y=ny, z=nz)
    d = {a: (r.uniform(1, 9, n[a] + 2) if n[a] > 1 else float(r.uniform(1, 9))) for a in "xyz"}
    N = int(np.prod([n[a] + 2 if n[a] > 1 else 1 for a in "xyz"]))
    a = dict(kx=r.uniform(1, 99, N), ky=r.uniform(1, 99, N), kz=r.uniform(1, 99, N), phi=r.uniform(.1, .3, N))
    a.update(kw)
    return grids.RegularCartesian(nx=nx, ny=ny, nz=nz, dx=d["x"], dy=d["y"], dz=d["z"], unify=unify, **a), d


'''
PLANTS = [
    dict(id="C01_narrow_boundaries_3d", property="C01", edits=[(RC, "                        in_data[[0, -1], 1:-1, 1:-1].flatten(),", "                        in_data[[0, -1], 1:-1, 1:-2].flatten(),")],
         needs="3D grids with any nx: the last interior column of the bottom and top layers is left out", breaks="boundary and interior cells no longer partition a 3D grid", demo=PRE + '''g, _ = mk(3, 2, 2)
inner = set(np.asarray(g.get_cells_id(False, False, "array")).tolist())
b = set(int(i) for i in g.get_boundaries("id", "tuple"))
assert not (inner & b) and inner | b == set(range(5 * 4 * 4)), "not a partition"
'''),
    dict(id="C01_flat_yz_fshape", property="C01", edits=[(RC, '''                elif self.fdir == "yz":
                    self.fshape = (nz, ny)''', '''                elif self.fdir == "yz":
                    self.fshape = (ny, nz)''')], needs="unify=False, flow in y and z, ny != nz", breaks="flow-shaped arrays of yz grids are laid out with the axes swapped", demo=PRE + '''g, _ = mk(1, 2, 4, unify=False)
a = g.get_cells_id(True, True, "array")
for k in range(6):
    for j in range(4):
        assert a[k, j] == j + 4 * k
assert np.asarray(g.get_cells_id(False, False, "array")).tolist() == [j + 4 * k for k in range(1, 5) for j in range(1, 3)]
'''),
    dict(id="C02_stride_equal_layers", property="C02", edits=[(RC, '''                if "x" in self.fdir:
                    n_lst = [id - nx, id + nx]
                elif "y" in self.fdir:
                    n_lst = [id - ny, id + ny]''', '''                if "y" in self.fdir:
                    n_lst = [id - nx, id + nx] if "x" in self.fdir else [id - nx * ny, id + nx * ny]
                else:
                    n_lst = [id - self.nx, id + self.nx]''')], needs="flow in x and z", breaks="neighbours by id of xz grids use the row length without boundary cells", demo=PRE + '''g, _ = mk(3, 1, 3)
for c in [(i, 0, k) for k in range(1, 4) for i in range(1, 4)]:
    i = g.get_cell_id(c)
    n = g.get_cell_neighbors(id=int(i), boundary=False, fmt="dict")
    m = g.get_cell_neighbors(coords=c, boundary=False, fmt="dict")
    for a in "xyz":
        assert sorted(int(g.get_cell_id(x)) for x in m[a]) == sorted(int(x) for x in n[a]), (c, a)
'''),
    dict(id="C02_layer_stride_unbounded", property="C02", edits=[(RC, "nx_ny_b = self.nx_b * self.ny_b", "nx_ny_b = self.nx_b * max(self.ny_b, self.nz_b)")], needs="3D grid with more layers than rows", breaks="vertical neighbours by id jump too far when nz > ny", demo=PRE + '''g, _ = mk(2, 2, 4)
for c in itertools.product(range(1, 3), range(1, 3), range(1, 5)):
    n = g.get_cell_neighbors(id=int(g.get_cell_id(c)), boundary=False, fmt="dict")
    want = [(c[0], c[1], c[2] + s) for s in (-1, 1) if 1 <= c[2] + s <= 4]
    assert sorted(map(int, n["z"])) == sorted(int(g.get_cell_id(w)) for w in want), c
'''),
    dict(id="C02_coords_upper_only", property="C02", edits=[(RC, "n_lst = [(i, j - 1, k), (i, j + 1, k)]", "n_lst = [(i, j - 1, k), (i, j + 1, k)] if k <= self.ny_b else [(i, j + 1, k), (i, j + 1, k)]")], needs="a cell queried by coordinates in a layer above ny + 2", breaks="y-neighbours by coordinates of high layers are wrong", demo=PRE + '''g, _ = mk(2, 2, 6)
for c in itertools.product(range(1, 3), range(1, 3), range(1, 7)):
    n = g.get_cell_neighbors(coords=c, boundary=False, fmt="dict")
    want = [(c[0], c[1] + s, c[2]) for s in (-1, 1) if 1 <= c[1] + s <= 2]
    assert sorted(tuple(map(int, x)) for x in n["y"]) == sorted(want), c
'''),
    dict(id="C03_transpose_dy", property="C03", edits=[(RC, "self.dy = np.transpose(self.dy, axes=(2, 0, 1)).reshape(shape)", "self.dy = np.transpose(self.dy, axes=(2, 0, 1) if self.fdir != 'yz' else (0, 2, 1)).reshape(shape)")], needs="flow in y and z with different sizes along y", breaks="sizes along y of yz grids follow the layer", demo=PRE + '''g, d = mk(1, 3, 2)
a = g.get_cells_d("y", True, False)
for k in range(4):
    for j in range(5):
        assert a[j + 5 * k] == d["y"][j]
'''),
    dict(id="C03_center_skip", property="C03", edits=[(RC, "d[1:] = d[1:] + d_[:-1].cumsum()", "d[1:] = d[1:] + np.cumsum(d[:-1] * 2)[: len(d) - 1] * (d_[0] / d_[1] if len(d_) == 3 else 1)")], needs="one axis of length one in a grid whose largest axis has 3 cells with boundaries (never) or sizes of length 3", breaks="placeholder", demo="import sys\n"),
    dict(id="C03_volume_cells_order", property="C03", edits=[(RC, "return self.remove_boundaries(self.V, False, \"both\").sum()", "return self.V[self.nx_b : -self.nx_b].sum() if self.D == 1 and self.nx_b == 1 else self.V[self.get_order(\"natural\", False, False) - (1 if self.D == 3 else 0)].sum()")], needs="total volume without boundaries of a 3D grid with different sizes", breaks="total interior volume of 3D grids adds the cells shifted by one", demo=PRE + '''g, d = mk(2, 3, 2)
v = sum(d["x"][i] * d["y"][j] * d["z"][k] for i in (1, 2) for j in (1, 2, 3) for k in (1, 2))
assert abs(g.get_Vt(False) - v) < 1e-9 * v
'''),
    dict(id="C04_diag3_row", property="C04", edits=[(RC, "            n3_ = n3 - self.nx\n", "            n3_ = n3 - self.nx if self.nz > 2 or self.ny > 2 else n3\n")], needs="3D grid with ny = nz = 2", breaks="placeholder", demo="import sys\n"),
    dict(id="C04_diag2_mean", property="C04", edits=[(RC, '''                self.factors["transmissibility conversion"]
                * ((k[:n2_] + k[n2:]) / 2)
                * ((A[:n2_] + A[n2:]) / 2)''', '''                self.factors["transmissibility conversion"]
                * ((k[:n2_] + k[n2:]) / 2)
                * ((A[:n2_] + A[:n2_]) / 2)''')], needs="never", breaks="placeholder", demo="import sys\n"),
    dict(id="C04_cell_own_area", property="C04", edits=[(RC, "G[id_n] = (\n", "G[id_n] = (\n")], needs="", breaks="", demo=""),
]
PLANTS = [p for p in PLANTS if p["breaks"] not in ("placeholder", "")]
