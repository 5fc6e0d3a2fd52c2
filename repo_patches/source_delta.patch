From e04746fa5bb2f0308b053527468b1ee4a87b50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 01/28] fix: zero every y-neighbour entry that wraps to the
 next layer in 3D

Only one entry (the first column of the first layer) was zeroed, so the
vectorized geometry factors connected cells (i, ny-1, k) and (i, 0, k+1).
---
 reservoirflow/grids/regular_cartesian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ac7678b..514befa 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2847,14 +2847,12 @@ class RegularCartesian(Grid):
             n3 = self.nx_b * self.ny_b
             n3_ = n3 - self.nx_b
             n4 = n3 * self.nz_b - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx_b, n3)
         else:
             n3 = self.nx * self.ny
             n3_ = n3 - self.nx
             n4 = n3 * self.nz - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx, n3)
         if diag_2 is not None:
-            diag_2[diag_2_zero_ids] = 0
+            diag_2[np.arange(len(diag_2)) % n3 >= n3_] = 0
         k = self.get_cells_k(dir, boundary, False, "array")
         A = self.get_cells_A(dir, boundary, False)
         d = self.get_cells_d(dir, boundary, False)
-- 
2.43.0


From e41de56c04b838d5b6e656cc6c66fd69d7a9505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 02/28] fix: do not let models write into the grid's cached
 zeros array

The initial rates were a view of the array cached by grid.get_zeros(), so
boundary rates leaked into the grid and every other model sharing it.
---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c7e002a..64c1142 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -196,7 +196,7 @@ class BlackOil(Model):
     def __get_arrays(self) -> tuple:
         ones = self.grid.get_ones(True, False, False)[np.newaxis]
         pressures = ones * np.nan
-        rates = self.grid.get_zeros(True, False, False)[np.newaxis]
+        rates = self.grid.get_zeros(True, False, False)[np.newaxis].copy()
         return pressures, rates
 
     def get_init_arrays(self) -> tuple:
-- 
2.43.0


From d8a71fa832f03974bb6414b7bbb8f84ef30111cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 03/28] fix: accept coords of boundary cells when unify=False

Zero coordinates in a flow direction were dropped from icoords.
---
 reservoirflow/grids/regular_cartesian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 514befa..262a5e2 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -741,7 +741,9 @@ class RegularCartesian(Grid):
             msg = "coords are out of range."
             assert utils.helpers.isin(coords, cells_coords), msg
             if not self.unify and self.D <= 2:
-                icoords = tuple(c for c in coords[::-1] if c > 0)
+                icoords = tuple(
+                    c for c, s in zip(coords[::-1], "zyx") if s in self.get_fdir()
+                )
                 assert len(icoords) == self.get_D(), "icoords is not compatible"
             else:
                 icoords = tuple(c for c in coords[::-1])
-- 
2.43.0


From e6f218285e5dbbd93ad4200057a9e23dab1a1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 04/28] fix: set_props() with id or coords writes to the
 selected cell

Properties are stored flatten, so indexing with icoords raised IndexError.
---
 reservoirflow/grids/regular_cartesian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 262a5e2..ee7a1bb 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2418,7 +2418,8 @@ class RegularCartesian(Grid):
                     coords = self.get_cell_coords(id, True)
                 if coords is not None:
                     icoords = self.get_cell_icoords(coords)
-                    self.__props__[name][icoords] = value
+                    fshape = self.get_fshape(True, False)
+                    self.__props__[name].reshape(fshape)[icoords] = value
                     s = "cell coords " + str(coords)
         else:
             msg = (
-- 
2.43.0


From d498da518a0414dd11e4e10d51d43485cc6b1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 05/28] fix: drop cached rock properties when a property is
 changed

get_cell_k, get_cell_G and the is_* flags kept returning values computed
before set_prop()/set_props().
---
 reservoirflow/grids/regular_cartesian.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ee7a1bb..bbccaa5 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2410,6 +2410,13 @@ class RegularCartesian(Grid):
         #     self.props[name] = prop.reshape(fshape)
         #     s = "cell id " + str(id)
         if name in self.__props__.keys():
+            RegularCartesian.get_cell_k.cache_clear()
+            RegularCartesian.get_cell_G.cache_clear()
+            RegularCartesian.is_homogeneous.fget.cache_clear()
+            RegularCartesian.is_heterogeneous.fget.cache_clear()
+            RegularCartesian.is_isotropic.fget.cache_clear()
+            RegularCartesian.is_anisotropic.fget.cache_clear()
+
             if id is None and coords is None:
                 self.__props__[name] = self.get_ones(True, False, False) * value
                 s = "all cells"
-- 
2.43.0


From e823c7400697141a1263de4a47cbfb34d6437727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 06/28] fix: consider boundary cells in is_isotropic

The flag selects the uniform-permeability shortcut for faces shared with
boundary cells too, where a different boundary permeability was averaged
arithmetically.
---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index bbccaa5..a6c0d90 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2723,7 +2723,7 @@ class RegularCartesian(Grid):
         props = ["kx", "ky", "kz"]
         props = [name for name in props if self.__props__[name] is not None]
         for name in props:
-            prop = self.get_prop(name, False, False)
+            prop = self.get_prop(name, True, False)
             if not np.all(prop == prop[0]):
                 return False
         return True
-- 
2.43.0


From de36056d8ac177b1f826250b79c20fd5d585b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 07/28] fix: treat all synonyms of a constant pressure boundary
 alike

'p', 'press' and other letter cases were accepted but acted as a no-flow
boundary in the vectorized assembly and were not updated otherwise.
---
 reservoirflow/models/black_oil.py        | 4 +++-
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 64c1142..dab29e3 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -592,7 +592,9 @@ class BlackOil(Model):
             self.set_boundary(cell_id, cond, v)
 
         self.bdict_update = [
-            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
+            id_b
+            for id_b in self.bdict.keys()
+            if self.bdict[id_b][0].lower() in ["pressure", "press", "p"]
         ]
 
     def set_all_boundaries(self, cond, v):
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8d3a161..f8afba0 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -580,7 +580,7 @@ class FDM(Solution):
             id = self.model.grid.get_cell_neighbors(id_b, None, False, "list")
             if len(id) > 0:
                 id = id[0]
-                if self.model.bdict[id_b][0] == "pressure":
+                if id_b in self.bdict_v:
                     self.d_[self.model.cells_i_dict[id], 0] -= self.bdict_v[id_b][0]
                 else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
                     self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
-- 
2.43.0


From 02aa5605198c2be29892b8d67b4aa4241ab2a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 08/28] fix: use the rate of a constant gradient boundary in
 symbolic equations

The gradient itself was used as if it was a flow rate.
---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f8afba0..4630ae7 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -137,7 +137,7 @@ class FDM(Solution):
                 dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]
                 return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
             else:  # elif cond in ["rate", "q", "gradient", "grad", "g"]:
-                return v
+                return self.rates[self.tstep, cell_b_id]
         else:
             return 0.0
 
-- 
2.43.0


From ea46dc7d0e68381fd781efa938f7469bc378624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 09/28] fix: read pressure coefficients by symbol, not by
 position

A zero constant (e.g. pwf=0 or a zero boundary pressure) leaves a single
coefficient which was taken as the constant, or failed to unpack.
---
 reservoirflow/solutions/numerical/fdm.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 4630ae7..6c68bd9 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -544,7 +544,8 @@ class FDM(Solution):
                 ((id, T),) = self.model.get_cell_trans(id_b, None, False).items()
                 p = eval(f"sym.Symbol('p{id}')")
                 b_term = self.__calc_b_term(id, id_b, p, T)
-                v0, v1 = b_term.as_coefficients_dict().values()
+                coeffs = b_term.as_coefficients_dict()
+                v0, v1 = coeffs[1], coeffs[p]
                 self.bdict_v[id_b] = (v0, v1, id)
                 self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1
                 # self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] -= T * 2
@@ -559,14 +560,8 @@ class FDM(Solution):
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
-                v = w_term.as_coefficients_dict().values()
-                if len(v) == 1:
-                    ((v0),) = v
-                    v1 = 0
-                elif len(v) == 2:
-                    v0, v1 = v
-                else:
-                    raise ValueError("unknown length")
+                coeffs = w_term.as_coefficients_dict()
+                v0, v1 = coeffs[1], coeffs[p]
                 self.d_[self.model.cells_i_dict[id], 0] -= v0
                 if not self.resolve[id]:
                     self.A_[
-- 
2.43.0


From b5999b73997e2f43e7055d3dd43c6507f4f4195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 10/28] fix: re-solve a time step with the solver requested by
 the user

A step that is solved again after a well switched its constraint fell back
to the default iterative solver and kept the rejected matrices in history.
---
 reservoirflow/solutions/numerical/fdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 6c68bd9..2988421 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -764,8 +764,10 @@ class FDM(Solution):
             if resolve:
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
+                self.As = self.As[:-1]
+                self.ds = self.ds[:-1]
                 self.tstep -= 1
-                self.solve(threading, vectorize, False, True, False)
+                self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
 
-- 
2.43.0


From 9b69b6510f8e12ab65ba26ecc10cf5afc1c80e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 11/28] fix: time vector has exactly one entry per time step

np.arange with a non-integer step may add one more entry.
---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index dab29e3..f28ce35 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -778,7 +778,7 @@ class BlackOil(Model):
         return df
 
     def __get_time_vector(self):
-        return np.arange(0, (self.__get_tstep() + 1) * self.dt, self.dt)
+        return np.arange(self.__get_tstep() + 1) * self.dt
 
     def __update_time_scaler(self):
         time = self.__get_time_vector()
-- 
2.43.0


From 0cbb46149161ca49da734aa1df8d383e4483dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 12/28] fix: count time steps done by solve()

nsteps was only updated by run(), so get_shape() and melted dataframes were
wrong after solve(), or after a run that stopped early.
---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 2988421..d6975c4 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -751,6 +751,7 @@ class FDM(Solution):
 
         if update:
             self.tstep += 1
+            self.nsteps = self.tstep + 1
             self.pressures = np.vstack([self.pressures, self.pressures[-1]])
             self.pressures[self.tstep, self.model.grid.cells_id] = pressures
             self.rates = np.vstack([self.rates, self.rates[-1]])
@@ -813,7 +814,6 @@ class FDM(Solution):
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
         start_time = time.time()
-        self.nsteps += nsteps
         self.run_ctime = 0
         if self.model.verbose:
             self.model.verbose = False
-- 
2.43.0


From 735dd48ce29e3457218c1728d0a77bf4379085d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 13/28] fix: correct the short aliases of 2- and 3-phase
 analytical methods

---
 reservoirflow/solutions/compiler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/compiler.py b/reservoirflow/solutions/compiler.py
index 0505f1c..a543239 100644
--- a/reservoirflow/solutions/compiler.py
+++ b/reservoirflow/solutions/compiler.py
@@ -15,11 +15,11 @@ METHODS = {
         "d1p2": ["d1p2", "1d2p", "1-dimension-2-phase", "1dimension2phase"],
         "d1p3": ["d1p3", "1d3p", "1-dimension-3-phase", "1dimension3phase"],
         "d2p1": ["d2p1", "2d1p", "2-dimension-1-phase", "2dimension1phase"],
-        "d2p2": ["d2p2", "2d1p", "2-dimension-2-phase", "2dimension2phase"],
-        "d2p3": ["d2p3", "2d1p", "2-dimension-3-phase", "2dimension3phase"],
+        "d2p2": ["d2p2", "2d2p", "2-dimension-2-phase", "2dimension2phase"],
+        "d2p3": ["d2p3", "2d3p", "2-dimension-3-phase", "2dimension3phase"],
         "d3p1": ["d3p1", "3d1p", "3-dimension-1-phase", "3dimension1phase"],
-        "d3p2": ["d3p2", "3d1p", "3-dimension-2-phase", "3dimension2phase"],
-        "d3p3": ["d3p3", "3d1p", "3-dimension-3-phase", "3dimension3phase"],
+        "d3p2": ["d3p2", "3d2p", "3-dimension-2-phase", "3dimension2phase"],
+        "d3p3": ["d3p3", "3d3p", "3-dimension-3-phase", "3dimension3phase"],
     },
     "neurical": {
         "pinn": [
-- 
2.43.0


From afc1616e1e5085870d4a733221a4b7b9b4fc3b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 14/28] fix: gravity terms in the vectorized assembly

They were only added when a rate-controlled well existed, used the
transmissibility of the next face for the previous neighbour, and assumed a
1D grid in x-direction.
---
 reservoirflow/solutions/numerical/fdm.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index d6975c4..78391fa 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -501,22 +501,12 @@ class FDM(Solution):
 
     def __update_z(self):
         """_summary_"""
-        # ToDo
-        # ----
-        # - T for different geometries is still not ready.
-
-        # all 1D in x direction.
         z = self.model.grid.z[self.model.grid.cells_id]
         if not np.all(z == z[0]):
-            z_l = np.append(z[1:], np.nan)
-            z_u = np.append(np.nan, z[:-1])
-            dz_l = self.model.fluid.g * np.nan_to_num(z_l - z)
-            dz_u = self.model.fluid.g * np.nan_to_num(z_u - z)
-            # T = self.T["x"][self.model.grid.cells_id]
-            # T = np.diag(self.get_cells_T(True, False), 1)[self.model.cells_i]
-            T = self.model.get_cells_trans_diag(True, 1)[self.model.cells_id]
-            v = T * dz_l + T * dz_u
-            self.d_ += v.reshape(-1, 1)
+            T = self.model.get_cells_trans(False, self.sparse, True)
+            T_sum = np.asarray(T.sum(axis=1)).flatten()
+            v = (self.model.fluid.g * (T @ z - T_sum * z)).reshape(-1, 1)
+            self.d_ += ss.lil_matrix(v) if self.sparse else v
 
     def get_matrices_vect(self, threading=False):
         """_summary_
@@ -533,7 +523,6 @@ class FDM(Solution):
         _type_
             _description_
         """
-        update_z = False
         if self.tstep == 0 or not hasattr(self, "A_"):
             # second condition allow switching vectorize True/False after
             # timestep=0.
@@ -556,7 +545,6 @@ class FDM(Solution):
             if self.model.wells[id]["constrain"] == "q":
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
-                update_z = True
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
@@ -582,8 +570,7 @@ class FDM(Solution):
                         self.tstep, id_b
                     ]
 
-        if update_z:
-            self.__update_z()
+        self.__update_z()
 
         return self.A_, self.d_
 
-- 
2.43.0


From ed6473c43dc3e80fa63f77bcd85e62527065e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 15/28] fix: return a well to its target rate once it is
 feasible again

A well that switched from rate to bottom-hole pressure control kept its
pressure coefficient in the matrix after switching back, and went on with
the last limited rate which was also reported for the step in between.
---
 reservoirflow/solutions/numerical/fdm.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 78391fa..28929b4 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -298,10 +298,7 @@ class FDM(Solution):
 
         else:
             terms = self.model.cells_terms[cell_id]
-            if (
-                cell_id in self.model.wells.keys()
-                and self.model.wells[cell_id]["constrain"] == "pwf"
-            ):
+            if cell_id in self.model.wells.keys():
                 w_term = self.__calc_w_term(cell_id, cell_p)
                 if self.model.verbose:
                     print(f"[info] Well terms (updated): {w_term}")
@@ -543,6 +540,11 @@ class FDM(Solution):
 
         for id in self.model.wells.keys():
             if self.model.wells[id]["constrain"] == "q":
+                if self.resolve[id]:
+                    self.A_[
+                        self.model.cells_i_dict[id], self.model.cells_i_dict[id]
+                    ] -= self.resolve[id]
+                    self.resolve[id] = False
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
             elif self.model.wells[id]["constrain"] == "pwf":
@@ -555,7 +557,7 @@ class FDM(Solution):
                     self.A_[
                         self.model.cells_i_dict[id], self.model.cells_i_dict[id]
                     ] += v1
-                    self.resolve[id] = True
+                    self.resolve[id] = v1
             else:
                 pass  # no constrain
 
@@ -624,8 +626,14 @@ class FDM(Solution):
             else:
                 pwf_est = self.model.wells[id]["pwf"]
 
+            restore_q = False
             if pwf_est > self.model.wells[id]["pwf_sp"]:
-                self.model.wells[id]["constrain"] = "q"
+                # target rate is feasible again after a step with pwf:
+                restore_q = self.model.wells[id]["constrain"] == "pwf"
+                if restore_q:
+                    pwf_est = self.model.wells[id]["pwf_sp"]
+                else:
+                    self.model.wells[id]["constrain"] = "q"
             else:
                 if (
                     pwf_est < self.model.wells[id]["pwf_sp"]
@@ -639,6 +647,9 @@ class FDM(Solution):
             self.model.wells[id]["pwf"] = pwf_est
             q_est = self.__calc_w_term(id, self.pressures[self.tstep, id])
             self.model.wells[id]["q"] = self.rates[self.tstep, id] = q_est
+            if restore_q:
+                self.model.wells[id]["q"] = self.model.wells[id]["q_sp"]
+                self.model.wells[id]["constrain"] = "q"
 
             if resolve:
                 return True
-- 
2.43.0


From eea725baff410e462206beb2270728ab610f049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 16/28] fix: honour the rate of a well set using a Well object

set_well(well=...) stored the attributes of the object itself without a
constraint, so the well was ignored by the solver. SingleCell also dropped
zero values such as a skin factor of zero.
---
 reservoirflow/models/black_oil.py  | 7 +++----
 reservoirflow/wells/single_cell.py | 8 ++++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index f28ce35..af9b832 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -480,10 +480,9 @@ class BlackOil(Model):
         if well is not None:
             if cell_id is None:
                 cell_id = well.cell_id
-            assert (
-                cell_id in self.grid.cells_id
-            ), "a well must be placed within the reservoir"
-            self.wells[cell_id] = vars(well)
+            self.wells.pop(cell_id, None)
+            q, pwf, r, s = (getattr(well, k, None) for k in ["q", "pwf", "r", "s"])
+            return self.set_well(None, cell_id, q, pwf, r, s)
         else:
             assert cell_id is not None, "id must be defined"
             assert (
diff --git a/reservoirflow/wells/single_cell.py b/reservoirflow/wells/single_cell.py
index d512343..423de26 100644
--- a/reservoirflow/wells/single_cell.py
+++ b/reservoirflow/wells/single_cell.py
@@ -31,13 +31,13 @@ class SingleCell(Well):
         self.constrain = constrain
 
     def set_props(self, cell_id=None, q=None, s=None, r=None, constrain=None):
-        if cell_id:
+        if cell_id is not None:
             self.set_cell_id(cell_id)
-        if q:
+        if q is not None:
             self.set_q(q)
-        if s:
+        if s is not None:
             self.set_s(s)
-        if r:
+        if r is not None:
             self.set_r(r)
         self.set_constrain(constrain)
 
-- 
2.43.0


From 3f1271bd355e659e9071394e3bd56e3a5057ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 17/28] fix: changing a well does not add entries to its
 pressure history

---
 reservoirflow/models/black_oil.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index af9b832..b39b099 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -501,9 +501,10 @@ class BlackOil(Model):
                     self.wells[cell_id]["constrain"] = "pwf"
                 # newtest
                 # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-                self.w_pressures[cell_id].append(
-                    self.__get_pressure(self.__get_tstep(), cell_id)
-                )
+                if len(self.w_pressures[cell_id]) == 0:
+                    self.w_pressures[cell_id].append(
+                        self.__get_pressure(self.__get_tstep(), cell_id)
+                    )
             if "constrain" not in self.wells[cell_id].keys():
                 self.wells[cell_id]["constrain"] = None
             if r is not None:
@@ -518,9 +519,10 @@ class BlackOil(Model):
             self.wells[cell_id]["pwf_sp"] = 0
             # newtest
             # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-            self.w_pressures[cell_id].append(
-                self.__get_pressure(self.__get_tstep(), cell_id)
-            )
+            if len(self.w_pressures[cell_id]) == 0:
+                self.w_pressures[cell_id].append(
+                    self.__get_pressure(self.__get_tstep(), cell_id)
+                )
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
-- 
2.43.0


From bac7845401ffc796254039f7e1642991fc0c0c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 18/28] fix: set_all_boundaries() registers the conditions used
 by the solver

The conditions were only written to the initial arrays and had no effect on
the flow equations.
---
 reservoirflow/models/black_oil.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index b39b099..b84cd4f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -613,8 +613,7 @@ class BlackOil(Model):
             constant value to specify the condition in cond argument.
         """
         boundaries = self.grid.get_boundaries("id", "tuple")
-        for cell_id in boundaries:
-            self.set_boundary(cell_id, cond, v)
+        self.set_boundaries({cell_id: (cond, v) for cell_id in boundaries})
 
     # -------------------------------------------------------------------------
     # Flow Equations:
-- 
2.43.0


From 6b3a795d7d9fc793725006dd6ba9c044870762de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 19/28] fix: boundary conditions set after compile() reach the
 solution

A solution copies the initial arrays when it is compiled, so a boundary rate
set afterwards was ignored.
---
 reservoirflow/models/black_oil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index b84cd4f..ff00d3a 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -228,6 +228,8 @@ class BlackOil(Model):
     def __set_pressure(self, tstep, cell_id, value):
         if tstep == 0:
             self.init_pressures[tstep, cell_id] = value
+            if self.solution is not None:
+                self.solution.pressures[tstep, cell_id] = value
         else:
             assert self.solution is not None, "Model was not compiled."
             if tstep is None:
@@ -248,6 +250,8 @@ class BlackOil(Model):
     def __set_rate(self, tstep, cell_id, value):
         if tstep == 0:
             self.init_rates[tstep, cell_id] = value
+            if self.solution is not None:
+                self.solution.rates[tstep, cell_id] = value
         else:
             assert self.solution is not None, "Model was not compiled."
             if tstep is None:
-- 
2.43.0


From 1bb312e0ce89bb92f5a42bf921b53b240e1b80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 20/28] fix: D1P1 pressures have one row per time step

get_alpha() has one value per cell, so the solution had a row for every
cell and time step. D1P1 assumes a homogeneous reservoir with one value.
---
 reservoirflow/solutions/analytical/d1p1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 804a591..5356ebf 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -36,7 +36,7 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
+        tD = self.model.get_alpha()[self.model.cells_id[0]] * t / (L**2)
         tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
 
         # Dependent variable: p
@@ -145,7 +145,7 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
+        tD = self.model.get_alpha()[self.model.cells_id[0]] * t / (L**2)
         tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
 
         # Dependent variable: p
-- 
2.43.0


From 46c66b5351aacb50eeeb1c96aa6bb64de64b41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 21/28] fix: set_boundary() registers the condition used by the
 solver

A condition set for a single boundary cell was only written to the initial
arrays and had no effect on the flow equations.
---
 reservoirflow/models/black_oil.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index ff00d3a..c9100ef 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -576,6 +576,10 @@ class BlackOil(Model):
         else:
             raise ValueError(f"cond argument {cond} is unknown.")
 
+        if self.bdict.get(cell_b_id) != (cond, v):
+            self.bdict[cell_b_id] = (cond, v)
+            self.__update_bdict()
+
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
 
@@ -589,13 +593,16 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
-        self.bdict = bdict
+        self.bdict = dict(bdict)
         boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
             assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
             cond, v = bdict[cell_id]
             self.set_boundary(cell_id, cond, v)
+        self.__update_bdict()
 
+    def __update_bdict(self):
+        """Update the list of boundaries with constant pressure."""
         self.bdict_update = [
             id_b
             for id_b in self.bdict.keys()
-- 
2.43.0


From 802e055ae2f4c39d05752b74d7897e079aeac695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 22/28] fix: accept conditions in boundary cells without an
 interior neighbour

Setting the pressure or its gradient in all boundaries of a 2D or 3D grid
failed because the cells at the edges have no face with the interior.
---
 reservoirflow/models/black_oil.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c9100ef..686725f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -565,14 +565,14 @@ class BlackOil(Model):
             # self.pressures[self.get_tstep(), cell_b_id] = v
             self.__set_pressure(self.__get_tstep(), cell_b_id, v)
         elif cond in ["gradient", "grad", "g"]:
-            ((cell_id, T),) = self.get_cell_trans(cell_b_id, None, False).items()
-            cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
-            dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(
-                self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
-            )
+            for cell_id, T in self.get_cell_trans(cell_b_id, None, False).items():
+                cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
+                dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
+                # newtest
+                # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
+                self.__set_rate(
+                    self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
+                )
         else:
             raise ValueError(f"cond argument {cond} is unknown.")
 
@@ -607,6 +607,7 @@ class BlackOil(Model):
             id_b
             for id_b in self.bdict.keys()
             if self.bdict[id_b][0].lower() in ["pressure", "press", "p"]
+            and len(self.grid.get_cell_neighbors(id_b, None, False, "list")) > 0
         ]
 
     def set_all_boundaries(self, cond, v):
-- 
2.43.0


From c429b8e4cf2df1327f918b10a0245ca4a126bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 23/28] fix: no rate in boundary cells without an interior
 neighbour

It never entered the reservoir but was counted in the material balance.
---
 reservoirflow/models/black_oil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 686725f..4cdb85d 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -559,6 +559,8 @@ class BlackOil(Model):
         if cond in ["rate", "q"]:
             # newtest
             # self.rates[self.get_tstep(), cell_b_id] = v
+            if len(self.grid.get_cell_neighbors(cell_b_id, None, False, "list")) == 0:
+                v = 0  # no face with the interior.
             self.__set_rate(self.__get_tstep(), cell_b_id, v)
         elif cond in ["pressure", "press", "p"]:
             # newtest
-- 
2.43.0


From bc87abc35ad87824a689626a7e38f1839ad66c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 24/28] fix: set_prop() refreshes the property attributes used
 by the model

---
 reservoirflow/grids/regular_cartesian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index a6c0d90..20fd18b 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2419,6 +2419,10 @@ class RegularCartesian(Grid):
 
             if id is None and coords is None:
                 self.__props__[name] = self.get_ones(True, False, False) * value
+                if name != "comp":
+                    setattr(self, name, self.__props__[name])
+                if name in ("kx", "ky", "kz"):
+                    self.k[name[1]] = self.__props__[name]
                 s = "all cells"
             else:
                 if id is not None:
-- 
2.43.0


From 44f8e780151e40bae6aa7ae32008aff88cca56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 25/28] fix: hydrostatic gradient follows a change of the unit
 system

---
 reservoirflow/fluids/single_phase.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/reservoirflow/fluids/single_phase.py b/reservoirflow/fluids/single_phase.py
index cc0d8bb..da1f8fe 100644
--- a/reservoirflow/fluids/single_phase.py
+++ b/reservoirflow/fluids/single_phase.py
@@ -89,6 +89,19 @@ class SinglePhase(Fluid):
         super().__init__(unit, dtype, verbose)
         self.set_props(mu, B, rho, comp)
 
+    def set_units(self, unit: str = "field"):
+        """Set fluid units.
+
+        Parameters
+        ----------
+        unit : str ('field', 'metric', 'lab'), optional
+            unit used in input and output. The hydrostatic gradient of a
+            defined density is updated based on the selected `unit`.
+        """
+        super().set_units(unit)
+        if hasattr(self, "rho"):
+            self.set_rho(self.rho)
+
     def set_mu(self, mu):
         """Set fluid viscosity.
 
-- 
2.43.0


From e6e09f7d8da3a71c87e537355c3c980182ea08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 26/28] fix: set_boundary() rejects cells that are no boundary
 cells

---
 reservoirflow/models/black_oil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 4cdb85d..cfe0456 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -555,6 +555,10 @@ class BlackOil(Model):
         # ToDo
         # ----
         # - d is taken at x direction for gradient.
+        assert (
+            cell_b_id in self.boundaries_id
+        ), f"cell {cell_b_id} is not a boundary cell."
+
         cond = cond.lower()
         if cond in ["rate", "q"]:
             # newtest
-- 
2.43.0


From b36d9867bceef3bf720a1efdceff3a8bdb50e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 27/28] fix: number of stored steps is restored when a step is
 solved again

If the second solve of a time step fails, nsteps (and with it get_shape) counted
a level that was not stored.
---
 reservoirflow/solutions/numerical/fdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 28929b4..491af8f 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -766,6 +766,7 @@ class FDM(Solution):
                 self.As = self.As[:-1]
                 self.ds = self.ds[:-1]
                 self.tstep -= 1
+                self.nsteps = self.tstep + 1
                 self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
-- 
2.43.0


From 6b030f2cfd360f6d896a7353f37abcdcf27be2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 28/28] fix: symbolic cell equations keep all unknowns on the
 left-hand side

Where the constants of an equation cancelled (for instance an initial pressure
of zero), it was not simplified, or simplified to an equation with unknowns on
both sides, and the symbolic assembly failed or lost terms.
---
 reservoirflow/solutions/numerical/fdm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 491af8f..6bfa284 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -213,9 +213,13 @@ class FDM(Solution):
     def __simplify_eq(self, cell_eq):
         if (
             cell_eq.lhs.as_coefficients_dict()[1] != 0.0
-            or cell_eq.rhs.as_coefficients_dict()[1] != 0.0
+            or cell_eq.rhs.free_symbols
         ):
-            cell_eq = cell_eq.simplify()
+            # all symbols on the left (simplify keeps some on the right when the
+            # constants cancel)
+            eq = cell_eq.lhs - cell_eq.rhs
+            constant = eq.as_coefficients_dict()[1]
+            cell_eq = sym.Eq(eq - constant, -constant)
         return cell_eq
 
     def get_cell_eq(self, cell_id):
-- 
2.43.0

