From b07df2832a339867367d3bd44205a43b9f805a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 01/26] fix: blend the two copies of a periodic boundary
 interface identically

---
 fvhoe/slope_limiting.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index a13f12d..479db0f 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -295,14 +295,14 @@ def broadcast_to_troubled_interfaces(
         alloc_trouble[tuple(slices)] = trouble
         # apply periodic boundary conditions
         if periodic_x and xdim:
-            alloc_trouble[:2, 2:-2, 2:-2] = trouble[-2:, :, :]
-            alloc_trouble[-2:, 2:-2, 2:-2] = trouble[:2, :, :]
+            alloc_trouble[:2, :, :] = alloc_trouble[-4:-2, :, :]
+            alloc_trouble[-2:, :, :] = alloc_trouble[2:4, :, :]
         if periodic_y and ydim:
-            alloc_trouble[2:-2, :2, 2:-2] = trouble[:, -2:, :]
-            alloc_trouble[2:-2, -2:, 2:-2] = trouble[:, :2, :]
+            alloc_trouble[:, :2, :] = alloc_trouble[:, -4:-2, :]
+            alloc_trouble[:, -2:, :] = alloc_trouble[:, 2:4, :]
         if periodic_z and zdim:
-            alloc_trouble[2:-2, 2:-2, :2] = trouble[2:-2, 2:-2, -2:]
-            alloc_trouble[2:-2, 2:-2, -2:] = trouble[2:-2, 2:-2, :2]
+            alloc_trouble[:, :, :2] = alloc_trouble[:, :, -4:-2]
+            alloc_trouble[:, :, -2:] = alloc_trouble[:, :, 2:4]
     # broadcast troubled cells to interfaces
     if convex:
         # convex broadcast
@@ -378,6 +378,19 @@ def broadcast_to_troubled_interfaces(
             troubled_z_interfaces[:, :, :-1] = np.maximum(
                 troubled_z_interfaces[:, :, :-1], trouble
             )
+    # the first and last interfaces are the same one along a periodic dimension
+    if periodic_x and "x" in dims:
+        troubled_x_interfaces[[0, -1], :, :] = np.maximum(
+            troubled_x_interfaces[:1, :, :], troubled_x_interfaces[-1:, :, :]
+        )
+    if periodic_y and "y" in dims:
+        troubled_y_interfaces[:, [0, -1], :] = np.maximum(
+            troubled_y_interfaces[:, :1, :], troubled_y_interfaces[:, -1:, :]
+        )
+    if periodic_z and "z" in dims:
+        troubled_z_interfaces[:, :, [0, -1]] = np.maximum(
+            troubled_z_interfaces[:, :, :1], troubled_z_interfaces[:, :, -1:]
+        )
     troubled_x_interfaces = troubled_x_interfaces[np.newaxis, ...]
     troubled_y_interfaces = troubled_y_interfaces[np.newaxis, ...]
     troubled_z_interfaces = troubled_z_interfaces[np.newaxis, ...]
-- 
2.43.0


From 616e0731104b6048ffefb47b8a8ea49fc30c4acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 02/26] fix: flag a cell when any of the bounded variables
 leaves its PAD bounds

---
 fvhoe/slope_limiting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 479db0f..aef16db 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -229,8 +229,8 @@ def detect_troubled_cells(
     PAD_indicator = np.zeros_like(NAD_violation_magnitude)
     if PAD_bounds is not None:
         for var, (lowr, uppr) in PAD_bounds.items():
-            PAD_indicator[...] = (
-                u_candidate_inner[_hs(var)] - lowr
+            PAD_indicator[...] = np.minimum(
+                PAD_indicator, u_candidate_inner[_hs(var)] - lowr
             )  # lower PAD difference
             PAD_indicator[...] = np.minimum(
                 PAD_indicator, uppr - u_candidate_inner[_hs(var)]
-- 
2.43.0


From 1fea90c9206abd0e6ec2d341c0f03c4b881e95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 03/26] fix: treat flat regions alike in the left and right
 smooth extrema detectors

---
 fvhoe/smooth_extrema_detection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/smooth_extrema_detection.py b/fvhoe/smooth_extrema_detection.py
index 04c3df8..1154642 100644
--- a/fvhoe/smooth_extrema_detection.py
+++ b/fvhoe/smooth_extrema_detection.py
@@ -36,6 +36,7 @@ def compute_1d_smooth_extrema_detector(
     alphaL[...] = (
         -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
     )
+    alphaL[...] = np.where(np.abs(dv) <= eps, 1, alphaL)
     alphaL[...] = np.where(alphaL < 1, alphaL, 1)
 
     # right detector
-- 
2.43.0


From 9e3bee1fa9efcc8aa4e667cc45d6c65e8a530bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 04/26] fix: save snapshots when pointwise initial conditions
 are not defined

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 1d70828..a3f89ad 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -918,6 +918,7 @@ class EulerSolver(ODE):
                 (callable(v) and k != "am")
                 or isinstance(v, np.ndarray)
                 or isinstance(v, cp_ndarray)
+                or v is NotImplemented
                 or k
                 in [
                     "progress_bar",
-- 
2.43.0


From 70babe81bd102db555bddbedaf1c04c278b98a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 05/26] fix: average troubles of the first step over its own
 substeps only

---
 fvhoe/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index a3f89ad..36c0dec 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -397,7 +397,7 @@ class EulerSolver(ODE):
         self.SED = SED
         self.SED_tolerance = SED_tolerance
         self.convex = convex
-        self.trouble_counter = 1
+        self.trouble_counter = 0
 
     def _init_array_allocation(self):
         """
-- 
2.43.0


From 234d4852684fd63bf0de52c94a1a37ed04ef55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 06/26] fix: log one trouble value per cell

---
 fvhoe/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 36c0dec..add3a4f 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -410,9 +410,9 @@ class EulerSolver(ODE):
         self.am.add("w", np.empty((nvars, nx, ny, nz)))
 
         # limiting
-        self.am.add("mean trouble", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean NAD mag", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean PAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("mean trouble", np.zeros((nx, ny, nz)))
+        self.am.add("mean NAD mag", np.zeros((nx, ny, nz)))
+        self.am.add("mean PAD mag", np.zeros((nx, ny, nz)))
 
         # fluxes
         self.am.add("F", np.empty((nvars, nx + 1, ny, nz)))
-- 
2.43.0


From 8f74f7669fabc470f18e54bde25cf248249800e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 07/26] fix: accept overlay_trouble=True as documented

---
 fvhoe/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index f99747b..0b5342d 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -120,7 +120,7 @@ def plotting_trouble(snapshot: dict, mode: str, tol: float) -> np.ndarray:
         np.where(trouble > 0, 1, 0) == np.logical_or(NAD_mag > 0, PAD_mag > 0)
     ):
         raise ValueError("trouble must be consistent with NAD and PAD")
-    if mode == "all":
+    if mode == "all" or mode is True:
         out = np.where(PAD_mag > 0, 1, np.where(NAD_mag > tol, 1, 0))
     elif mode == "NAD":
         out = np.where(NAD_mag > tol, 1, 0)
-- 
2.43.0


From 064f0b39ab0d1b45e47d7f6e34d08fb51f5eb801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 08/26] fix: pass the hydro state to the free part of the
 double Mach reflection boundary

---
 fvhoe/boundary_conditions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 2718ebf..8a2436e 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -379,7 +379,13 @@ class BoundaryCondition:
                     out_refl = out.copy()
 
                     # set free bc
-                    _set_free_bc(out_free, slab_thickness, axis=i + 1, pos=pos)
+                    _set_free_bc(
+                        hs=self.hydro_state,
+                        u=out_free,
+                        slab_thickness=slab_thickness,
+                        axis=i + 1,
+                        pos=pos,
+                    )
 
                     # set reflective bc
                     _set_symmetric_bc(
-- 
2.43.0


From 0602c36104db015128b4ec7ce44812e0d8bb1064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 09/26] fix: use the KelvinHelmholtz2D initial condition in the
 scripting wrapper

---
 fvhoe/scripting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/scripting.py b/fvhoe/scripting.py
index 7630fd2..156ce55 100644
--- a/fvhoe/scripting.py
+++ b/fvhoe/scripting.py
@@ -1,5 +1,5 @@
 from fvhoe.boundary_conditions import BoundaryCondition
-from fvhoe.initial_conditions import kelvin_helmholtz_2d
+from fvhoe.initial_conditions import InitialCondition, KelvinHelmholtz2D
 from fvhoe.solver import EulerSolver
 import matplotlib.pyplot as plt
 import numpy as np
@@ -10,7 +10,7 @@ def EulerSolver_wrapper(
     project_pref: str,
     snapshot_parent_dir: str,
     summary_parent_dir: str = None,
-    ic: callable = kelvin_helmholtz_2d,
+    ic: InitialCondition = KelvinHelmholtz2D(),
     bc: BoundaryCondition = BoundaryCondition(),
     T: float = 1.0,
     integrator: int = -1,
@@ -26,7 +26,7 @@ def EulerSolver_wrapper(
         snapshot_parent_dir (str) : snapshot parent directory
         summary_parent_dir (str) : summary parent directory. used for saving output from snapshot
             helper functions. if None, no snapshot_helper_function is used.
-        ic (callable) : valid EulerSolver initial condition function
+        ic (InitialCondition) : valid EulerSolver initial condition object
         bc (BoundaryCondition) : valid EulerSolver boundary condition object
         T (float) : simulation time
         integrator (int) : integrator order. if -1, EulerSolver.run() is used.
-- 
2.43.0


From c9a01f2cda2ff1a6046f543dad96f6a9e8befaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 10/26] fix: evaluate the second ssprk2 stage at t + dt

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 69c9f5b..a1475e5 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -261,7 +261,7 @@ class ODE(ABC):
             dt, k0 = self.f(t, u)
             dt = _hit_target(t=t, dt=dt, target=target_time)
             u1 = u + dt * k0
-            _, k1 = self.f(t, u1)
+            _, k1 = self.f(t + dt, u1)
             unext = 0.5 * u + 0.5 * (u1 + dt * k1)
             return dt, unext
 
-- 
2.43.0


From 33b6d126f4f555f0f5063bdad820400359b3e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 11/26] fix: ignore downbeats that have already been reached

---
 fvhoe/ode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index a1475e5..a1699e5 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -144,10 +144,9 @@ class ODE(ABC):
         elif isinstance(downbeats, np.ndarray):
             downbeats = downbeats.tolist()
 
-        downbeats = sorted(set([0] + downbeats + [T]))[
-            1:
-        ]  # get unique values and ignore 0
-        target_time = downbeats.pop(0) if exact else None
+        # get unique values and ignore the ones that have already been reached
+        downbeats = sorted(set(tb for tb in [*downbeats, T] if tb > self.t))
+        target_time = downbeats.pop(0) if exact and downbeats else None
 
         # initial snapshot
         self.snapshot()
-- 
2.43.0


From e7c85da8c4c87308725d704d5b964686cee3d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 12/26] fix: land exactly on target times

---
 fvhoe/ode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index a1699e5..b0e1e51 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -186,7 +186,11 @@ class ODE(ABC):
         dt, self.am("u")[...] = self.stepper(
             self.t, self.am("u"), target_time=target_time
         )
-        self.t += dt
+        # land exactly on the target time when the step was shortened to reach it
+        if target_time is not None and dt == target_time - self.t:
+            self.t = target_time
+        else:
+            self.t += dt
         self.timestamps.append(self.t)
         self.step_count += 1
         self.step_helper_function()
-- 
2.43.0


From 4fd367194c4c500bb6f69ebf269c3013bc464385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 13/26] fix: restore snapshot times when reading snapshots

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index add3a4f..e91ea04 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -882,6 +882,7 @@ class EulerSolver(ODE):
         if os.path.exists(self.snapshot_dir):
             with open(os.path.join(self.snapshot_dir, "arrs.pkl"), "rb") as f:
                 self.snapshots = pickle.load(f)
+            self.snapshot_times = [snapshot["t"] for snapshot in self.snapshots]
             print(f"Read from snapshot directory {self.snapshot_dir}")
             return True
         return False
-- 
2.43.0


From bc63183438c3a7f7968245b8d2accadc066cddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 14/26] fix: refuse passive scalars named like another variable

---
 fvhoe/hydro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index b63f9f2..72ee3e7 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -52,6 +52,11 @@ class HydroState:
         if len(self.passive_scalars) != len(set(self.passive_scalars)):
             raise ValueError("Duplicate passive scalar names.")
 
+        # check no passive scalar hides another variable
+        hidden = {*self.variable_map, "passive_scalars"} & set(self.passive_scalars)
+        if hidden:
+            raise ValueError(f"Reserved passive scalar names: {hidden}")
+
         # add passive scalars to variable map
         if self.passive_scalars:
             for i, scalar in enumerate(self.passive_scalars, start=5):
-- 
2.43.0


From 030353561233acceafe4b3beeedf65684ae6ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 15/26] fix: plot each variable once in plot_fields

---
 fvhoe/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index e91ea04..0d9313d 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -987,7 +987,7 @@ class EulerSolver(ODE):
             varnames = ["rho", "P", "v", "vx", "vy", "vz"]
             varlabels = [r"$\rho$", r"$P$", r"$v$", r"$v_x$", r"$v_y$", r"$v_z$"]
             for i, j in product([0, 1], [0, 1, 2]):
-                im = self.plot_2d_slice(axs[i, j], param=varnames[i + j], **kwargs)
+                im = self.plot_2d_slice(axs[i, j], param=varnames[3 * i + j], **kwargs)
                 im_ax = fig.add_axes(
                     [
                         axs[i, j].get_position().x0 + axs[i, j].get_position().width,
@@ -996,7 +996,7 @@ class EulerSolver(ODE):
                         axs[i, j].get_position().height,
                     ]
                 )
-                fig.colorbar(im, cax=im_ax, label=varlabels[i + j])
+                fig.colorbar(im, cax=im_ax, label=varlabels[3 * i + j])
             return fig, axs
         raise NotImplementedError(
             "Plotting is only implemented for 1D and 2D simulations."
-- 
2.43.0


From 36e11c481b963aa7f931587aa280e668b77b4291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:43 +0000
Subject: [PATCH 16/26] fix: fill ghost zones that are wider than the domain
 from the domain

---
 fvhoe/boundary_conditions.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 8a2436e..e1d50c3 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -99,6 +99,16 @@ def _set_periodic_bc(
         None, modifies u in place
     """
     st = slab_thickness
+    n = u.shape[axis] - 2 * st
+    if st > n:  # the slab wraps around the domain more than once
+        for k in range(st):
+            u[hs(axis=axis, cut=(st - 1 - k, st - k))] = u[
+                hs(axis=axis, cut=(st - 1 - k + n, st - k + n))
+            ]
+            u[hs(axis=axis, cut=(st + n + k, st + n + k + 1))] = u[
+                hs(axis=axis, cut=(st + k, st + k + 1))
+            ]
+        return
     outer_l = hs(axis=axis, cut=(0, st))
     inner_l = hs(axis=axis, cut=(st, 2 * st))
     outer_r = hs(axis=axis, cut=(-st, 0))
@@ -128,6 +138,18 @@ def _set_symmetric_bc(
         None, modifies u in place
     """
     st = slab_thickness
+    n = u.shape[axis] - 2 * st
+    if st > n:  # the slab reflects the domain more than once
+        for k in range(st):
+            even = k % (2 * n) >= n
+            src = st + (2 * n - 1 - k % (2 * n) if even else k % (2 * n))
+            dst = st - 1 - k
+            if pos == "r":
+                src, dst = 2 * st + n - 1 - src, 2 * st + n - 1 - dst
+            u[hs(axis=axis, cut=(dst, dst + 1))] = u[hs(axis=axis, cut=(src, src + 1))]
+            if negate_var is not None and not even:
+                u[hs(negate_var, axis=axis, cut=(dst, dst + 1))] *= -1.0
+        return
     flip = hs(axis=axis, cut=(0, 0), step=-1)
     if pos == "l":
         outer = hs(axis=axis, cut=(0, st))
-- 
2.43.0


From 758e18274394f5bc3d966166e4538125bf357fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:43 +0000
Subject: [PATCH 17/26] fix: evaluate time-dependent boundaries at the time of
 each Runge-Kutta stage

---
 fvhoe/solver.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 0d9313d..23b0e1f 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -424,19 +424,22 @@ class EulerSolver(ODE):
         compute the RHS of the Euler equations
         """
         self.f_evaluation_count += 1
-        return self.hydrodynamics(u)
+        return self.hydrodynamics(u, t=t)
 
-    def hydrodynamics(self, u: np.ndarray) -> Tuple[float, np.ndarray]:
+    def hydrodynamics(
+        self, u: np.ndarray, t: float = None
+    ) -> Tuple[float, np.ndarray]:
         """
         compute the Euler equation dynamics from cell-average conserved values u
         args:
             u (array_like) : fv averages of conservative variables. has shape (nvars, nx, ny, nz)
+            t (float) : time value. if None, self.t is used
         returns:
             dt, dudt (float, array_like) : time-step size, conservative variable dynamics
         """
         # high-order fluxes
         dt, (self.am("F")[...], self.am("G")[...], self.am("H")[...]) = (
-            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ")
+            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ", t=t)
         )
 
         if self.a_posteriori_slope_limiting:
@@ -447,6 +450,7 @@ class EulerSolver(ODE):
                 H=self.am("H"),
                 dt=dt,
                 force_trouble=self.force_trouble,
+                t=t,
             )
 
         # compute conservative variable dynamics
@@ -459,6 +463,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         slope_limiter: str = None,
         timer_prefix: str = "",
+        t: float = None,
     ) -> Tuple[float, Tuple[np.ndarray, np.ndarray, np.ndarray]]:
         """
         compute the Euler equation fluxes F, G, H with degree p polynomials. optionally apply slope limiting.
@@ -468,6 +473,7 @@ class EulerSolver(ODE):
             p (Tuple[int, int, int]) : polynomial interpolation degree (px, py, pz)
             limiter (str) : None, 'minmod', 'moncen'
             timer_prefix (str) : prefix for timer categories
+            t (float) : time value. if None, self.t is used
         returns:
             dt, (F, G, H) (tuple) : time-step size and numerical fluxes
                 dt (float) : time-step size
@@ -501,6 +507,7 @@ class EulerSolver(ODE):
                 gw if self.ydim else 0,
                 gw if self.zdim else 0,
             ),
+            t=t,
         )
 
         # time-step size
@@ -658,6 +665,7 @@ class EulerSolver(ODE):
         H: np.ndarray,
         dt: float,
         force_trouble: bool = False,
+        t: float = None,
     ) -> None:
         """
         revise fluxes to prevent oscillations
@@ -668,6 +676,7 @@ class EulerSolver(ODE):
             H (array_like) : z-fluxes. has shape (nvars, nx, ny, nz + 1)
             dt (float) : time-step size
             force_trouble (bool) : all cells are troubled
+            t (float) : time value. if None, self.t is used
         returns:
             None : revise fluxes in place
         """
@@ -683,8 +692,10 @@ class EulerSolver(ODE):
             3 if self.ydim else 0,
             3 if self.zdim else 0,
         )
-        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw)
-        w_star = self.interpolate_primitives_from_conservatives(ustar, p=self.p, gw=gw)
+        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw, t=t)
+        w_star = self.interpolate_primitives_from_conservatives(
+            ustar, p=self.p, gw=gw, t=t
+        )
 
         # detect troubled cells
         self.timer.start("(fallback scheme) troubled cell detection")
@@ -714,6 +725,7 @@ class EulerSolver(ODE):
                 p=(int(self.p[0] > 0), int(self.p[1] > 0), int(self.p[2] > 0)),
                 slope_limiter=self.slope_limiter,
                 timer_prefix="(fallback scheme) ",
+                t=t,
             )
 
             # get mask for troubled interfaces
@@ -756,6 +768,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         gw: Tuple[int, int, int] = (0, 0, 0),
         fv_average: bool = True,
+        t: float = None,
     ) -> np.ndarray:
         """
         interpolate finite volume primitives from finite volume conservatives
@@ -765,6 +778,7 @@ class EulerSolver(ODE):
             gw (Tuple[int, int, int]) : how many ghost zones w should have on each side (gx, gy, gz).
                 all values should be at least 0
             fv_average (bool) : whether u is cell-averaged or centroids
+            t (float) : time value. if None, self.t is used
         returns:
             w (array_like) : primitive variables as finite volume averages or centroids
         """
@@ -781,7 +795,7 @@ class EulerSolver(ODE):
             interp_cost_z = get_stencil_size(p[2])
         gw = (gw[0] + interp_cost_x, gw[1] + interp_cost_y, gw[2] + interp_cost_z)
         self.timer.start("boundary conditions")
-        u_bc = self.bc.apply(u, gw=gw, t=self.t)
+        u_bc = self.bc.apply(u, gw=gw, t=self.t if t is None else t)
         self.timer.stop("boundary conditions")
         u_cell_centers = interpolate_cell_centers(u_bc, p=p)
         w_cell_centers = compute_primitives(hs, u_cell_centers, gamma=self.gamma)
-- 
2.43.0


From b877c346ee0f040b9f52bcfe99349f9a683481f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:46 +0000
Subject: [PATCH 18/26] fix: keep the trouble color of a plot from changing
 other plots

---
 fvhoe/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 0b5342d..72b64ed 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -284,7 +284,7 @@ def plot_2d_slice(
     if overlay_trouble:
         trouble_for_plotting = np.rot90(trouble_for_plotting, 1)
     # define colormap
-    colormap = getattr(cm, cmap)
+    colormap = getattr(cm, cmap).copy()
     if overlay_trouble:
         z_for_plotting = np.where(trouble_for_plotting > 0, np.nan, z_for_plotting)
         colormap.set_bad(color=trouble_color)
-- 
2.43.0


From 6a84ea310d68545f8e2b27e1c1a90ba3f1c37553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:46 +0000
Subject: [PATCH 19/26] fix: do not truncate circular averages to the type of
 the radii

---
 fvhoe/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 72b64ed..5f4ea0a 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -349,8 +349,8 @@ def sample_circular_average(
         param_data = get_velocity_magnitude(snapshots[n]["w"])
     else:
         param_data = snapshots[n]["w"][hs(param)]
-    r_average = np.empty_like(radii[:-1])
-    bin_average = np.empty_like(radii[:-1])
+    r_average = np.empty(len(radii) - 1)
+    bin_average = np.empty(len(radii) - 1)
 
     # sample
     for i, (little_r, big_r) in enumerate(zip(radii[:-1], radii[1:])):
-- 
2.43.0


From 39c025e96504391f5f293ecbdbd87717b7c7a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:46 +0000
Subject: [PATCH 20/26] fix: accept snapshot lists in the plotting functions as
 documented

---
 fvhoe/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 5f4ea0a..08209ad 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -161,7 +161,7 @@ def plot_1d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -238,7 +238,7 @@ def plot_2d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -332,7 +332,7 @@ def sample_circular_average(
         bin_average (array_like) : average of param in each bin
         r_average (array_like) : average radius in each bin
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, _ = get_indices_from_coordinates(snapshots, t)
 
-- 
2.43.0


From 89c917d3fc9bf951ebceb3ec700f5a19ab3acafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:44 +0000
Subject: [PATCH 21/26] fix: respect progress_bar=False when taking a given
 number of steps

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index b0e1e51..bde2673 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -119,7 +119,7 @@ class ODE(ABC):
             self.snapshot()
             self.timer.stop("SNAPSHOTS")
             self.timer.start("TOTAL")
-            for _ in tqdm(range(n)):
+            for _ in tqdm(range(n), disable=not self.print_progress_bar):
                 self.take_step()
             self.timer.stop("TOTAL")
             self.timer.start("SNAPSHOTS")
-- 
2.43.0


From d77c6d8c32e5b5b681e5b03006606a1fc467be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:44 +0000
Subject: [PATCH 22/26] fix: construct solvers where git is not installed

---
 fvhoe/ode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index bde2673..a73a061 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -90,6 +90,9 @@ class ODE(ABC):
             }
         except subprocess.CalledProcessError as e:
             return {"error": f"An error occurred: {e.stderr.strip()}"}
+        except OSError as e:
+            # git is not installed
+            return {"error": f"An error occurred: {e}"}
 
     def integrate(
         self,
-- 
2.43.0


From 2e8469e21cf33af44b87d6fa0bc8e0a1046b0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:44 +0000
Subject: [PATCH 23/26] fix: take n steps when n is given along with T, as
 documented

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index a73a061..273ffd0 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -114,7 +114,7 @@ class ODE(ABC):
             snapshot_dir (str) : directory to save snapshots. if None, does not save
             overwrite (bool) : overwrite the snapshot directory if it exists
         """
-        predetermined_step_count = T is None
+        predetermined_step_count = n is not None
 
         # if given n, perform a simple time evolution
         if predetermined_step_count:
-- 
2.43.0


From 6b0b677096aeb54b938c1e49fe46fb8fbbb03cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:44 +0000
Subject: [PATCH 24/26] fix: save runs whose settings are numpy scalars

---
 fvhoe/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 23b0e1f..8ccc916 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -960,7 +960,8 @@ class EulerSolver(ODE):
         sorted_keys = sorted(attrs_to_save.keys(), key=lambda x: (x.lower(), x))
         attrs_to_save = {key: attrs_to_save[key] for key in sorted_keys}
         with open(os.path.join(snapshot_dir, "attrs.json"), "w") as f:
-            json.dump(attrs_to_save, f, indent=4)
+            # numpy scalars are not JSON-able
+            json.dump(attrs_to_save, f, indent=4, default=lambda x: x.item())
 
         # generate timing report
         with open(os.path.join(snapshot_dir, "timing.txt"), "w") as f:
-- 
2.43.0


From 6cdea3279df77f0808ca07fd6d5e83feec95a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:39 +0000
Subject: [PATCH 25/26] fix: leave the initial state given to an integrator
 unchanged

---
 fvhoe/ode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 273ffd0..95787de 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import deepcopy
 from fvhoe.array_management import ArrayManager
 from fvhoe.timer import Timer
 import numpy as np
@@ -43,7 +44,7 @@ class ODE(ABC):
         self.am = ArrayManager()
         if cupy:
             self.am.enable_cupy()
-        self.am.add("u", u0)
+        self.am.add("u", deepcopy(u0))  # steps overwrite it in place
 
         # timer
         self.timer = Timer(cats=["TOTAL", "SNAPSHOTS"])
-- 
2.43.0


From c13e7781742ef73d049823049bdab9b375ae8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:32 +0000
Subject: [PATCH 26/26] fix: let Square be evaluated without the coordinates it
 does not use

---
 fvhoe/initial_conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/initial_conditions.py b/fvhoe/initial_conditions.py
index 76195f9..6b00779 100644
--- a/fvhoe/initial_conditions.py
+++ b/fvhoe/initial_conditions.py
@@ -159,7 +159,7 @@ class Square(InitialCondition):
                     np.logical_and(r > 0.25, r < 0.75) if dim in dims else True
                 )
 
-            out = np.empty((5,) + r.shape)
+            out = np.empty((5,) + x.shape)
             out[_hs("rho")] = np.where(inside_square, rho_min_max[1], rho_min_max[0])
             out[_hs("vx")] = vx
             out[_hs("vy")] = vy
-- 
2.43.0

