From 6af58de194f7eb46858bd9f413dc26c1d54b99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 01/26] fix: stack mid-point rows of degree-one segments as a
 column vector

---
 mpopt/mpopt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c6a4bd6..a6befde 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -363,7 +363,7 @@ class mpopt:
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            mU.append(ui[:])
+            mU.append(ca.vec(ui))
             n_mid = ui.size1()
             mUmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             mUmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3067,7 +3067,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            sw.append(ui[:])
+            sw.append(ca.vec(ui))
             n_mid = ui.size1()
             swmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             swmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3076,7 +3076,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbx[phase] > -np.inf).any() or (
             self._ocp.ubx[phase] < np.inf
         ).any():
-            sw.append(xi[:])
+            sw.append(ca.vec(xi))
             n_mid = xi.size1()
             swmin.append(np.repeat(self._ocp.lbx[phase] * self._ocp.scale_x, n_mid))
             swmax.append(np.repeat(self._ocp.ubx[phase] * self._ocp.scale_x, n_mid))
@@ -3116,9 +3116,8 @@ class mpopt_adaptive(mpopt):
                 start, end = sum(n_taus[:seg]), sum(n_taus[: (seg + 1)])
                 if start == end:
                     continue
-                residual_phase[seg] = (
-                    self.seg_widths[seg, phase]
-                    * (Dxi[start:end, :] - ca.vertcat(*f))[:]
+                residual_phase[seg] = self.seg_widths[seg, phase] * ca.vec(
+                    Dxi[start:end, :] - ca.vertcat(*f)
                 )
 
             residuals = ca.vertcat(*residual_phase)
-- 
2.43.0


From fb63ef64fa5f0be056d29afe3b54180321d1544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 02/26] fix: count both sides of every segment boundary in the
 running-cost quadrature

---
 mpopt/mpopt.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index a6befde..783cfd7 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -98,6 +98,7 @@ class mpopt:
         self.collocation = Collocation(self.poly_orders, scheme)
         self._compD = self.collocation.get_composite_differentiation_matrix()
         self._compW = self.collocation.get_composite_quadrature_weights()
+        self._quadW = self.collocation.get_quad_weight_matrices()
         self._taus = self.collocation.roots
         self.tau0, self.tau1 = self.collocation.tau0, self.collocation.tau1
         self._collocation_approximation_computed = True
@@ -203,7 +204,19 @@ class mpopt:
             if has_constraints:
                 c[index] = ca.vertcat(*path_constraints(x, u, t, a)).T
             # running cost
-            q[index] = h_seg * ca.vertcat(running_costs(x, u, t, a)).T
+            if point == self.poly_orders[seg] and seg + 1 < self.n_segments:
+                # Node shared by two segments: each side counts with its own width
+                w_end = self._quadW[self.poly_orders[seg]][-1]
+                w_start = self._quadW[self.poly_orders[seg + 1]][0]
+                h_next = (
+                    (tf - t0)
+                    / (self.tau1 - self.tau0)
+                    * self.seg_widths[seg + 1, phase]
+                )
+                h_cost = (w_end * h_seg + w_start * h_next) / (w_end + w_start)
+            else:
+                h_cost = h_seg
+            q[index] = h_cost * ca.vertcat(running_costs(x, u, t, a)).T
 
             point += 1
             self.time_grid[phase][index] = t
@@ -4056,9 +4069,11 @@ class Collocation:
             tau1 = self.tau1
 
         quad_mats = self.get_quad_weight_matrices(poly_orders, tau0=tau0, tau1=tau1)
-        comp_quad_weights = ca.vertcat(
-            *([quad_mats[poly_orders[0]][0]] + [quad_mats[p][1:] for p in poly_orders])
-        ).T
+        comp_quad_weights = ca.DM.zeros(1, sum(poly_orders) + 1)
+        for i, p in enumerate(poly_orders):
+            # Segment boundaries collect the weights of both neighbouring segments
+            start = sum(poly_orders[:i])
+            comp_quad_weights[0, start : start + p + 1] += quad_mats[p].T
 
         return comp_quad_weights
 
-- 
2.43.0


From 6a5e23741c2656a46aff6613aaa8354c67e884a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 03/26] fix: accept multi-phase problems without phase links

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 783cfd7..179dcc3 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -485,7 +485,7 @@ class mpopt:
                     phase linking constraints, discontinuities across
                     states, controls and time variables.
         """
-        if self._ocp.n_phases < 2:
+        if self._ocp.n_phases < 2 or len(self._ocp.phase_links) == 0:
             return ([], [], [])
         if not self._variables_created:
             self.create_variables()
-- 
2.43.0


From feef983317f8ed53ab51b0fc0d490c12dcbac576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 04/26] fix: impose control slope limits on the time derivative
 in user units

---
 mpopt/mpopt.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 179dcc3..5a6f8bc 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -331,10 +331,27 @@ class mpopt:
                 if self._ocp.nu > 1
                 else self._compD
             )
-            DU = ca.mtimes(_compDU, self.U[phase][:])
-            nDu = DU.size1()
-            DUmin = [self._ocp.lbdu[phase]] * (nDu)
-            DUmax = [self._ocp.ubdu[phase]] * (nDu)
+            dU = ca.mtimes(_compDU, self.U[phase][:])
+            nDu = dU.size1()
+            # Duration of the segment of each node per unit of collocation coordinate
+            duration = (self.tf[phase] - self.t0[phase]) / self._ocp.scale_t
+            h_seg = duration / (self.tau1 - self.tau0) * self.seg_widths[:, phase]
+            seg_of_node = [0] + [
+                seg for seg, deg in enumerate(self.poly_orders) for _ in range(deg)
+            ]
+            dt = ca.vertcat(*[h_seg[seg] for seg in seg_of_node])
+            dt = ca.kron(ca.vertcat(self._ocp.scale_u), dt)
+            # lbdu <= du/dt <= ubdu in user units, du/dt = dU / (scale_u * dt/dtau)
+            DU, DUmin, DUmax = [], [], []
+            if self._ocp.lbdu[phase] > -np.inf:
+                DU.append(dU - self._ocp.lbdu[phase] * dt)
+                DUmin += [0] * nDu
+                DUmax += [np.inf] * nDu
+            if self._ocp.ubdu[phase] < np.inf:
+                DU.append(dU - self._ocp.ubdu[phase] * dt)
+                DUmin += [-np.inf] * nDu
+                DUmax += [0] * nDu
+            DU = ca.vertcat(*DU) if DU else []
         else:
             DU, DUmin, DUmax = [], [], []
 
-- 
2.43.0


From 0383ab1e4762e792f4f8192371be23d51cc4dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 05/26] fix: make the control time derivative continuous across
 unequal segments

---
 mpopt/mpopt.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 5a6f8bc..027e48a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -430,12 +430,14 @@ class mpopt:
         comp_interpolation_D = self.collocation.get_composite_interpolation_Dmatrix_at(
             taus_end, self.poly_orders, order=1
         )
-        _compD = comp_interpolation_D[1:-1][::2] - comp_interpolation_D[2:-1][::2]
-
-        _compDU = (
-            ca.kron(ca.DM.eye(self._ocp.nu), _compD) if self._ocp.nu > 1 else _compD
+        D_end = comp_interpolation_D[1:-1][::2]
+        D_start = comp_interpolation_D[2:-1][::2]
+        # Time derivatives on both sides of a boundary (each scaled by the other width)
+        widths = self.seg_widths[:, phase]
+        dU = ca.vec(
+            ca.mtimes(ca.diag(widths[1:]), ca.mtimes(D_end, self.U[phase]))
+            - ca.mtimes(ca.diag(widths[:-1]), ca.mtimes(D_start, self.U[phase]))
         )
-        dU = ca.mtimes(_compDU, self.U[phase][:])
         nDu = dU.size1()
         dUmin = [0] * (nDu)
         dUmax = [0] * (nDu)
-- 
2.43.0


From 49510bf20d8a9f966040c8834b6ed08aa6a91dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 06/26] fix: honour du_continuity in the adaptive optimizer

---
 mpopt/mpopt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 027e48a..ebd6d4e 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3190,6 +3190,11 @@ class mpopt_adaptive(mpopt):
             mayer_term,
         ) = self.get_nlp_constraints_for_terminal_contraints(phase)
         (DU, DUmin, DUmax) = self.get_nlp_constraints_for_control_input_slope(phase)
+        (
+            dU,
+            dUmin,
+            dUmax,
+        ) = self.get_nlp_constrains_for_control_slope_continuity_across_segments(phase)
 
         # Constraints related to segment widths
         (SW, SWmin, SWmax) = self.get_nlp_constrains_for_segment_widths(phase)
@@ -3198,9 +3203,9 @@ class mpopt_adaptive(mpopt):
         J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))
 
         # Merge constraint vectors into sigle constraint vector
-        G = ca.vertcat(*[F, C, DU, TC, SW])
-        Gmin = np.concatenate([Fmin, Cmin, DUmin, TCmin, SWmin])
-        Gmax = np.concatenate([Fmax, Cmax, DUmax, TCmax, SWmax])
+        G = ca.vertcat(*[F, C, DU, dU, TC, SW])
+        Gmin = np.concatenate([Fmin, Cmin, DUmin, dUmin, TCmin, SWmin])
+        Gmax = np.concatenate([Fmax, Cmax, DUmax, dUmax, TCmax, SWmax])
 
         return (G, Gmin, Gmax, J)
 
-- 
2.43.0


From 84d2d636bd8836dd3ab5a4f4e5e55c3dac63da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 07/26] fix: order the control guess like the decision vector
 and allow equal guessed times

---
 mpopt/mpopt.py | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index ebd6d4e..998ff79 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -697,12 +697,8 @@ class mpopt:
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * fraction
+                    for fraction in np.linspace(0, 1, self._Npoints)
                 ]
             ).T
         )
@@ -710,14 +706,10 @@ class mpopt:
         z0[1] = np.concatenate(
             np.array(
                 [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    u00 + (uf0 - u00) * fraction
+                    for fraction in np.linspace(0, 1, self._Npoints)
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
 
@@ -3036,12 +3028,8 @@ class mpopt_adaptive(mpopt):
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * fraction
+                    for fraction in np.linspace(0, 1, self._Npoints)
                 ]
             ).T
         )
@@ -3049,14 +3037,10 @@ class mpopt_adaptive(mpopt):
         z0[1] = np.concatenate(
             np.array(
                 [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    u00 + (uf0 - u00) * fraction
+                    for fraction in np.linspace(0, 1, self._Npoints)
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
         z0[5] = [1.0 / self.n_segments] * self.n_segments
-- 
2.43.0


From 49bc88df46c67cf28b260b23c2c24a6dd5470617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 08/26] fix: drop the terminal node, not a node of the first
 segment, from the fixed residual grid

---
 mpopt/mpopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 998ff79..fd1497d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1204,7 +1204,8 @@ class mpopt:
                     tau1=self.tau1,
                 )
             )
-            taus_on_original_grid[0] = taus_on_original_grid[0][:-1]
+            # Terminal node lies in the last segment
+            taus_on_original_grid[-1] = taus_on_original_grid[-1][:-1]
         elif grid_type == "mid-points":
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
-- 
2.43.0


From a63b72af8da6c4482b4bb6729ce48b5bc2c19d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 09/26] fix: keep the terminal interpolation node when the
 widths sum to slightly below one

---
 mpopt/mpopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fd1497d..e745091 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1250,8 +1250,9 @@ class mpopt:
         for i, seg in enumerate(seg_widths):
             # Starting node (0) won't be part of interpolation
             interp_taus[i] = nodes_req_scaled[nodes_req_scaled > cumulative_sw[i]]
-            # Terminal state is included
-            interp_taus[i] = interp_taus[i][interp_taus[i] <= cumulative_sw[i + 1]]
+            # Terminal state is included (even if the widths sum to slightly below 1)
+            if i + 1 < n_segments:
+                interp_taus[i] = interp_taus[i][interp_taus[i] <= cumulative_sw[i + 1]]
             # Normalize the taus to 1 by dividing with segment width
             interp_taus[i] = (interp_taus[i] - cumulative_sw[i]) / seg
 
-- 
2.43.0


From a55a6b6b01b1646168fd3afaa4901230f532843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 10/26] fix: allow segments of different degree on the
 mid-points residual grid

---
 mpopt/mpopt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index e745091..3a8e687 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1210,9 +1210,9 @@ class mpopt:
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
             )
-            taus_on_original_grid = np.array(
-                [mid_points(self.collocation._taus_fn(deg)) for deg in self.poly_orders]
-            )
+            taus_on_original_grid = [
+                mid_points(self.collocation._taus_fn(deg)) for deg in self.poly_orders
+            ]
         elif grid_type == "spectral":
             taus_on_original_grid = np.array(
                 [
-- 
2.43.0


From 04b6691321d7876b0eea39f4f5c2beb48ac05d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 11/26] fix: allow relative dynamics residuals above one

---
 mpopt/mpopt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3a8e687..c4373aa 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1404,7 +1404,7 @@ class mpopt:
             :options: Options for the target grid
             :residual_type:
                 None - Actual residual values
-                "relative" - Scaled residual between -1 and 1
+                "relative" - Residual divided by the maximum of the dynamics
 
         returns:
             :residuals: residual vector for the dynamics at the given taus
@@ -1442,7 +1442,6 @@ class mpopt:
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
-                        assert abs(residuals[phase][seg]).max() <= 1
 
         if plot:
             fig, axs = post_process.plot_residuals(
-- 
2.43.0


From df53e4fe78560020c26fa09698f0fa2f6d52609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 12/26] fix: use each phase's own residual grid type

---
 mpopt/mpopt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c4373aa..cf41878 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1412,8 +1412,6 @@ class mpopt:
         residuals, ti = [None] * self._ocp.n_phases, [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
             if nodes is None:
-                if grid_type is None:
-                    grid_type = self.grid_type[phase]
                 target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)
             else:
                 target_nodes = nodes[phase]
-- 
2.43.0


From 7e21393f245f48f209f66258e13371c4b174807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 13/26] fix: honour grid_type in the second derivative of a
 single phase

---
 mpopt/mpopt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index cf41878..95a9e6c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1335,9 +1335,7 @@ class mpopt:
         if nodes is None:
             if grid_type is None:
                 grid_type = self.grid_type[phase]
-            target_nodes = self.get_residual_grid_taus(
-                phase=phase, grid_type=self.grid_type[phase]
-            )
+            target_nodes = self.get_residual_grid_taus(phase=phase, grid_type=grid_type)
         else:
             target_nodes = nodes
         ti = self.get_interpolated_time_grid(
-- 
2.43.0


From e4febdff445decaa82460f772e6cfb96965c4ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 14/26] fix: keep the state residuals when dynamics residuals
 are not requested

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 95a9e6c..755b8db 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -945,7 +945,7 @@ class mpopt:
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not (residual_x or residual_dx):
             resid_value = None
 
         r_time = time.monotonic()
@@ -3332,7 +3332,7 @@ class mpopt_adaptive(mpopt):
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not (residual_x or residual_dx):
             resid_value = None
 
         r_time = time.monotonic()
-- 
2.43.0


From a64e12d4250547fe817a1d903116920e05b1be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 15/26] fix: unscale parameters element by element and stack
 them alike with interpolation

---
 mpopt/mpopt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 755b8db..8f07d58 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1683,6 +1683,9 @@ class post_process:
             scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
             scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
 
+            # Parameters are stored in a column
+            scale_a = np.reshape(scale_a, (-1, 1))
+
             return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt / scale_a)
 
         return (x_opt, u_opt, t_opt, a_opt)
@@ -1847,7 +1850,7 @@ class post_process:
                 x = np.vstack((x, xp))
                 u = np.vstack((u, up))
                 t = np.hstack((t, tp))
-                a = np.hstack((a, ap))
+                a = np.vstack((a, ap))
 
         return (x, u, t, a)
 
-- 
2.43.0


From 4d735721b4cad3ea2384e3dcc72fc09db69e052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 16/26] fix: place segment boundaries at the steepest control
 points

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 8f07d58..254f475 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2852,7 +2852,7 @@ class mpopt_h_adaptive(mpopt):
         # du_grid = np.interp(t_grid, t_orig, du_max)
 
         t_du = [i for i in zip(t_orig[1:-1], du_max[1:-1]) if i[1] >= threshold]
-        t_du.sort(key=lambda t: t[1])
+        t_du.sort(key=lambda t: t[1], reverse=True)
         if len(t_du) > 0:
             times = np.array(t_du)[:, 0]
         else:
@@ -2868,7 +2868,7 @@ class mpopt_h_adaptive(mpopt):
         n_points_available = len(times)
         segment_widths = [None] * n_segments
         if n_points_available > (n_segments - 2):
-            times = times[:n_segments]
+            times = times[: n_segments - 1]
             times.sort()
             segment_widths[0] = times[0] - t0
             for i in range(1, n_segments - 1):
-- 
2.43.0


From 508551539d5486d263dd8f51ce9ee075da9a4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 17/26] fix: do not modify the caller's options in the
 h-adaptive solve

---
 mpopt/mpopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 254f475..c465e4c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2390,13 +2390,13 @@ class mpopt_h_adaptive(mpopt):
 
         start_time = time.monotonic()
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
-            if "ipopt.print_level" not in nlp_solver_options:
-                nlp_solver_options["ipopt.print_level"] = 0
             self.create_solver(solver=solver, options=nlp_solver_options)
 
         if mpopt_options == {}:
-            mpopt_options["method"] = self._DEFAULT_METHOD
-            mpopt_options["sub_method"] = self._DEFAULT_SUB_METHOD
+            mpopt_options = {
+                "method": self._DEFAULT_METHOD,
+                "sub_method": self._DEFAULT_SUB_METHOD,
+            }
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
-- 
2.43.0


From a92777ef32cdde3f9ac32e28b7ff067bbdf91fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 18/26] fix: remove the reference to an undefined grid type
 from solve_ph

---
 mpopt/mpopt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c465e4c..a74e12c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4458,8 +4458,6 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
-        if grid_type is None:
-            grid_type = self.grid_type[0]
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
-- 
2.43.0


From 4ee59a950f3a3cd249ad7b83283f616d1611da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 19/26] fix: pass the refined mesh to the solver as options in
 solve_ph

---
 mpopt/mpopt.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index a74e12c..c0d6ab0 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4465,9 +4465,15 @@ class mpopt_ph_adaptive(mpopt):
             if iter_no > 0:
                 # Update Mesh for the next iteration
                 self._nlp_sw_params = np.hstack(nlp_sw_params)
-                solve_dict["nlp_sw_params"] = self._nlp_sw_params
-                self.poly_orders = np.hstack(poly_orders)
-                self.n_segments = self._nlp_sw_params.shape[0]
+                solve_dict = {
+                    **solve_dict,
+                    "mpopt_options": {
+                        **solve_dict.get("mpopt_options", {}),
+                        "nlp_sw_params": self._nlp_sw_params,
+                    },
+                }
+                self.poly_orders = [int(p) for p in np.hstack(poly_orders)]
+                self.n_segments = len(self.poly_orders)
 
             # ************************** Sparse solution ********************
             # Step 1 : Solve the problem on initial mesh (Sparse for reference)
@@ -4509,7 +4515,7 @@ class mpopt_ph_adaptive(mpopt):
             # Skipped for now ---- Yet to be implemented
 
             # Compute nodes in next fine mesh (poly_orders + 3)
-            taus_new = np.array([self.collocation._taus_fn(deg) for deg in poly_orders])
+            taus_new = [self.collocation._taus_fn(deg) for deg in poly_orders]
             taus_new = [taus_new for phase in range(self._ocp.n_phases)]
 
             # Compute second derivative at nodes of next iteration
-- 
2.43.0


From 4e40f7e8a0a66c68c070432bbd0b3ae5c792a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 20/26] fix: refine every phase that misses the tolerance in
 the ph-adaptive solve

---
 mpopt/mpopt.py | 64 +++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c0d6ab0..7f72ca5 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4503,12 +4503,14 @@ class mpopt_ph_adaptive(mpopt):
                 status = max_seg_residual > self.max_residual
                 if status.any():
                     # This phase needs refinement, increase the order of the polynomial by 3 for next iteration
+                    # (all the phases share the same polynomial orders)
                     poly_orders = [
-                        self.poly_orders[i] + 3 * int(st) for i, st in enumerate(status)
+                        max(poly_orders[i], self.poly_orders[i] + 3 * int(st))
+                        for i, st in enumerate(status)
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution
 
             # Compute reduction in mesh size
@@ -4573,14 +4575,14 @@ class mpopt_ph_adaptive(mpopt):
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution_new
 
             abs_max_residual = 0
             # Find non-smooth segments where residual is more than the required tolerence
+            # (all the phases share the number of segments and the polynomial orders)
+            split_seg = [False] * self.n_segments
             for i_phase, max_r_phase in enumerate(max_residual_new):
-                poly_orders = []
-                nlp_sw_params = []
                 max_seg_residual = np.array(max_r_phase)[:, 1].max(axis=1)
                 if max_seg_residual.max() > abs_max_residual:
                     abs_max_residual = max_seg_residual.max()
@@ -4592,31 +4594,33 @@ class mpopt_ph_adaptive(mpopt):
                             dd_max_phase[i_phase][i_seg] > self.non_smooth_threshold
                         ).any()
                     ):
-                        # Split i_seg in additional segments based on desired residual
-                        new_segments = 2
-                        nlp_sw_params.append(
-                            [self._nlp_sw_params[i_seg] / new_segments] * new_segments
-                        )
+                        split_seg[i_seg] = True
+
+            poly_orders = []
+            nlp_sw_params = []
+            for i_phase in range(self._ocp.n_phases):
+                for i_seg, split in enumerate(split_seg):
+                    width = self._nlp_sw_params[self.n_segments * i_phase + i_seg]
+                    # Split i_seg in additional segments based on desired residual
+                    # If the solution is smooth and the residual is higher than the
+                    # required tolerance, only the order of polynomial is increased
+                    new_segments = 2 if split else 1
+                    nlp_sw_params.append([width / new_segments] * new_segments)
+                    if i_phase == 0:
                         poly_orders.append([self.poly_orders[i_seg]] * new_segments)
-
-                        # max_residual_seg = residual_r[phase][seg].max()
-                        # max_residual_seg_sparse = residual_rs[phase][seg].max()
-                        # ratio_residual = max_residual_seg / max_residual_seg_sparse
-                        # ratio_nodes = poly_orders[seg] / self.poly_orders[seg]
-                        # q = np.ceil(
-                        #     5 / 2 + np.log(ratio_residual) / np.log(ratio_nodes)
-                        # )
-                        # ratio_residual_req = max_residual_seg / max_err
-                        # seg_width_new = 1 * pow(ratio_residual_req, 1.0 / q)
-                        # n_splits_max = np.ceil(
-                        #     np.log(ratio_residual_req, poly_orders[seg])
-                        # )
-                        # n_splits = min(np.ceil(1 / seg_width_new), n_splits_max)
-                        # seg_refine_phase[phase][seg] = n_splits
-                    else:
-                        # The solution is smooth and the residual is higher than the required tolerance.
-                        # Increase the order of polynomial
-                        poly_orders.append(self.poly_orders[i_seg])
-                        nlp_sw_params.append(self._nlp_sw_params[i_seg])
+                    # max_residual_seg = residual_r[phase][seg].max()
+                    # max_residual_seg_sparse = residual_rs[phase][seg].max()
+                    # ratio_residual = max_residual_seg / max_residual_seg_sparse
+                    # ratio_nodes = poly_orders[seg] / self.poly_orders[seg]
+                    # q = np.ceil(
+                    #     5 / 2 + np.log(ratio_residual) / np.log(ratio_nodes)
+                    # )
+                    # ratio_residual_req = max_residual_seg / max_err
+                    # seg_width_new = 1 * pow(ratio_residual_req, 1.0 / q)
+                    # n_splits_max = np.ceil(
+                    #     np.log(ratio_residual_req, poly_orders[seg])
+                    # )
+                    # n_splits = min(np.ceil(1 / seg_width_new), n_splits_max)
+                    # seg_refine_phase[phase][seg] = n_splits
 
         return solution_new
-- 
2.43.0


From 299684014a7d3b04fc1b281f6ca28b180bcd9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 21/26] fix: let equal-area widths sum to one when the residual
 vanishes at the end

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 7f72ca5..afadb98 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2673,6 +2673,8 @@ class mpopt_h_adaptive(mpopt):
                 + ((i + 1) / n_segments - cumulative_area[ind_j - 1])
                 / (cumulative_area[ind_j] - cumulative_area[ind_j - 1])
             ) / (n_points - 1)
+        # The last segment ends with the grid (also if the residual vanishes before)
+        seg_widths_cumulative[-1] = 1.0
 
         seg_widths_cumulative = np.append(0, seg_widths_cumulative)
         seg_widths = [
-- 
2.43.0


From 558241221e7e9a18b3c2ccdbd4abd5e9a1eca948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 22/26] fix: accept a starting guess given as x0 in the
 h-adaptive solve

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index afadb98..c23c776 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2517,7 +2517,7 @@ class mpopt_h_adaptive(mpopt):
         if self.n_segments == 1:
             return default_widths, max_error
 
-        if solution is None:
+        if solution is None or "x" not in solution:
             # Warning, Solution not found, returning default segment widths
             return default_widths, max_error
 
-- 
2.43.0


From e638ad1d7483fa102e62a5d28ecfd3f8c73f370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 23/26] fix: plot residuals of phases with unequal points per
 segment

---
 mpopt/mpopt.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c23c776..fc11e8c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2233,22 +2233,16 @@ class post_process:
     @staticmethod
     def sort_residual_data(time, residuals, phases: List = [0]):
         """Sort the given data corresponding to plases"""
-        norm_residual = lambda residual: np.concatenate(
-            [
-                np.linalg.norm(np.array(err), 2, axis=1) if err is not None else []
-                for err in residual
-            ]
-        )
-        t, r = time[0], norm_residual(residuals[0])
-        if len(phases) > 1:
-            for phase in phases[1:]:
-                tp, rp = time[phase], norm_residual(residuals[phase])
-                r = np.vstack((r, rp))
-                t = np.vstack((t, tp))
-
-            r = np.concatenate(r)
-
-        t = np.concatenate(t)
+        t, r = [], []
+        # Phases are given as indices or as groups of indices (phases_to_plot)
+        for phase in dict.fromkeys(np.hstack(list(phases)).astype(int)):
+            for t_seg, err in zip(time[phase], residuals[phase]):
+                # Segments without evaluation points have no data
+                if (t_seg is None) or (err is None):
+                    continue
+                t.append(np.ravel(t_seg))
+                r.append(np.ravel(np.linalg.norm(np.array(err), 2, axis=1)))
+        t, r = np.concatenate(t), np.concatenate(r)
         r = r.reshape(t.shape[0], 1)
         return (r, t)
 
-- 
2.43.0


From 4cbf7de9f2a6bb2ed51031a9651340472dae32ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 24/26] fix: plot residuals over segments with unequal numbers
 of points in plot_phases

---
 mpopt/mpopt.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fc11e8c..625f487 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1950,7 +1950,14 @@ class post_process:
                         if r_seg is not None
                     ]
 
-                    x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
+                    x_data = np.concatenate(
+                        [
+                            np.ravel(t_seg)
+                            for t_p in self.residuals["t_x"][0]
+                            for t_seg in t_p
+                            if t_seg is not None
+                        ]
+                    )
                     y_data = np.concatenate(y_data)
 
                     ax2 = plt.subplot(2, 2, 2)
@@ -1965,7 +1972,14 @@ class post_process:
                         if r_seg is not None
                     ]
 
-                    x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
+                    x_data = np.concatenate(
+                        [
+                            np.ravel(t_seg)
+                            for t_p in self.residuals["t_dx"][0]
+                            for t_seg in t_p
+                            if t_seg is not None
+                        ]
+                    )
                     y_data = np.concatenate(y_data)
 
                     self.plot_curve(
@@ -1983,7 +1997,14 @@ class post_process:
                             if r_seg is not None
                         ]
 
-                        x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
+                        x_data = np.concatenate(
+                            [
+                                np.ravel(t_seg)
+                                for t_p in self.residuals["t_x"][0]
+                                for t_seg in t_p
+                                if t_seg is not None
+                            ]
+                        )
                         y_data = np.concatenate(y_data)
 
                         self.plot_curve(
@@ -1997,7 +2018,14 @@ class post_process:
                             for r_p in self.residuals["t_dx"][1]
                         ]
 
-                        x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
+                        x_data = np.concatenate(
+                            [
+                                np.ravel(t_seg)
+                                for t_p in self.residuals["t_dx"][0]
+                                for t_seg in t_p
+                                if t_seg is not None
+                            ]
+                        )
                         y_data = np.concatenate(y_data)
 
                         self.plot_curve(
-- 
2.43.0


From 5bfd5bfb2f6148de69518dc7c01f2de3cc61482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 25/26] fix: return the figure from plot_phase and default
 plot_phases to the first phase

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 625f487..8ad6dd2 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1893,7 +1893,7 @@ class post_process:
                 fig - handle to the figure obj. of plot (matplotlib figure object)
                 axs - handle to the axis of plot (matplotlib figure object)
         """
-        fig, axs = self.plot_phases([phase], interpolate, fig=fig, axs=axs)
+        return self.plot_phases([phase], interpolate, fig=fig, axs=axs)
 
     def plot_phases(
         self,
@@ -1922,7 +1922,7 @@ class post_process:
             if "phases_to_plot" in self.options:
                 phases = self.options["phases_to_plot"][0]
             else:
-                phase = [0]
+                phases = [0]
 
         if residuals:
             if self.residuals is not None:
-- 
2.43.0


From e50a714c567e0761e47876cf2b52982652da9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 26/26] fix: adaptive process_results uses the segment widths
 of the given solution

---
 mpopt/mpopt.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 8ad6dd2..9f1f0af 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3284,12 +3284,23 @@ class mpopt_adaptive(mpopt):
 
         solution = self.nlp_solver(**solver_inputs, **self.nlp_bounds)
 
-        sw_fn = ca.Function("sw", [self.Z], [self.seg_widths[:]], ["z"], ["h"])
-        self._nlp_sw_params = np.concatenate(sw_fn(solution["x"]).full())
+        self._nlp_sw_params = self._get_seg_widths_from_solution(solution)
         print(f"Optimal segment width fractions: {self._nlp_sw_params}")
 
         return solution
 
+    def _get_seg_widths_from_solution(self, solution) -> np.ndarray:
+        """Segment width fractions (of all phases) contained in the solution
+
+        args:
+            :solution: NLP solution as reported by the solver
+
+        returns:
+            :seg_widths: Segment width fractions in the order of phases
+        """
+        sw_fn = ca.Function("sw", [self.Z], [self.seg_widths[:]], ["z"], ["h"])
+        return np.concatenate(sw_fn(solution["x"]).full())
+
     def init_trajectories(self, phase: int = 0) -> ca.Function:
         """Initialize trajectories of states, constrols and time variables
 
@@ -3348,6 +3359,8 @@ class mpopt_adaptive(mpopt):
         trajectories = [
             self.init_trajectories(phase) for phase in range(self._ocp.n_phases)
         ]
+        # Segment widths are part of the solution, not necessarily of the last solve
+        self._nlp_sw_params = self._get_seg_widths_from_solution(solution)
         traj_time = time.monotonic()
 
         resid_value = {}
-- 
2.43.0

