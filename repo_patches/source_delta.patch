From ac1a4760e1b2d09a7d7e948f8ebae42b7045dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:29 +0000
Subject: [PATCH 01/37] fix: solver_complex2real calls an unimported spsolve
 without MKL

---
 angler/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 6a62179..28b72f3 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -176,7 +176,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.clear()
 
     elif solver.lower() == 'scipy':
-        x = spsolve(Areal, np.hstack((b_re, b_im)))
+        x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
 
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
-- 
2.43.0


From 05cfcac358e504a529623c2db98812edd855ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:29 +0000
Subject: [PATCH 02/37] fix: nonlinear Hx and Hy gradients use an undefined
 name

---
 angler/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 1f34835..e03b4c3 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -153,7 +153,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = -1/1j/omega/MU_0_ * Dyb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
@@ -191,7 +191,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = 1/1j/omega/MU_0_ * Dxb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
-- 
2.43.0


From 12a99bd61f2ab0a558fc5b1f784281b839a5adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:29 +0000
Subject: [PATCH 03/37] fix: L-BFGS passes iprint and disp, which scipy no
 longer accepts

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 57d3f63..8c6886b 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -314,8 +314,8 @@ class Optimization():
         # minimize
         (rho_final, _, _) = fmin_l_bfgs_b(_objfn, rho0, fprime=_grad, args=(), approx_grad=0,
                             bounds=rho_bounds, m=10, factr=10,
-                            pgtol=1e-15, epsilon=1e-08, iprint=-1,
-                            maxfun=15000, maxiter=self.Nsteps, disp=self.verbose,
+                            pgtol=1e-15, epsilon=1e-08,
+                            maxfun=15000, maxiter=self.Nsteps,
                             callback=_update_iter_count, maxls=20)
 
         # finally, set the simulation permittivity to that found via optimization
-- 
2.43.0


From 0516952099b6e316d9bf58960b8ad70db1a2d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:29 +0000
Subject: [PATCH 04/37] fix: init_design_region('halfway') overwrites the
 caller's permittivity array

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 244f1ae..c1625e9 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -314,7 +314,7 @@ class Simulation:
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r
+            eps_halfway = self.eps_r.copy()
             eps_halfway[design_region == 1] = eps_m/2 + 1/2
             self.eps_r = eps_halfway
 
-- 
2.43.0


From 2e07651252acb9fbbf6459148312075b484f6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:51 +0000
Subject: [PATCH 05/37] fix: assigning a 1D permittivity discards the reshaped
 array

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index c1625e9..5b7fafc 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -94,7 +94,7 @@ class Simulation:
         grid_shape = new_eps.shape
         if len(grid_shape) == 1:
             grid_shape = (grid_shape[0], 1)
-            new_eps.reshape(grid_shape)
+            new_eps = new_eps.reshape(grid_shape)
 
         (Nx, Ny) = grid_shape
         self.Nx = Nx
-- 
2.43.0


From 97330c3f499bc6a687a619aa242e2708861c29d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:51 +0000
Subject: [PATCH 06/37] fix: a failed permittivity assignment leaves a new
 eps_r with the old system matrix

---
 angler/simulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 5b7fafc..5ae56ab 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -96,15 +96,17 @@ class Simulation:
             grid_shape = (grid_shape[0], 1)
             new_eps = new_eps.reshape(grid_shape)
 
+        # build the new system first, so that a failure here leaves the simulation as it was
+        (A, derivs) = construct_A(self.omega, self.xrange, self.yrange,
+                                  new_eps, self.NPML, self.pol, self.L0,
+                                  matrix_format=DEFAULT_MATRIX_FORMAT,
+                                  timing=False)
+
         (Nx, Ny) = grid_shape
         self.Nx = Nx
         self.Ny = Ny
 
         self.__eps_r = new_eps
-        (A, derivs) = construct_A(self.omega, self.xrange, self.yrange,
-                                  self.eps_r, self.NPML, self.pol, self.L0,
-                                  matrix_format=DEFAULT_MATRIX_FORMAT,
-                                  timing=False)
         self.A = A
         self.derivs = derivs
         self.fields = {f: None for f in ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']}
-- 
2.43.0


From 0e43b2ef0b8c7c5366db368027a2f1784e05b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:51 +0000
Subject: [PATCH 07/37] fix: a failed design update leaves the density ahead of
 the permittivity

---
 angler/optimization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 8c6886b..96bf8ac 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -386,10 +386,10 @@ class Optimization():
         if np.linalg.norm(x - rho_vec[des_vec == 1])/np.linalg.norm(x) > 1e-10:
             rho_vec[des_vec == 1] = x
             rho_new = np.reshape(rho_vec, self.simulation.rho.shape)
-            self.simulation.rho = rho_new
             eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
                               eta=self.eta, beta=self.beta)
             self.simulation.eps_r = eps_new
+            self.simulation.rho = rho_new
 
         self.fields_current = False
 
@@ -427,12 +427,13 @@ class Optimization():
     def _update_rho(self, grad, step_size):
         """ Manually updates the permittivity with the grad info """
 
-        self.simulation.rho = self.simulation.rho + self.design_region * step_size * grad
-        self.simulation.rho[self.simulation.rho < 0] = 0
-        self.simulation.rho[self.simulation.rho > 1] = 1
+        rho_new = self.simulation.rho + self.design_region * step_size * grad
+        rho_new[rho_new < 0] = 0
+        rho_new[rho_new > 1] = 1
 
-        self.simulation.eps_r = rho2eps(self.simulation.rho, self.eps_m, self.W,
+        self.simulation.eps_r = rho2eps(rho_new, self.eps_m, self.W,
                                         eta=self.eta, beta=self.beta)
+        self.simulation.rho = rho_new
         self.fields_current = False
 
     def _step_adam(self, gradient, mopt_old, vopt_old, iteration, beta1, beta2, epsilon=1e-8):
-- 
2.43.0


From 04914aae3a85d173a37658a570ded275006974c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:51 +0000
Subject: [PATCH 08/37] fix: an interrupted or failed solve never frees the
 pardiso factorisation

---
 angler/linalg.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 28b72f3..b46ce1b 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -134,9 +134,11 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
 
     if solver.lower() == 'pardiso':
         pSolve = pardisoSolver(A, mtype=13) # Matrix is complex unsymmetric due to SC-PML
-        pSolve.factor()
-        x = pSolve.solve(b)
-        pSolve.clear()
+        try:
+            pSolve.factor()
+            x = pSolve.solve(b)
+        finally:
+            pSolve.clear()
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(A, b)
@@ -171,9 +173,11 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
 
     if solver.lower() == 'pardiso':
         pSolve = pardisoSolver(Areal, mtype=11)  # Matrix is real unsymmetric
-        pSolve.factor()
-        x = pSolve.solve(np.hstack((b_re, b_im)))
-        pSolve.clear()
+        try:
+            pSolve.factor()
+            x = pSolve.solve(np.hstack((b_re, b_im)))
+        finally:
+            pSolve.clear()
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
-- 
2.43.0


From b8f12622f43a95820eca5dd8877bc3c4c527cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:30 +0000
Subject: [PATCH 09/37] fix: compute_J and compute_dJ reuse fields of another
 simulation or of an earlier design or source

---
 angler/optimization.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 96bf8ac..405e9b1 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -43,6 +43,26 @@ class Optimization():
         self.objfn_list = []
         self.fields_current = False     # are the field_args current?  if not, will need to recompute
 
+    def _are_fields_current(self, simulation):
+        """ Are the stored field arguments still the ones of this simulation as it is now?"""
+
+        if not self.fields_current or not self.field_arg_list:
+            return False
+
+        (solved, omega, src, nonlinearity, arg_list) = self._solved_problem
+        if (simulation is not solved or simulation.omega != omega
+                or simulation.nonlinearity != nonlinearity
+                or self.objective.arg_list != arg_list
+                or not np.array_equal(simulation.src, src)):
+            return False
+
+        # setting the permittivity clears the simulation's fields, solving replaces them
+        for arg, field in zip(arg_list, self.field_arg_list):
+            stored = simulation.fields_nl if arg.nl else simulation.fields
+            if stored[arg.component] is not field:
+                return False
+        return True
+
     def _solve_objfn_arg_fields(self, simulation):
         """ 
             solves for all of the fields needed in the objective function.
@@ -50,7 +70,7 @@ class Optimization():
         """
 
         # do something only if the fields are not current, or there are no stored fields
-        if not self.fields_current or not self.field_arg_list:
+        if not self._are_fields_current(simulation):
 
             _ = simulation.solve_fields()
             if not self.objective.is_linear():
@@ -70,6 +90,10 @@ class Optimization():
             # store these arguments (so that they dont have to be recomputed)
             self.field_arg_list = field_arg_list
 
+            # remember the problem that they solve
+            self._solved_problem = (simulation, simulation.omega, copy.copy(simulation.src),
+                                    list(simulation.nonlinearity), list(self.objective.arg_list))
+
             # lets other functions know the field_arg_list is up to date
             self.fields_current = True
 
-- 
2.43.0


From 5035c1c07069084919994ca69597504298c84fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:31 +0000
Subject: [PATCH 10/37] fix: the nonlinear adjoint is solved with the nonlinear
 terms of whatever was evaluated last

---
 angler/gradients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index e03b4c3..b30de54 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -120,8 +120,8 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
     b_aj = -dJ(*args)
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
@@ -156,8 +156,8 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
@@ -194,8 +194,8 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-- 
2.43.0


From 182f1fa3d54ab72f5af6e1946ddd79ddb1aff1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:31 +0000
Subject: [PATCH 11/37] fix: run fails on a simulation without an initial
 density

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 405e9b1..45e772d 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -216,9 +216,9 @@ class Optimization():
         self._check_temp_plt()
 
         # get the material density from the simulation if only the first time being run
-        if self.simulation.rho is None:
+        if getattr(self.simulation, 'rho', None) is None:
             eps = copy.deepcopy(self.simulation.eps_r)
-            self.simulation.rho = eps2rho(eps)
+            self.simulation.rho = eps2rho(eps, self.eps_m)
         
         self.fields_current = False
         
-- 
2.43.0


From ae2e8bfce5eeec5ad96fd16ebd18b09fb3d2034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 12/37] fix: gradients through the density filter use its
 transpose

---
 angler/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index 27b18d3..bae7063 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -128,7 +128,8 @@ def rho2eps(rho, eps_m, W, eta=0.5, beta=100):
 
 def drhot_drho(W):
     # derivative of filtered density with respect to design density
-    return W
+    # (as [design density, filtered density], the order in which the gradients sum over it)
+    return W.T
 
 
 def drhob_drhot(rho_t, eta=0.5, beta=100):
-- 
2.43.0


From 8180fe1f75f83630a6ed5596256e58c9a827be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 13/37] fix: gradients for Hz polarization ignore the
 permittivity averaging and E's dependence on it

---
 angler/gradients.py | 211 +++++++++-----------------------------------
 1 file changed, 42 insertions(+), 169 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index b30de54..94a1bb0 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -225,217 +225,90 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
 ####################################################################################################################################
 
 
-def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
+def _sensitivity_Hz(optimization, Hz, b_aj, averaging, explicit=0):
+    """ sensitivity of J to the densities for Hz polarization, given the adjoint source of Hz.
+        'explicit' is dJ/deps_r through E at constant Hz (zero if J only depends on Hz)
+    """
 
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    derivs = optimization.simulation.derivs
 
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
+    eps_tot = EPSILON_0_*optimization.simulation.eps_r
 
     if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
+        eps_x = grid_average(eps_tot, 'x')
+        eps_y = grid_average(eps_tot, 'y')
     else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
+        eps_x = eps_tot
+        eps_y = eps_tot
 
     # get fields
     Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
+    Ex =  1/1j/omega * derivs['Dyb'].dot(Hz_vec).reshape(Hz.shape) / eps_y
+    Ey = -1/1j/omega * derivs['Dxb'].dot(Hz_vec).reshape(Hz.shape) / eps_x
 
     # adjoint
-    # partial = -dJ(*args)
-    # partial_vec = partial.reshape((-1,))
+    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)
 
-    b_aj = -dJ(*args)
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
+    # sensitivity to the permittivity at the cell edges, then at the cell centers
+    sens_x = omega**2*EPSILON_0_*Ey*Ey_aj
+    sens_y = omega**2*EPSILON_0_*Ex*Ex_aj
+    if averaging:
+        sens_x = (sens_x + np.roll(sens_x, -1, axis=0))/2
+        sens_y = (sens_y + np.roll(sens_y, -1, axis=1))/2
+    dJdeps = optimization.design_region*(sens_x + sens_y + explicit)
 
     # set up filtering bits
     rho = optimization.simulation.rho
     rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
     filt_mat = drhot_drho(optimization.W)
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
-    if averaging:
+    sensitivity_vec = eps_mat*filt_mat.dot(proj_mat*np.reshape(dJdeps, (-1,)))
 
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
 
-    else:
+def grad_linear_Hz(optimization, dJ, Hz, args, averaging=True):
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    # Note: the system matrix is built with averaging, so the adjoint needs it too
+    b_aj = -dJ(*args)
 
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))    
+    return _sensitivity_Hz(optimization, Hz, b_aj, averaging)
 
-def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
+def grad_linear_Ex(optimization, dJ, Hz, args, averaging=True):
 
-    EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
+    eps = EPSILON_0*optimization.simulation.L0*optimization.simulation.eps_r
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-
-    # get fields
-    Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
+    Dyb = optimization.simulation.derivs['Dyb']
 
+    # Ex = 1/1j/omega/eps * Dyb*Hz, where solve_fields uses the (not averaged) eps
     partial = -dJ(*args)
-    partial_vec = partial.reshape((-1,))
-
-    b_aj_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb.T).dot(partial_vec)
+    b_aj_vec = 1/1j/omega * Dyb.T.dot((partial/eps).reshape((-1,)))
     b_aj = b_aj_vec.reshape(Hz.shape)
 
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
-
-    # set up filtering bits
-    rho = optimization.simulation.rho
-    rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
-    eps_mat = (optimization.eps_m - 1)
-
-    filt_mat = drhot_drho(optimization.W)
-    proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
-
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    else:
+    Ex = 1/1j/omega * Dyb.dot(np.reshape(Hz, (-1,))).reshape(Hz.shape) / eps
+    explicit = partial*Ex/optimization.simulation.eps_r
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    return _sensitivity_Hz(optimization, Hz, b_aj, averaging, explicit=explicit)
 
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape)) 
+def grad_linear_Ey(optimization, dJ, Hz, args, averaging=True):
 
-def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
-
-    EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
+    eps = EPSILON_0*optimization.simulation.L0*optimization.simulation.eps_r
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-
-    # get fields
-    Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
+    Dxb = optimization.simulation.derivs['Dxb']
 
+    # Ey = -1/1j/omega/eps * Dxb*Hz, where solve_fields uses the (not averaged) eps
     partial = -dJ(*args)
-    partial_vec = partial.reshape((-1,))
-
-    b_aj_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb.T).dot(partial_vec)
+    b_aj_vec = -1/1j/omega * Dxb.T.dot((partial/eps).reshape((-1,)))
     b_aj = b_aj_vec.reshape(Hz.shape)
 
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
+    Ey = -1/1j/omega * Dxb.dot(np.reshape(Hz, (-1,))).reshape(Hz.shape) / eps
+    explicit = partial*Ey/optimization.simulation.eps_r
 
-    # set up filtering bits
-    rho = optimization.simulation.rho
-    rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
-    eps_mat = (optimization.eps_m - 1)
-
-    filt_mat = drhot_drho(optimization.W)
-    proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
-
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    else:
-
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
+    return _sensitivity_Hz(optimization, Hz, b_aj, averaging, explicit=explicit)
 
 def grad_kerr_Hz(optimization, dJ, Ez_nl, args):
     raise NotImplementedError("need to write gradient for kerr Hz")
-- 
2.43.0


From 238f4940f9a24551464311a71f44383c964e6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:40 +0000
Subject: [PATCH 14/37] fix: derivative along a single grid point is the
 identity instead of zero

---
 angler/derivatives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 8bbba51..35accca 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -26,7 +26,8 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dxb = sp.diags([1, -1, -1], [0, -1, Nx-1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
-            Dws = sp.eye(Ny)            
+            # nothing varies along a single grid point
+            Dws = sp.csr_matrix((Ny, Ny)).asformat(matrix_format)
     if w is 'y':
         if Ny > 1:
             if s is 'f':
@@ -36,7 +37,8 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dyb = sp.diags([1, -1, -1], [0, -1, Ny-1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyb, format=matrix_format)
         else:
-            Dws = sp.eye(Nx)
+            # nothing varies along a single grid point
+            Dws = sp.csr_matrix((Nx, Nx)).asformat(matrix_format)
     return Dws
 
 
-- 
2.43.0


From e1c81b9597d90c0d3b871d0f5cb52de495c369ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 15/37] fix: the sign of a mode source is random

---
 angler/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/linalg.py b/angler/linalg.py
index b46ce1b..b25a2e5 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -113,6 +113,9 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
 
     if timing:
         start = time()
+    if guess_vector is None:
+        # without one, eigs starts from a random vector and the sign of the modes is random too
+        guess_vector = np.linspace(1, 2, A.shape[0])
     (values, vectors) = spl.eigs(A, k=Neigs, sigma=guess_value, v0=guess_vector, which='LM')
     if timing:
         end = time()
-- 
2.43.0


From 87b00b25ad82ad35d0200ee243199a4091c5780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 16/37] fix: the input power of a mode includes the other
 sources of the simulation

---
 angler/source/mode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 2fe8ae8..ec32e2b 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -50,6 +50,7 @@ class mode:
 
         # reset the permittivity to be a straight waveguide, solve fields, compute power
         simulation_norm.eps_r = norm_eps
+        simulation_norm.src = np.zeros_like(simulation.src)
         self.insert_mode(simulation_norm, simulation_norm.src, matrix_format=matrix_format)
         simulation_norm.solve_fields()
         W_in = simulation_norm.flux_probe(self.direction_normal, new_center, self.width)
-- 
2.43.0


From 32021cf9cdc66911a59d5f4d5566a484ada2707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 17/37] fix: the first iteration of a run ignores the filter
 and the projection

---
 angler/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 45e772d..ee9a494 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -219,7 +219,10 @@ class Optimization():
         if getattr(self.simulation, 'rho', None) is None:
             eps = copy.deepcopy(self.simulation.eps_r)
             self.simulation.rho = eps2rho(eps, self.eps_m)
-        
+
+        # start from the permittivity that this density is filtered and projected to
+        self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
+                                        eta=self.eta, beta=self.beta)
         self.fields_current = False
         
         allowed = ['LBFGS', 'GD', 'ADAM']
-- 
2.43.0


From 51cab896cc06e3043de2316a634bf6afd7e239ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 18/37] fix: plot_it uses np.int, which numpy no longer has

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index ee9a494..cb68520 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -379,7 +379,7 @@ class Optimization():
                 ax = axs[n]
                 self.simulation.plt_eps(outline=False, cbar=False, ax=ax)
                 ax.set_title('Permittivity')
-                ax.annotate('Iteration:%4d' % np.int(iteration), (0.2, 0.92),
+                ax.annotate('Iteration:%4d' % int(iteration), (0.2, 0.92),
                     xycoords='axes fraction',
                     size='medium',
                     color='k',
@@ -398,7 +398,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
+        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _set_design_region(self, x):
-- 
2.43.0


From 890a30392c850559a5d0d7d02cd133a373e6f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 19/37] fix: log scale plots pass both norm and vmin/vmax,
 which matplotlib rejects

---
 angler/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/plot.py b/angler/plot.py
index 25ce832..1eaefec 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -17,7 +17,7 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if not logscale:
         h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower')
     else:
-        h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
+        h = ax.imshow(field_val, cmap=cmap, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
 
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
-- 
2.43.0


From 2617fbe2c521f0c0030b7a501545bdde75bc2e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 20/37] fix: plot_it fails with a single plot, which is the
 default

---
 angler/optimization.py | 3 ++-
 angler/plot.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index cb68520..22cfd77 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -372,7 +372,8 @@ class Optimization():
             f, faxs = plt.subplots(2, 2, figsize=self.temp_plt.figsize)
             axs = faxs.ravel()
         else:
-            f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize)
+            f, faxs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize, squeeze=False)
+            axs = faxs.ravel()
 
         for n, plots in enumerate(self.temp_plt.plot_what):
             if plots == 'eps':
diff --git a/angler/plot.py b/angler/plot.py
index 1eaefec..a3edfb5 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -89,7 +89,7 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
 
 class Temp_plt():
 
-    def __init__(self, it_plot=1, plot_what=('eps'), folder='figs/data/temp_im/', 
+    def __init__(self, it_plot=1, plot_what=('eps',), folder='figs/data/temp_im/', 
                     dpi=100, figsize=(4, 4), vlims=(None,None)):
         self.it_plot = it_plot
         self.plot_what = plot_what 
-- 
2.43.0


From 1d087c97bbaa9826b2260914ef7f0716ec14484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 21/37] fix: plot_it saves outside of the folder if its name
 has no trailing slash

---
 angler/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 22cfd77..02a67c9 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -1,3 +1,4 @@
+import os
 import numpy as np
 import scipy.sparse as sp
 import copy
@@ -399,7 +400,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
+        fname = os.path.join(self.temp_plt.folder, 'it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _set_design_region(self, x):
-- 
2.43.0


From e7b4077125b88cfe89f2dd93089ca1274e8ab84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 22/37] fix: newton_solve raises NameError instead of
 ValueError for Hz polarization

---
 angler/nonlinear_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index 0b4df9a..b5678a4 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -113,7 +113,7 @@ def newton_solve(simulation,
 		return (Hx, Hy, Ez, conv_array)
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 def nl_eq_and_jac(simulation,
 				  averaging=True, Ex=None, Ey=None, Ez=None, compute_jac=True,
@@ -145,7 +145,7 @@ def nl_eq_and_jac(simulation,
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 	if compute_jac:
 		return (fE, Jac11, Jac12)
-- 
2.43.0


From 8a2bd0e575d17f2dca74ef51c42cd29a012f5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 23/37] fix: limiting the index shift turns the source into nan
 or flips its sign

---
 angler/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 02a67c9..3268290 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -448,9 +448,11 @@ class Optimization():
                 # compute the index shift and update the source according to the ratio
                 dn = self.simulation.compute_index_shift()
                 max_dn = np.max(dn)
+                if max_dn == 0:
+                    break
                 ratio = self.max_ind_shift / max_dn
 
-                self.simulation.src = self.simulation.src * (np.sqrt(ratio) - epsilon)
+                self.simulation.src = self.simulation.src * np.sqrt(ratio) * (1 - epsilon)
         self.fields_current = False
 
     def _update_rho(self, grad, step_size):
-- 
2.43.0


From 6b58f64dd4b2a52c9d9846090693cf01a2f554b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 24/37] fix: a failed pardiso solve silently returns zero
 fields

---
 angler/linalg.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index b25a2e5..b5c2e5d 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -123,6 +123,15 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
     return (values, vectors)
 
 
+def check_solution(A, x, b, tol=1e-6):
+    # pardiso's wrapper drops its error codes: a failed solve just returns a wrong x
+
+    residual = np.max(np.abs(A.dot(x) - b))
+    scale = spl.norm(A, np.inf)*np.max(np.abs(x)) + np.max(np.abs(b))
+    if residual > tol*scale:
+        raise RuntimeError('pardiso could not solve the linear system')
+
+
 def solver_direct(A, b, timing=False, solver=SOLVER):
     # solves linear system of equations
 
@@ -142,6 +151,7 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
             x = pSolve.solve(b)
         finally:
             pSolve.clear()
+        check_solution(A, x, b)
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(A, b)
@@ -176,11 +186,13 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
 
     if solver.lower() == 'pardiso':
         pSolve = pardisoSolver(Areal, mtype=11)  # Matrix is real unsymmetric
+        b_real = np.hstack((b_re, b_im))
         try:
             pSolve.factor()
-            x = pSolve.solve(np.hstack((b_re, b_im)))
+            x = pSolve.solve(b_real)
         finally:
             pSolve.clear()
+        check_solution(Areal, x, b_real)
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
-- 
2.43.0


From 442529caf8dfbae2eb07a3b22bdb7b051987c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 25/37] fix: a failed mode setup leaves the new input power
 with the old source

---
 angler/source/mode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index ec32e2b..c3ae031 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -17,11 +17,14 @@ class mode:
         self.scale = scale
 
     def setup_src(self, simulation, matrix_format=DEFAULT_MATRIX_FORMAT):
+        # insert the mode into the waveguide (into a copy, so that a failure leaves the source as it was)
+        src = simulation.src.copy()
+        self.insert_mode(simulation, src, matrix_format=matrix_format)
+
         # compute the input power here using an only waveguide simulation
         self.compute_normalization(simulation, matrix_format=matrix_format)
 
-        # insert the mode into the waveguide
-        self.insert_mode(simulation, simulation.src, matrix_format=matrix_format)
+        simulation.src = src
 
     def compute_normalization(self, simulation, matrix_format=DEFAULT_MATRIX_FORMAT):
         # creates a single waveguide simulation, solves the source, computes the power
-- 
2.43.0


From b0c596d0515b49265315e6545bde7bc8be34f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:06 +0000
Subject: [PATCH 26/37] fix: the density filter does not wrap around periodic
 boundaries correctly

---
 angler/filter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index bae7063..41888e9 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -8,7 +8,7 @@ from autograd import grad
 from functools import partial
 
 def wrap(i, N):
-    return i + (i >= N)*(i - N) + (i < 0)*(i + N)
+    return i - (i >= N)*N + (i < 0)*N
 
 def dist(r1, r2):
     return np.sqrt(np.sum(np.square(r1 - r2)))
@@ -56,10 +56,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
                     r2 = np.array([i2, j2])
 
                     # wrap around for periodic BC
-                    i2 = wrap(i2, Nx)
-                    j2 = wrap(j2, Ny)
-
-                    col_index = sub2ind((Nx, Ny), i2, j2)
+                    col_index = sub2ind((Nx, Ny), wrap(i2, Nx), wrap(j2, Ny))
 
                     val = R - dist(r1, r2)
 
-- 
2.43.0


From 2812ba9722734bb52e2c85fb3381ba57d3b1cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:06 +0000
Subject: [PATCH 27/37] fix: the density filter gives weights above one next to
 the boundary layers

---
 angler/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index 41888e9..744da98 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -78,7 +78,8 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
     norm_vec[norm_vec == 0] = 1
     norm_mat = sp.diags(1/norm_vec, shape=(N, N))
 
-    W = W.dot(norm_mat)
+    # each filtered pixel is an average: normalize the rows (not the columns)
+    W = norm_mat.dot(W)
 
     return des_mat.dot(W) + no_des_mat
 
-- 
2.43.0


From 0151e67c897806205827f3dcfc683eae80c51f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:26 +0000
Subject: [PATCH 28/37] fix: gradient steps replace materials outside of the
 design region

---
 angler/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 3268290..86d27ec 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -459,8 +459,9 @@ class Optimization():
         """ Manually updates the permittivity with the grad info """
 
         rho_new = self.simulation.rho + self.design_region * step_size * grad
-        rho_new[rho_new < 0] = 0
-        rho_new[rho_new > 1] = 1
+        # the materials outside of the design region may lie outside of {0, 1}
+        design = self.design_region == 1
+        rho_new[design] = np.clip(rho_new[design], 0, 1)
 
         self.simulation.eps_r = rho2eps(rho_new, self.eps_m, self.W,
                                         eta=self.eta, beta=self.beta)
-- 
2.43.0


From 0aa8342f0128be22f18b59d5f0111efce71f48b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:58 +0000
Subject: [PATCH 29/37] fix: the gradient of another simulation used the system
 of the optimization's own

---
 angler/optimization.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 86d27ec..37319b5 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -114,15 +114,22 @@ class Optimization():
         # stores all of the fields for the objective function in self.field_arg_list
         self._solve_objfn_arg_fields(simulation)
 
+        # the gradient functions refer to the simulation of the optimization
+        own_simulation = self.simulation
+        self.simulation = simulation
+
         # sum up gradient contributions from each argument in J
         gradient_sum = 0
-        for gradient_fn, dJ, arg in zip(self.objective.grad_fn_list, self.objective.dJ_list, self.objective.arg_list):
-            if not arg.nl:
-                Fz = simulation.fields[simulation.pol]
-            else:
-                Fz = simulation.fields_nl[simulation.pol]
-            gradient = gradient_fn(self, dJ, Fz, self.field_arg_list)
-            gradient_sum += gradient
+        try:
+            for gradient_fn, dJ, arg in zip(self.objective.grad_fn_list, self.objective.dJ_list, self.objective.arg_list):
+                if not arg.nl:
+                    Fz = simulation.fields[simulation.pol]
+                else:
+                    Fz = simulation.fields_nl[simulation.pol]
+                gradient = gradient_fn(self, dJ, Fz, self.field_arg_list)
+                gradient_sum += gradient
+        finally:
+            self.simulation = own_simulation
 
         return gradient_sum
 
-- 
2.43.0


From 665df71d7ee2017f787f858d100ec169c43cc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 30/37] fix: an L-BFGS run of no iterations performed one

---
 angler/optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 37319b5..c40bbc8 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -299,6 +299,10 @@ class Optimization():
     def _run_LBFGS(self):
         """Performs L-BFGS Optimization of objective function w.r.t. eps_r"""
 
+        # scipy performs the first iteration even if none is asked for
+        if self.Nsteps < 1:
+            return
+
         pbar = self._make_progressbar(self.Nsteps)
 
         def _objfn(rho, *argv):
-- 
2.43.0


From fa161c3368fd8fdd0b5a8d0f2e351009fc9c8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 31/37] fix: modes of higher order were taken from an unsorted
 list

---
 angler/linalg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/angler/linalg.py b/angler/linalg.py
index b5c2e5d..5e1bfcc 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -117,6 +117,12 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
         # without one, eigs starts from a random vector and the sign of the modes is random too
         guess_vector = np.linspace(1, 2, A.shape[0])
     (values, vectors) = spl.eigs(A, k=Neigs, sigma=guess_value, v0=guess_vector, which='LM')
+
+    # eigs returns them in no particular order
+    order = np.argsort(np.abs(values - guess_value))
+    values = values[order]
+    vectors = vectors[:, order]
+
     if timing:
         end = time()
         print('Elapsed time for eigs() is %.4f secs' % (end - start))
-- 
2.43.0


From 715fd7403b25fc6b63fd2dee81e6feab98be52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 32/37] fix: Hz modes in the x direction ignored the
 permittivity averaging

---
 angler/source/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index c3ae031..e2c18b6 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -82,7 +82,8 @@ class mode:
         Dxf = createDws('x', 'f', [simulation.dl], [N], matrix_format=matrix_format)
 
         vector_eps = EPSILON_0_*eps_r.reshape((-1,))
-        vector_eps_x = EPSILON_0_*grid_average(eps_r, 'x').reshape((-1,))
+        # average along the slice, whichever direction it has
+        vector_eps_x = EPSILON_0_*grid_average(eps_r.reshape((-1, 1)), 'x').reshape((-1,))
         T_eps = sp.spdiags(vector_eps, 0, N, N, format=matrix_format)
         T_epsxinv = sp.spdiags(vector_eps_x**(-1), 0, N, N, format=matrix_format)
 
-- 
2.43.0


From 691f5dce976aa4a0f157a5fdbe40493e2ed755a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:48 +0000
Subject: [PATCH 33/37] fix: power probes failed on lines that reach the end of
 the grid

---
 angler/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 5ae56ab..993c200 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -272,9 +272,9 @@ class Simulation:
                 field_val_Hy = self.fields['Hy']
                 field_val_Hx = self.fields['Hx']
 
-            Ez_x = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1,:-1]
-            Ez_y = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1,:-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Ez_x = np.roll(grid_average(field_val_Ez, 'x'), -1, axis=0)[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Ez_y = np.roll(grid_average(field_val_Ez, 'y'), -1, axis=1)[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            # NOTE: the grid wraps around, so the line may reach its last row/col
 
             if direction_normal == "x":
                 Sx = -1/2*np.real(Ez_x*np.conj(field_val_Hy[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]))
@@ -294,9 +294,9 @@ class Simulation:
                 field_val_Ey = self.fields['Ey']
                 field_val_Ex = self.fields['Ex']
 
-            Hz_x = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1, :-1]
-            Hz_y = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1, :-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Hz_x = np.roll(grid_average(field_val_Hz, 'x'), -1, axis=0)[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Hz_y = np.roll(grid_average(field_val_Hz, 'y'), -1, axis=1)[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            # NOTE: the grid wraps around, so the line may reach its last row/col
 
             if direction_normal == "x":
                 Sx = 1/2*np.real(field_val_Ey[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]*np.conj(Hz_x))
-- 
2.43.0


From 8a1c5d987112ee3b08259249e26551007a0dff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:21 +0000
Subject: [PATCH 34/37] fix: power scans started from the fields of the source
 at its original scale

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index c40bbc8..3355f7b 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -592,6 +592,9 @@ class Optimization():
             sim_new.modes[0].setup_src(sim_new)
             W_in = sim_new.W_in
 
+            # the nonlinear solvers start from the stored fields, which are those of the original source
+            sim_new.solve_fields()
+
             powers.append(W_in)
 
             if solver == 'hybrid':
-- 
2.43.0


From 9a2477f8ce137f83cd560c2963be1cded2a3a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 35/37] fix: a singular system silently returns nan without
 pardiso

---
 angler/linalg.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 5e1bfcc..a1a1247 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -131,11 +131,13 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
 
 def check_solution(A, x, b, tol=1e-6):
     # pardiso's wrapper drops its error codes: a failed solve just returns a wrong x
+    # scipy returns nan for a singular matrix
 
     residual = np.max(np.abs(A.dot(x) - b))
     scale = spl.norm(A, np.inf)*np.max(np.abs(x)) + np.max(np.abs(b))
-    if residual > tol*scale:
-        raise RuntimeError('pardiso could not solve the linear system')
+    # (numbers next to the smallest ones that there are have no relative precision)
+    if not residual <= max(tol*scale, 1e-280):
+        raise RuntimeError('the solver could not solve the linear system')
 
 
 def solver_direct(A, b, timing=False, solver=SOLVER):
@@ -157,7 +159,6 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
             x = pSolve.solve(b)
         finally:
             pSolve.clear()
-        check_solution(A, x, b)
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(A, b)
@@ -165,6 +166,8 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
 
+    check_solution(A, x, b)
+
     if timing:
         print('Linear system solve took {:.2f} seconds'.format(time()-t))
 
@@ -186,26 +189,27 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
 
     Areal = sp.vstack((sp.hstack((np.real(A11) + np.real(A12), - np.imag(A11) + np.imag(A12))),
                        sp.hstack((np.imag(A11) + np.imag(A12), np.real(A11) - np.real(A12)))))
+    b_real = np.hstack((b_re, b_im))
 
     if timing:
         t = time()
 
     if solver.lower() == 'pardiso':
         pSolve = pardisoSolver(Areal, mtype=11)  # Matrix is real unsymmetric
-        b_real = np.hstack((b_re, b_im))
         try:
             pSolve.factor()
             x = pSolve.solve(b_real)
         finally:
             pSolve.clear()
-        check_solution(Areal, x, b_real)
 
     elif solver.lower() == 'scipy':
-        x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
+        x = spl.spsolve(Areal, b_real)
 
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
 
+    check_solution(Areal, x, b_real)
+
     if timing:
         print('Linear system solve took {:.2f} seconds'.format(time()-t))
 
-- 
2.43.0


From f6dc0dd506dc89df591e774d3818ee9c114b28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 36/37] fix: a save that fails destroys the device saved before

---
 data/device_saver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/data/device_saver.py b/data/device_saver.py
index d819c1c..0420b66 100644
--- a/data/device_saver.py
+++ b/data/device_saver.py
@@ -4,6 +4,7 @@ import warnings
 import dill as pickle
 import matplotlib.pylab as plt
 from collections import namedtuple
+import os
 import sys
 sys.path.append('../angler')
 from angler import Optimization
@@ -268,9 +269,13 @@ class Device:
         if not self.is_data_generated:
             warnings.warn('WARNING: plotting data not generated.  Run "device.generate_data()" to fix')
 
-        # save to filename
-        with open(filename, "wb") as f:
+        # save next to filename first, so that the device saved there before survives a failure
+        filename = os.path.realpath(filename)
+        with open(filename + '.part', "wb") as f:
             pickle.dump(self.__dict__, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(filename + '.part', filename)
 
         print('done')
 
-- 
2.43.0


From 983b0331a1b22d0232b14f32882d646edd917e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:41 +0000
Subject: [PATCH 37/37] fix: progress frames of Hz runs, and of sources that
 are not modes, could not be drawn

---
 angler/optimization.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 3355f7b..a9bb455 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -364,11 +364,15 @@ class Optimization():
         Nplots = len(self.temp_plt.plot_what)
         plt.close('all')
 
-        Ez_lin = self.simulation.fields['Ez']
+        Fz_lin = self.simulation.fields[self.simulation.pol]
 
         # This is what was used for the T-port in the paper    
-        vmin = 4 * np.sqrt(self.simulation.W_in)
-        vmax = np.abs(Ez_lin).max()/1.5
+        vmin = 4 * np.sqrt(getattr(self.simulation, 'W_in', 0))
+        vmax = np.abs(Fz_lin).max()/1.5
+
+        # without a mode source, or for Hz, this is no lower limit of the colors
+        if not 0 < vmin < vmax:
+            vmin = vmax / 1e3
 
         # # This is more general but less flexible
         # if self.temp_plt.vlims[0] == None:
-- 
2.43.0

