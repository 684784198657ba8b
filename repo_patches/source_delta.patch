From 790ed85d012acc4aa3d64f8f6467181acd61e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 01/15] fix: do not skip the remaining outputs when a time step
 reaches the final time

---
 dg1d/rk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 50a2928..fff6563 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -247,7 +247,8 @@ def adjust_for_output(dt, t, tf, tout):
     #eps = 1e-14
 
     # If we reached the final time (or almost)
-    if dt > tf - t:
+    # and there is no other output to do before that
+    if dt > tf - t and tout >= tf:
         return tf - t, True, True
 
     # If we reached an output time
-- 
2.43.0


From 9cdf314b7e1e53443dd089d257e26c42eba837e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 02/15] fix: stop a run whose solution is no longer finite
 instead of completing it

---
 dg1d/rk.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index fff6563..2c0978b 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -71,6 +71,7 @@ def classic_rk(solution, deck, dgsolver, limiter, coeffs, alphas, betas):
     done = False
 
     # Write the initial condition to file
+    sanity_check_solution(solution)
     solution.printer(0, 0.0)
     nout += 1
     tout = next(tout_array)
@@ -115,6 +116,7 @@ def classic_rk(solution, deck, dgsolver, limiter, coeffs, alphas, betas):
 
         # Limit solution if necessary
         limiter.limit(solution)
+        sanity_check_solution(solution)
 
         # Output the solution if necessary
         if output:
@@ -145,6 +147,7 @@ def low_storage_rk4(solution, deck, dgsolver, limiter):
     gammas = [1. / 6., 1. / 3., 1. / 3., 1. / 6.]
 
     # Write the initial condition to file
+    sanity_check_solution(solution)
     solution.printer(0, 0.0)
     nout += 1
     tout = next(tout_array)
@@ -185,6 +188,7 @@ def low_storage_rk4(solution, deck, dgsolver, limiter):
 
         # Limit solution if necessary
         limiter.limit(solution)
+        sanity_check_solution(solution)
 
         # Output the solution if necessary
         if output:
@@ -237,6 +241,16 @@ def sanity_check_dt(dt, n, t):
             "Time step is NaN. Exiting at step {0:7d} and time {1:e}.\n".format(n, t))
 
 # ========================================================================
+def sanity_check_solution(solution):
+    """Make sure the solution is still made of finite numbers
+
+    """
+
+    if not np.all(np.isfinite(solution.u)):
+        sys.exit(
+            "Solution is not finite. Exiting at step {0:7d} and time {1:e}.\n".format(solution.n, solution.t))
+
+# ========================================================================
 
 
 def adjust_for_output(dt, t, tf, tout):
-- 
2.43.0


From df611ed77380ff42178258b4601af70051e606ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 03/15] fix: compare boundary conditions by value so that those
 of a loaded solution apply

---
 dg1d/solution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index c489e36..fe55125 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -527,17 +527,17 @@ class Solution:
         """Populates the ghost cells with the correct data depending on the BC"""
 
         # On the left side of the domain
-        if self.bc_l is 'periodic':
+        if self.bc_l == 'periodic':
             self.u[:, 0:self.N_F] = self.u[:, -2 * self.N_F:-self.N_F]
-        elif self.bc_l is 'zerograd':
+        elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
-        if self.bc_r is 'periodic':
+        if self.bc_r == 'periodic':
             self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]
-        elif self.bc_r is 'zerograd':
+        elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
-- 
2.43.0


From d699dcfa006f6a74a4f7b91ab8b0b8f8b056b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 04/15] fix: exit on an invalid boundary condition, as
 announced

---
 dg1d/solution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index fe55125..505938c 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -532,7 +532,8 @@ class Solution:
         elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
-            print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
+            sys.exit(
+                "{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
         if self.bc_r == 'periodic':
@@ -540,7 +541,8 @@ class Solution:
         elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
-            print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
+            sys.exit(
+                "{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
 
     # ========================================================================
     def copy(self):
-- 
2.43.0


From d71970678876019025c2c71be05ef19f4761d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 05/15] fix: scale the inverse mass matrix of a loaded solution

---
 dg1d/solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index 505938c..d0dbb20 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -202,6 +202,9 @@ class Solution:
         B = self.xc[-1] + 0.5 * self.dx
         self.x, self.dx = np.linspace(A, B, self.N_E + 1, retstep=True)
 
+        # Scale the inverse mass matrix
+        self.scaled_minv = self.basis.minv * 2.0 / self.dx
+
         #
         # Read solution data from all the files
         #
-- 
2.43.0


From 18a38068043eec70a09294862d8885cfaa81c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 06/15] fix: do not carry on with a partial initial condition
 when its setup fails

---
 dg1d/solution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index d0dbb20..f9e4ff3 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -62,10 +62,11 @@ class Solution:
         self.bc_r = ''
 
         # Apply the initial condition
-        try:
+        if self.icname in self.keywords:
             self.keywords[self.icname]()
-        except Exception as e:
-            print("Invalid initial condition. This will be an empty solution.\n", e)
+        else:
+            print("Invalid initial condition. This will be an empty solution.\n",
+                  self.icname)
 
         # Enhancement (if necessary)
         if (enhancement_type is not ''):
-- 
2.43.0


From 6be62fcd936ff5ab154de685f01cf9eb097fc68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 07/15] fix: never leave a partially written snapshot behind

---
 dg1d/solution.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index f9e4ff3..d4cdbde 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -3,6 +3,7 @@
 # Imports
 #
 # ========================================================================
+import os
 import sys
 import re
 import numpy as np
@@ -148,7 +149,7 @@ class Solution:
             xc_u = np.c_[self.xc, self.u[:, start:end:step].transpose()]
 
             # Save the data to a file
-            np.savetxt(fname, xc_u, fmt='%.18e', delimiter=',', header=hline)
+            self.save_table(fname, xc_u, '%.18e', hline)
 
         # Output the sensors if necessary
         if (self.issensing):
@@ -162,8 +163,18 @@ class Solution:
                 np.count_nonzero(xc_sen[:, 1]) / xc_sen.shape[0] * 100))
 
             # Save the data to a file
-            np.savetxt(fname[0], xc_sen, fmt='%.18e, %.0d',
-                       delimiter=',', header=hline)
+            self.save_table(fname[0], xc_sen, '%.18e, %.0d', hline)
+
+    # ========================================================================
+    def save_table(self, fname, table, fmt, hline):
+        """Save a table to a file
+
+        The table goes to a temporary file first so that an interrupted
+        run never leaves part of a table behind.
+        """
+        tmpname = fname + '.tmp'
+        np.savetxt(tmpname, table, fmt=fmt, delimiter=',', header=hline)
+        os.replace(tmpname, fname)
 
     # ========================================================================
     def loader(self, step):
-- 
2.43.0


From 4d23f105d94aaabc24ae5b70ec1c5b16ead247ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 08/15] fix: run the solver even if its git version is not
 available

---
 dg1d/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dg1d/main.py b/dg1d/main.py
index 975dd2a..f53ae36 100755
--- a/dg1d/main.py
+++ b/dg1d/main.py
@@ -37,7 +37,10 @@ import dg1d.limiting as limiting
 
 def get_git_revision_hash():
     """Returns the git version of this project"""
-    return subprocess.check_output(['git', 'describe', '--always'], universal_newlines=True)
+    try:
+        return subprocess.check_output(['git', 'describe', '--always'], universal_newlines=True)
+    except (OSError, subprocess.CalledProcessError):
+        return 'unknown'
 
 # ========================================================================
 #
-- 
2.43.0


From 5f4cebaf1ab40004970055a3d8d91894c7f90b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 09/15] fix: keep the ratio of specific heats per solution so
 that solutions do not disturb each other

---
 dg1d/constants.py     | 11 +++++++++++
 dg1d/euler_physics.py | 28 ++++++++++++++--------------
 dg1d/solution.py      | 40 ++++++++++++++++++++++++++++++++--------
 3 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/dg1d/constants.py b/dg1d/constants.py
index 2bf87c4..8042bd1 100644
--- a/dg1d/constants.py
+++ b/dg1d/constants.py
@@ -10,3 +10,14 @@ def init():
     # Ratio of specific heats, default to 1.4
     global gamma
     gamma = 1.4
+
+
+init()
+
+
+# ========================================================================
+class Constants:
+    'Constants of one solution: solutions must not share them'
+
+    def __init__(self):
+        self.gamma = 1.4
diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index 9d3871f..db65b43 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -16,7 +16,7 @@ import dg1d.constants as constants
 # ========================================================================
 
 
-def max_wave_speed(u):
+def max_wave_speed(u, constants=constants):
     """Returns the maximum wave speed for the Euler system"""
 
     # Primitive variables
@@ -33,7 +33,7 @@ def max_wave_speed(u):
 # ========================================================================
 
 
-def riemann_rusanov(ul, ur):
+def riemann_rusanov(ul, ur, constants=constants):
     """Returns the Rusanov interface flux for the Euler equations
 
     V. V. Rusanov, Calculation of Interaction of Non-Steady Shock Waves with Obstacles, J. Comput. Math. Phys. USSR, 1, pp. 267-279, 1961.
@@ -75,7 +75,7 @@ def riemann_rusanov(ul, ur):
 
 
 # ========================================================================
-def riemann_godunov(ul, ur):
+def riemann_godunov(ul, ur, constants=constants):
     """Returns the Godunov interface flux for the Euler equations
 
     S. K. Godunov, A Difference Scheme for Numerical Computation of Discontinuous Solution of Hydrodynamic Equations, Math. Sbornik, 47, pp. 271-306, 1959 (in Russian). Translated US Joint Publ. Res. Service, JPRS 7226 (1969)
@@ -138,8 +138,8 @@ def riemann_godunov(ul, ur):
 
             for k in range(kmax + 2):
 
-                mL = massflux(rhoL[i], aL[i], pL[i], pm1)
-                mR = massflux(rhoR[i], aR[i], pR[i], pm1)
+                mL = massflux(rhoL[i], aL[i], pL[i], pm1, constants)
+                mR = massflux(rhoR[i], aR[i], pR[i], pm1, constants)
                 pm2 = (mL * pR[i] + mR * pL[i] - mL *
                        mR * (vR[i] - vL[i])) / (mL + mR)
 
@@ -157,8 +157,8 @@ def riemann_godunov(ul, ur):
                 pm1 = pm2
 
             # Calculate the new fluxes
-            mL = massflux(rhoL[i], aL[i], pL[i], pm2)
-            mR = massflux(rhoR[i], aR[i], pR[i], pm2)
+            mL = massflux(rhoL[i], aL[i], pL[i], pm2, constants)
+            mR = massflux(rhoR[i], aR[i], pR[i], pm2, constants)
             vm = (mL * vL[i] + mR * vR[i] - (pR[i] - pL[i])) / (mL + mR)
 
             # Density in the middle
@@ -190,10 +190,10 @@ def riemann_godunov(ul, ur):
                 Um3 = pm2 / (constants.gamma - 1) + 0.5 * rmI * vm * vm
             elif (SmL > 0) and (vL[i] - aL[i] < 0):
                 rmI, Um2, Um3 = sonic(
-                    vL[i], aL[i], pL[i], vm, amL, vL[i] - aL[i], SmL)
+                    vL[i], aL[i], pL[i], vm, amL, vL[i] - aL[i], SmL, constants)
             elif (SmR < 0) and (vR[i] + aR[i] > 0):
                 rmI, Um2, Um3 = sonic(
-                    vR[i], aR[i], pR[i], vm, amR, vR[i] + aR[i], SmR)
+                    vR[i], aR[i], pR[i], vm, amR, vR[i] + aR[i], SmR, constants)
 
             # Compute the flux: evaluate the physical flux at the interface
             # (middle)
@@ -206,7 +206,7 @@ def riemann_godunov(ul, ur):
 
 
 # ========================================================================
-def massflux(r, c, pQ, pm):
+def massflux(r, c, pQ, pm, constants=constants):
     """ Returns the mass flux used for Godunov's Flux Function
 
     Katate Masatsuka, February 2009. http://www.cfdbooks.com
@@ -227,7 +227,7 @@ def massflux(r, c, pQ, pm):
 
 
 # ========================================================================
-def sonic(u1, c1, P1, u2, c2, a1, a2):
+def sonic(u1, c1, P1, u2, c2, a1, a2, constants=constants):
     """ Returns solutions at sonic points --- used in Godunov's flux
 
     Katate Masatsuka, February 2009. http://www.cfdbooks.com
@@ -248,7 +248,7 @@ def sonic(u1, c1, P1, u2, c2, a1, a2):
 
 
 # ========================================================================
-def riemann_roe(ul, ur):
+def riemann_roe(ul, ur, constants=constants):
     """Returns the Roe interface flux for the Euler equations
 
     P. L. Roe, Approximate Riemann Solvers, Parameter Vectors and Difference Schemes, Journal of Computational Physics, 43, pp. 357-372.
@@ -336,7 +336,7 @@ def riemann_roe(ul, ur):
 
 
 # ========================================================================
-def interior_flux(ug):
+def interior_flux(ug, constants=constants):
     """Returns the interior flux for the Euler equations"""
 
     # Initialize
@@ -358,7 +358,7 @@ def interior_flux(ug):
 # ========================================================================
 
 
-def sensing(sensors, thresholds, solution):
+def sensing(sensors, thresholds, solution, constants=constants):
     """Two sensors to detect contact discontinuities and shocks for the
     Euler equations. See M. T. Henry de Frahan et al. JCP (2015).
 
diff --git a/dg1d/solution.py b/dg1d/solution.py
index d4cdbde..789d75c 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -3,6 +3,7 @@
 # Imports
 #
 # ========================================================================
+import functools
 import os
 import sys
 import re
@@ -51,8 +52,8 @@ class Solution:
         self.u = np.empty([self.basis.N_s, self.N_E * self.N_F])
         self.scaled_minv = np.empty([self.basis.N_s])
 
-        # Initialize some global constants
-        constants.init()
+        # Initialize the constants of this solution
+        self.constants = constants.Constants()
 
         # Manipulation functions
         self.set_manipulation_functions(system, riemann_solver)
@@ -106,18 +107,26 @@ class Solution:
         # Modify some of these if solving Euler PDEs
         if system == 'euler':
             self.keywords['fields'] = ['rho', 'rhou', 'E']
-            self.keywords['interior_flux'] = euler_physics.interior_flux
-            self.keywords['max_wave_speed'] = euler_physics.max_wave_speed
-            self.keywords['sensing'] = euler_physics.sensing
+            self.keywords['interior_flux'] = self.bind(euler_physics.interior_flux)
+            self.keywords['max_wave_speed'] = self.bind(euler_physics.max_wave_speed)
+            self.keywords['sensing'] = self.bind(euler_physics.sensing)
             self.N_F = 3
 
             # Set the Riemann solver
             if riemann_solver == 'rusanov':
-                self.keywords['riemann'] = euler_physics.riemann_rusanov
+                self.keywords['riemann'] = self.bind(
+                    euler_physics.riemann_rusanov)
             elif riemann_solver == 'godunov':
-                self.keywords['riemann'] = euler_physics.riemann_godunov
+                self.keywords['riemann'] = self.bind(
+                    euler_physics.riemann_godunov)
             else:
-                self.keywords['riemann'] = euler_physics.riemann_roe
+                self.keywords['riemann'] = self.bind(
+                    euler_physics.riemann_roe)
+
+    # ========================================================================
+    def bind(self, function):
+        """Returns a physics function which uses the constants of this solution"""
+        return functools.partial(function, constants=self.constants)
 
     # ========================================================================
     def printer(self, nout, dt):
@@ -267,6 +276,9 @@ class Solution:
         Or read my notes 27/7/16. 
         """
 
+        # Constants of this solution
+        constants = self.constants
+
         # Domain specifications
         A = -4
         B = 4
@@ -314,6 +326,9 @@ class Solution:
         See "I do like CFD" Vol 1 (2nd edition) by Masatsuka on page 240
         """
 
+        # Constants of this solution
+        constants = self.constants
+
         # Domain specifications
         A = -1
         B = 1
@@ -351,6 +366,9 @@ class Solution:
 
         """
 
+        # Constants of this solution
+        constants = self.constants
+
         # Domain specifications
         A = -1
         B = 1
@@ -388,6 +406,9 @@ class Solution:
         You need to specify the left and right primitive state in the deck.        
         """
 
+        # Constants of this solution
+        constants = self.constants
+
         # Domain specifications
         A = -1
         B = 1
@@ -436,6 +457,9 @@ class Solution:
     def shuoshe(self):
         """Initial condition for the Shu-Osher problem"""
 
+        # Constants of this solution
+        constants = self.constants
+
         # Domain specifications
         A = 0
         B = 10
-- 
2.43.0


From 9ab9d0073c7106578020723b98fdf9cb091e3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 10/15] fix: limit the Runge-Kutta stages with up-to-date ghost
 cells

---
 dg1d/limiting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index 3af1ccf..636f7e5 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -72,6 +72,10 @@ class Limiter:
     def adaptive_hr(self, solution):
         """Limit a solution in the domain using adaptive hierarchical reconstruction"""
 
+        # The limiting of the elements next to the boundaries relies on
+        # the ghost cells (out of date in a Runge-Kutta stage)
+        solution.apply_bc()
+
         # Decide where to do limiting
         solution.sensors.sensing(solution)
 
-- 
2.43.0


From 12cbc7daec48d67735b76133c253a154ef6cef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 11/15] fix: evaluate the Runge-Kutta stages at their own time

---
 dg1d/rk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 2c0978b..95d28e3 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -95,7 +95,7 @@ def classic_rk(solution, deck, dgsolver, limiter, coeffs, alphas, betas):
             uk.copy_data_only(us)
             for j, beta in enumerate(betas[k, :k]):
                 uk.smart_axpy(beta, K[j])
-            uk.t += alpha * dt
+            uk.t = solution.t + alpha * dt
 
             # Limit solution if necessary
             if k > 0:
@@ -168,7 +168,7 @@ def low_storage_rk4(solution, deck, dgsolver, limiter):
             # Calculate the star quantities
             ustar.copy_data_only(us)
             ustar.smart_axpy(beta, du)
-            ustar.t += beta * dt
+            ustar.t = solution.t + beta * dt
 
             # Limit solution if necessary
             if k > 0:
-- 
2.43.0


From 2158776cdc015615cedc3b6072bde8b8acbd1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 12/15] fix: refuse to load fields which are not from the same
 solution

---
 dg1d/solution.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index 789d75c..42031c7 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -201,8 +201,8 @@ class Solution:
 
         # Parse the header and first line for the solution information
         with open(fnames[0], 'r') as f:
-            line = f.readline()
-            line = re.split('=|,', line)
+            header = f.readline()
+            line = re.split('=|,', header)
             self.n = int(line[1])
             self.t = float(line[3])
             self.bc_l = line[5].rstrip()
@@ -234,6 +234,12 @@ class Solution:
         for field, fname in enumerate(fnames):
             print(fname)
 
+            # The fields must come from the same instant of the same run
+            with open(fname, 'r') as f:
+                if f.readline() != header:
+                    sys.exit(
+                        "{0:s} and {1:s} are not from the same solution. Exiting.".format(fnames[0], fname))
+
             # Load the data from the file
             dat = np.loadtxt(fname, delimiter=',')
 
-- 
2.43.0


From 760da791ce8264745938d80cf0dcf56bd65310e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 13/15] fix: refuse to load fields which differ in mesh or
 order

---
 dg1d/solution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index 42031c7..61478de 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -241,7 +241,12 @@ class Solution:
                         "{0:s} and {1:s} are not from the same solution. Exiting.".format(fnames[0], fname))
 
             # Load the data from the file
-            dat = np.loadtxt(fname, delimiter=',')
+            dat = np.loadtxt(fname, delimiter=',', ndmin=2)
+
+            # They must also share the mesh and the order
+            if (dat.shape != (self.N_E, N_s + 1)) or np.any(dat[:, 0] != self.xc):
+                sys.exit(
+                    "{0:s} and {1:s} are not from the same solution. Exiting.".format(fnames[0], fname))
 
             # Store the data
             start = self.N_F + field
-- 
2.43.0


From 320eb6fe2fd705dc59996e27cfaae354dd5e6b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 14/15] fix: the convergence study starts the code from any
 directory

The relative path of the code was resolved in the work directory of each
case, where it does not exist: no case was ever run. The standard error of
the code went into a pipe nobody reads, which blocks it once it is full.
---
 advection_convergence/run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/advection_convergence/run.py b/advection_convergence/run.py
index 79bdabc..c89cc15 100755
--- a/advection_convergence/run.py
+++ b/advection_convergence/run.py
@@ -12,7 +12,8 @@ import sys
 import shutil
 import subprocess as sp
 
-codedir = '../dg1d/'
+codedir = os.path.abspath(os.path.join(
+    os.path.dirname(__file__), '..', 'dg1d')) + '/'
 sys.path.insert(0, codedir)
 import deck as deck
 
@@ -32,8 +33,8 @@ def runcode(deck, background=True):
 
     # Launch the code
     log = open('logfile', "w")
-    proc = sp.Popen(codedir + 'main.py -d ' + deck,
-                    shell=True, stdout=log, stderr=sp.PIPE)
+    proc = sp.Popen([sys.executable, codedir + 'main.py', '-d', deck],
+                    stdout=log, stderr=sp.STDOUT)
     retcode = 0
 
     # If you don't want to send the process to the background
-- 
2.43.0


From a90857fbf902792d3be73bd5f66a28683b99496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 15/15] fix: the convergence study stops when one of its runs
 fails

The return code of the run was ignored: the study carried on and succeeded.
---
 advection_convergence/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/advection_convergence/run.py b/advection_convergence/run.py
index c89cc15..1fe4cce 100755
--- a/advection_convergence/run.py
+++ b/advection_convergence/run.py
@@ -97,7 +97,8 @@ for p, order in enumerate(orders):
         deckname = deck.write_deck(workdir, defs)
 
         # run the code
-        runcode(deckname, False)
+        if runcode(deckname, False) != 0:
+            sys.exit('The run in ' + workdir + ' failed. Exiting.')
 
         # Go back to our base directory
         os.chdir(basedir)
-- 
2.43.0

