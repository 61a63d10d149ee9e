From 3efbbc6f433611ffb19f175ac9b97b6c520c7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 01/36] fix: cython ForwardEuler takes the arguments it is
 called with

The cython ForwardEuler and ForwardEuler_2D took an extra work array, unlike
the numpy, numba and pythran versions, so that every run with
--optimization cython --integrator ForwardEuler raised a TypeError.
---
 spectralDNS/optimization/cython_integrators.in | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 80ef204..bc602b7 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -52,7 +52,6 @@ def RK4(np.ndarray[complex_t, ndim=4] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler(np.ndarray[complex_t, ndim=4] U_hat,
-                 np.ndarray[complex_t, ndim=4] U_hat0,
                  np.ndarray[complex_t, ndim=4] dU,
                  real_t dt,
                  solver,
@@ -139,7 +138,6 @@ def RK4_2D(np.ndarray[complex_t, ndim=3] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler_2D(np.ndarray[complex_t, ndim=3] U_hat,
-                    np.ndarray[complex_t, ndim=3] U_hat0,
                     np.ndarray[complex_t, ndim=3] dU,
                     real_t dt,
                     solver,
-- 
2.43.0


From 69ec26f73a0f0bd71ec06056480312035474036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 02/36] fix: cython AB2_2D starts with forward Euler on the
 first step

The first step has tstep == 0, as in the 3D version. Testing for tstep == 1
used an uninitialized previous right hand side on the first step and took
the second step with forward Euler.
---
 spectralDNS/optimization/cython_integrators.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index bc602b7..94b299e 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -163,7 +163,7 @@ def AB2_2D(np.ndarray[complex_t, ndim=3] U_hat,
     cdef unsigned int rk, i, j, k
     dU = solver.ComputeRHS(dU, U_hat, solver, **context)
 
-    if tstep == 1:
+    if tstep == 0:
         for i in range(dU.shape[0]):
             for j in range(dU.shape[1]):
                 for k in range(dU.shape[2]):
-- 
2.43.0


From 11571fe42f2f6dfa575433062f82819589fb44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 03/36] fix: cython cross2 in 2D reads the wavenumbers along
 their own axes

The wavenumber arrays have shapes (N0, 1) and (1, N1), so that [i, j] read
outside of both arrays (bounds checking is off).
---
 spectralDNS/optimization/cython_maths.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_maths.in b/spectralDNS/optimization/cython_maths.in
index 918fefe..d6dea74 100644
--- a/spectralDNS/optimization/cython_maths.in
+++ b/spectralDNS/optimization/cython_maths.in
@@ -137,9 +137,9 @@ def _cross3_2D(np.ndarray[complex_t, ndim=2] c,
     #c[:] = 1j*(kx*b[1] - ky*b[0])
 
     for i in xrange(b.shape[1]):
+        a0 = kx[i,0]
         for j in xrange(b.shape[2]):
-            a0 = kx[i,j]
-            a1 = ky[i,j]
+            a1 = ky[0,j]
             b0 = b[0,i,j]
             b1 = b[1,i,j]
             c[i,j].real = -(a0*b1.imag - a1*b0.imag)
-- 
2.43.0


From 4a6f582394291d67ecbe9d1c15e29357cbdebd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 04/36] fix: error estimate of adaptive integrator independent
 of the MPI layout

The sum over all processes was divided by the number of unknowns on rank 0,
so that time steps depended on the number of processes and the decomposition.
---
 spectralDNS/maths/integrators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 3f97ce5..7c0214e 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -93,7 +93,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             if comm.Get_rank() == 0:
                 est_to_bcast = np.zeros(1)
                 est = np.max(np.sqrt(nsquared))
-                est /= np.sqrt(np.array(context.T.shape(True)).prod())
+                est /= np.sqrt(np.prod(context.T.global_shape(True)))
                 est_to_bcast[0] = est
             est_to_bcast = comm.bcast(est_to_bcast, root=0)
             est = est_to_bcast[0]
-- 
2.43.0


From 92cab6a2c559cc0e6d6918b1c8695551e874482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 05/36] fix: AB2 and BS5 can start from a time step different
 from zero

When a simulation was continued with tstep > 0 (restart from a checkpoint, or
a second call to solve), the first AB2 step subtracted half the solution
itself as the previous right hand side, and the first BS5 step used zero as
its first stage.
---
 spectralDNS/maths/integrators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 7c0214e..20053ba 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -218,11 +218,15 @@ def getintegrator(rhs, u0, solver, context):
         sc = np.zeros_like(u0)
         err = np.zeros_like(u0)
 
+        first_call = [True] # No right hand side to reuse yet, whatever tstep
+
         @wraps(adaptiveRK)
         def func():
+            tstep = 0 if first_call[0] else params.tstep
+            first_call[0] = False
             return adaptiveRK(A, b, bhat, err_order, fY_hat, u1, sc, err, fsal,
                               offset, params.TOL, params.TOL, adaptive, errnorm,
-                              rhs, u0, solver, params.dt, params.tstep, context,
+                              rhs, u0, solver, params.dt, tstep, context,
                               solver.additional_callback, params)
         return func
 
@@ -233,7 +237,11 @@ def getintegrator(rhs, u0, solver, context):
         return func
 
     elif params.integrator == "AB2":
+        first_call = [True] # No previous right hand side yet, whatever tstep
+
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, params.tstep, solver, context)
+            tstep = 0 if first_call[0] else params.tstep
+            first_call[0] = False
+            return AB2(u0, u1, rhs, params.dt, tstep, solver, context)
         return func
-- 
2.43.0


From b20455cfc8f56695d56e9eccd5f0e911fc6b04c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 06/36] fix: AB2 is consistent when the time step changes

The last time step is shortened when T is not a multiple of dt. The previous
right hand side was then still weighted with the old, longer time step.
---
 spectralDNS/maths/integrators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 20053ba..0455f4d 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -237,11 +237,15 @@ def getintegrator(rhs, u0, solver, context):
         return func
 
     elif params.integrator == "AB2":
-        first_call = [True] # No previous right hand side yet, whatever tstep
+        dt_prev = [None] # No previous right hand side yet, whatever tstep
 
         @wraps(AB2)
         def func():
-            tstep = 0 if first_call[0] else params.tstep
-            first_call[0] = False
-            return AB2(u0, u1, rhs, params.dt, tstep, solver, context)
+            dt = params.dt
+            tstep = 0 if dt_prev[0] is None else params.tstep
+            if dt_prev[0] not in (None, dt):
+                # u1 is the previous right hand side times the previous dt
+                u1[:] *= dt/dt_prev[0]
+            dt_prev[0] = dt
+            return AB2(u0, u1, rhs, dt, tstep, solver, context)
         return func
-- 
2.43.0


From cc907f8bc117fedbfb0adca8b73bdea8a9d97bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 07/36] fix: project works with wavenumbers given as a list of
 arrays

The solvers keep the wavenumbers as a list of arrays of different shapes, and
an array cannot be multiplied by such a list.
---
 spectralDNS/maths/maths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/maths/maths.py b/spectralDNS/maths/maths.py
index afcf262..18c5d9d 100644
--- a/spectralDNS/maths/maths.py
+++ b/spectralDNS/maths/maths.py
@@ -7,5 +7,7 @@ __all__ = ['project']
 
 def project(u, K, K_over_K2):
     """Project u onto divergence free space"""
-    u -= sum(K_over_K2*u, 0)*K
+    p = sum(K_over_K2*u, 0)
+    for i, k in enumerate(K):
+        u[i] -= p*k
     return u
-- 
2.43.0


From f91f86108f62a527a43a1c645fb4dd886e90f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 08/36] fix: Rayleigh-Benard solvers solve the temperature
 equation for the temperature

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0721c49..5ef6458 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -79,7 +79,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, rk, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, rk, context):
     u_hat, g_hat = KMMRK3_solve_linear(u_hat, g_hat, rhs, rk, **context)
-    p_hat = context.la.HelmholtzSolverT[rk](p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT[rk](rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index d6d7c30..0d52600 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -94,7 +94,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, context):
     u_hat, g_hat = KMM_solve_linear(u_hat, g_hat, rhs, **context)
-    p_hat = context.la.HelmholtzSolverT(p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT(rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-- 
2.43.0


From 52959f9a4f2c0a5d7c0aec3569c7d1f9b99ce94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 09/36] fix: sign of the mean temperature gradient in
 StandardRBConvection

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 5ef6458..4cd568b 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -108,7 +108,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(Ua[0], 0, True)]
     Ua = VFSp.backward(u_hat, Ua)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 0d52600..69da226 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -143,7 +143,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(UCN[0], 0, True)]
     UCN = VFSp.backward(U_hat0, UCN)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
-- 
2.43.0


From ae6b6bfb409012aff96d3a83688606cc5124fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 10/36] fix: KMMRK3_RB temperature convection is not
 overwritten by its own work array

---
 spectralDNS/solvers/KMMRK3_RB.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 4cd568b..ac83a71 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -114,8 +114,8 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
     dTdxi[2] = FSTp.backward(1j*K[2]*p_hat, dTdxi[2])
     N[:] = Ua[0]*dTdxi[0] + Ua[1]*dTdxi[1] + Ua[2]*dTdxi[2]
-    N_hat = FSTp.forward(N, N_hat)
-    rhs = mat.BDD.matvec(N_hat, rhs)
+    N_s = FSTp.forward(N, N_s)  # Note N_hat may be the same array as rhs
+    rhs = mat.BDD.matvec(N_s, rhs)
     return rhs
 
 def integrate(u_hat, g_hat, p_hat, rhs, dt, solver, context):
-- 
2.43.0


From 733637f6e027548f33b130d5007f4d6959745d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 11/36] fix: KMM divergence convection differentiates in the
 basis the products are in

---
 spectralDNS/solvers/KMM.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index bb958b0..dad2b19 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -326,15 +326,18 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = Function(VFSp, buffer=work[(rhs, 0, True)])
-    F_tmp2 = Function(VFSp, buffer=work[(rhs, 1, True)])
+    F_tmp = work[(rhs, 0, True)]
+    F_tmp2 = work[(rhs, 1, True)]
     U = u_dealias
 
     F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
 
-    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSp, output_array=F_tmp2)
+    # All products are in the Shen Dirichlet basis, and so are their derivatives
+    for i in range(3):
+        F_tmp2[i] = mat.CDD.matvec(F_tmp[i], F_tmp2[i])
+        F_tmp2[i] = la.TDMASolverD(F_tmp2[i])
     rhs += F_tmp2
 
     F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-- 
2.43.0


From 8b4ebd6c4c1dedc0b42fc147571295dee7bf0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 12/36] fix: KMMr standard and divergence convection use the
 wall normal axis 2

---
 spectralDNS/solvers/KMMr.py | 70 ++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index a38d0ae..18234da 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -288,30 +288,28 @@ def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     Uc2 = work[(U, 2, True)]
     F_tmp = work[(rhs, 0, True)]
 
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(u_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    dudx = Uc[0] = FSTp.backward(F_tmp[0], Uc[0])
+    # dwdz = 0 from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    F_tmp[2] = mat.CDB.matvec(u_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    dwdz = Uc[2] = FSTp.backward(F_tmp[2], Uc[2])
 
-    LUsolve.Mult_CTD_3D_n(params.N[0], u_hat[1], u_hat[2], F_tmp[1], F_tmp[2])
-    dvdx = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
-    dwdx = Uc[2] = FCTp.backward(F_tmp[2], Uc[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], u_hat[0], u_hat[1], F_tmp[0], F_tmp[1], 2)
+    dudz = Uc[0] = FCTp.backward(F_tmp[0], Uc[0])
+    dvdz = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
 
-    dudy = Uc2[0] = FSBp.backward(1j*K[1]*u_hat[0], Uc2[0])
-    dudz = Uc2[1] = FSBp.backward(1j*K[2]*u_hat[0], Uc2[1])
+    dudx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[0], Uc2[0])
+    dudy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[0], Uc2[1])
     rhs[0] = FSTp.forward(U[0]*dudx + U[1]*dudy + U[2]*dudz, rhs[0])
 
     Uc2[:] = 0
-    dvdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[0])
-
-    dvdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[1], Uc2[1])
+    dvdx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[1], Uc2[0])
+    dvdy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[1])
     rhs[1] = FSTp.forward(U[0]*dvdx + U[1]*dvdy + U[2]*dvdz, rhs[1])
 
     Uc2[:] = 0
-    dwdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[2], Uc2[0])
-    dwdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[2], Uc2[1])
-
+    dwdx = Uc2[0] = FSBp.backward(1j*K[0]*u_hat[2], Uc2[0])
+    dwdy = Uc2[1] = FSBp.backward(1j*K[1]*u_hat[2], Uc2[1])
     rhs[2] = FSTp.forward(U[0]*dwdx + U[1]*dwdy + U[2]*dwdz, rhs[2])
 
     return rhs
@@ -325,32 +323,24 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     F_tmp2 = work[(rhs, 1, True)]
     U = u_dealias
 
+    F_tmp[0] = FSTp.forward(U[2]*U[0], F_tmp[0])
+    F_tmp[1] = FSTp.forward(U[2]*U[1], F_tmp[1])
+    F_tmp[2] = FSTp.forward(U[2]*U[2], F_tmp[2])
+    rhs[2] += 1j*K[0]*F_tmp[0]  # dwudx
+    rhs[2] += 1j*K[1]*F_tmp[1]  # dwvdy
+
+    for i in range(3):
+        F_tmp2[i] = mat.CDD.matvec(F_tmp[i], F_tmp2[i], axis=2)
+        F_tmp2[i] = la.TDMASolverD(F_tmp2[i], axis=2)
+    rhs += F_tmp2
+
     F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
-    F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
-
-    F_tmp2[0] = mat.CDD.matvec(F_tmp[0], F_tmp2[0])
-    F_tmp2[1] = mat.CDD.matvec(F_tmp[1], F_tmp2[1])
-    F_tmp2[2] = mat.CDD.matvec(F_tmp[2], F_tmp2[2])
-    F_tmp2[0] = la.TDMASolverD(F_tmp2[0])
-    F_tmp2[1] = la.TDMASolverD(F_tmp2[1])
-    F_tmp2[2] = la.TDMASolverD(F_tmp2[2])
-    rhs[0] += F_tmp2[0]
-    rhs[1] += F_tmp2[1]
-    rhs[2] += F_tmp2[2]
-
-    F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-    F_tmp2[1] = FSTp.forward(U[0]*U[2], F_tmp2[1])
-    rhs[0] += 1j*K[1]*F_tmp2[0] # duvdy
-    rhs[0] += 1j*K[2]*F_tmp2[1] # duwdz
-
-    F_tmp[0] = FSTp.forward(U[1]*U[1], F_tmp[0])
-    F_tmp[1] = FSTp.forward(U[1]*U[2], F_tmp[1])
-    F_tmp[2] = FSTp.forward(U[2]*U[2], F_tmp[2])
-    rhs[1] += 1j*K[1]*F_tmp[0]  # dvvdy
-    rhs[1] += 1j*K[2]*F_tmp[1]  # dvwdz
-    rhs[2] += 1j*K[1]*F_tmp[1]  # dvwdy
-    rhs[2] += 1j*K[2]*F_tmp[2]  # dwwdz
+    F_tmp[2] = FSTp.forward(U[1]*U[1], F_tmp[2])
+    rhs[0] += 1j*K[0]*F_tmp[0]  # duudx
+    rhs[0] += 1j*K[1]*F_tmp[1]  # duvdy
+    rhs[1] += 1j*K[0]*F_tmp[1]  # dvudx
+    rhs[1] += 1j*K[1]*F_tmp[2]  # dvvdy
 
     return rhs
 
-- 
2.43.0


From cadaa0a3cce2a9db3b31c445b9a92913f24f6118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 13/36] fix: compute_derivatives of the KMM and KMMr solvers

---
 spectralDNS/solvers/KMM.py  |  2 +-
 spectralDNS/solvers/KMMr.py | 26 +++++++++++++-------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index dad2b19..cdfc891 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -271,7 +271,7 @@ def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
     F_tmp[0] = la.TDMASolverD(F_tmp[0])
     duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2], 0)
     duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
     duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
     duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 18234da..3ef4fd9 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -264,20 +264,20 @@ def compute_curl(c, u_hat, g, K, FCTp, FSTp, FSBp, work):
 def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     duidxj = np.zeros((3, 3)+U.shape[1:])
     F_tmp = work[(U_hat, 0, True)]
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
-    duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
-    duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
-    duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-    duidxj[0, 2] = dudz = FSB.backward(1j*K[2]*U_hat[0], duidxj[0, 2])
+    # dwdz = 0 from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    F_tmp[2] = mat.CDB.matvec(U_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    duidxj[2, 2] = dwdz = FST.backward(F_tmp[2], duidxj[2, 2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], U_hat[0], U_hat[1], F_tmp[0], F_tmp[1], 2)
+    duidxj[0, 2] = dudz = FCT.backward(F_tmp[0], duidxj[0, 2])  # proj to Cheb
+    duidxj[1, 2] = dvdz = FCT.backward(F_tmp[1], duidxj[1, 2])  # proj to Cheb
+    duidxj[2, 0] = dwdx = FSB.backward(1j*K[0]*U_hat[2], duidxj[2, 0]) # ShenB
+    duidxj[2, 1] = dwdy = FSB.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
+    duidxj[0, 0] = dudx = FST.backward(1j*K[0]*U_hat[0], duidxj[0, 0])
+    duidxj[0, 1] = dudy = FST.backward(1j*K[1]*U_hat[0], duidxj[0, 1])
+    duidxj[1, 0] = dvdx = FST.backward(1j*K[0]*U_hat[1], duidxj[1, 0])
     duidxj[1, 1] = dvdy = FST.backward(1j*K[1]*U_hat[1], duidxj[1, 1])
-    duidxj[1, 2] = dvdz = FST.backward(1j*K[2]*U_hat[1], duidxj[1, 2])
-    duidxj[2, 1] = dwdy = FST.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
-    duidxj[2, 2] = dwdz = FST.backward(1j*K[2]*U_hat[2], duidxj[2, 2])
     return duidxj
 
 def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
-- 
2.43.0


From 8659299f3878c54486a3e2274c2675682b66868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 14/36] fix: KMMr get_pressure works on the wall normal axis 2

---
 spectralDNS/solvers/KMMr.py | 46 ++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 3ef4fd9..4e99a17 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -180,43 +180,43 @@ def get_pressure(context, solver):
     FCT = context.FCT
     FST = context.FST
 
-    U = solver.get_velocity(**context)
-    U0 = context.VFS.backward(context.U_hat0, context.U0)
+    U_hat = context.U_hat
+    U_hat0 = context.U_hat0
+    Um = Function(FST)
+    Um[:] = 0.5*(U_hat[2] + U_hat0[2])
+    U = U_hat.backward(context.U)
+    U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
-    H_hat = solver.get_convection(**context)
-    Hx = Array(FST)
-    Hx = FST.backward(H_hat[0], Hx)
+    Hz = Function(FST)
+    Hz[:] = solver.get_convection(**context)[2]
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
-    U = U.as_function()
-    U0 = U0.as_function()
+    rhs_hat = inner(context.nu*div(grad(Um)), v)
+    Hz -= 1./dt*(U_hat[2]-U_hat0[2])
+    rhs_hat += inner(Hz, v)
 
-    rhs_hat = inner((0.5*context.nu)*div(grad(U[0]+U0[0])), v)
-    Hx -= 1./dt*(U[0]-U0[0])
-    rhs_hat += inner(Hx, v)
-
-    CT = inner(Dx(p, 0), v)
+    CT = inner(Dx(p, 2, 1), v)
 
     # Should implement fast solver. Just a backwards substitution
-    A = CT.diags().toarray()*CT.scale[0]
-    A[-1, 0] = 1
-    a_i = np.linalg.inv(A)
-
-    p_hat = Function(context.FCT)
+    # Apply integral constraint
+    A = CT.mats[2]
+    N = A.shape[0]
+    A[-(N-1)] = 1
 
-    for j in range(p_hat.shape[1]):
-        for k in range(p_hat.shape[2]):
-            p_hat[:, j, k] = np.dot(a_i, rhs_hat[:, j, k])
+    p_hat = Function(FCT)
+    p_hat = CT.solve(rhs_hat, p_hat)
 
     p = Array(FCT)
     p = FCT.backward(p_hat, p)
 
-    uu = np.sum((0.5*(U+U0))**2, 0)
-    uu *= 0.5
+    uu = 0.
+    if params.convection == 'Vortex':
+        uu = np.sum((0.5*(U+U0))**2, 0)
+        uu *= 0.5
 
-    return p-uu+3./16.
+    return p-uu
 
 def get_divergence(U, U_hat, FST, K, Kx, work, la, mat, **context):
     Uc_hat = work[(U_hat[0], 0, True)]
-- 
2.43.0


From ff55c1a39547a64eb79252cd84d4b3807edf5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:45 +0000
Subject: [PATCH 15/36] fix: appending to a checkpoint file does not reset its
 time and time step

---
 spectralDNS/h5io/HDF5File.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index cf7de8d..1c5a61f 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -67,8 +67,10 @@ class HDF5File(object):
                                      self.checkpoint['space'],
                                      mode=params.filemode)
             self.cfile.open()
-            self.cfile.f.attrs.create('tstep', 0)
-            self.cfile.f.attrs.create('t', 0.0)
+            # Keep the attributes of an existing checkpoint (filemode 'a')
+            if 'tstep' not in self.cfile.f.attrs:
+                self.cfile.f.attrs.create('tstep', 0)
+                self.cfile.f.attrs.create('t', 0.0)
             self.cfile.close()
         if self.wfile is None:
             self.wfile = ShenfunFile(self.filename+'_w',
-- 
2.43.0


From 69f24c6c7722e39663c29d04fce623fab82ec940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:52 +0000
Subject: [PATCH 16/36] fix: doubly periodic convection accepts the choice
 Vortex and nothing shorter

---
 spectralDNS/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index ff1771f..79b155d 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -246,7 +246,7 @@ doublyperiodic.add_argument('--integrator', default='RK4',
 doublyperiodic.add_argument('--L', default=[2*pi, 2*pi], nargs=2, metavar=('Lx', 'Ly'),
                             help='Physical mesh size')
 doublyperiodic.add_argument('--convection', default='Vortex',
-                            choices=('Vortex'),
+                            choices=('Vortex',),
                             help='Choose method for computing the nonlinear convective term')
 doublyperiodic.add_argument('--TOL', type=float, default=1e-6,
                             help='Tolerance for adaptive time integrator')
-- 
2.43.0


From 81ca2d5805a6f6b9d565b52f54e9288c95da1d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 17/36] fix: defaults set for one kind of mesh do not leak into
 the others

The parsers share the action objects of a common parent, so set_defaults on
one of them changed the defaults of all.
---
 spectralDNS/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 79b155d..c6d87ae 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -46,6 +46,7 @@ __copyright__ = "Copyright (C) 2015-2018 " + __author__
 __license__ = "GNU Lesser GPL version 3 or any later version"
 
 import argparse
+import copy
 from collections.abc import MutableMapping
 from collections import defaultdict
 import json
@@ -209,7 +210,7 @@ parser.add_argument('--no-mask_nyquist', dest='mask_nyquist', action='store_fals
 parser.set_defaults(mask_nyquist=True)
 
 # Arguments for 3D isotropic solvers
-triplyperiodic = argparse.ArgumentParser(parents=[parser])
+triplyperiodic = argparse.ArgumentParser(parents=[copy.deepcopy(parser)])
 
 triplyperiodic.add_argument('--convection', default='Vortex',
                             choices=('Standard', 'Divergence', 'Skewed', 'Vortex'),
@@ -239,7 +240,7 @@ parser_Bq.add_argument('--Ri', default=0.1, type=float, help='Richardson number'
 parser_Bq.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for 2D periodic solvers
-doublyperiodic = argparse.ArgumentParser(parents=[parser])
+doublyperiodic = argparse.ArgumentParser(parents=[copy.deepcopy(parser)])
 doublyperiodic.add_argument('--integrator', default='RK4',
                             choices=('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed', 'BS5_adaptive'),
                             help='Integrator for doubly periodic domain')
@@ -261,7 +262,7 @@ parser_Bq2D.add_argument('--Ri', default=0.1, type=float, help='Richardson numbe
 parser_Bq2D.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for channel solvers with one inhomogeneous direction
-channel = argparse.ArgumentParser(parents=[parser])
+channel = argparse.ArgumentParser(parents=[copy.deepcopy(parser)])
 channel.add_argument('--convection', default='Vortex',
                      choices=('Standard', 'Divergence', 'Skew', 'Vortex'),
                      help='Choose method for computing the nonlinear convective term')
-- 
2.43.0


From 40da144c2411b06207834b9050b70ad00e040ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 18/36] fix: defaults for solver specific options (eta, Ri, Pr)
 take effect

Subparsers override the defaults set on the main parser, such that, e.g., the
Ri and Pr set in KelvinHelmoltzBoussinesq.py were ignored.
---
 spectralDNS/config.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index c6d87ae..8ca6cab 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -312,4 +312,12 @@ def update(new, mesh="triplyperiodic"):
     if 'planner_effort' in new:
         fft_plans.update(new['planner_effort'])
         new['planner_effort'] = fft_plans
-    globals()[mesh].set_defaults(**new)
+    main = globals()[mesh]
+    main.set_defaults(**new)
+    # Options of the solvers are found on the subparsers
+    for group in main._subparsers._group_actions:
+        for sub in group.choices.values():
+            for action in sub._actions:
+                val = new.get(action.dest)
+                if val is not None and (action.choices is None or val in action.choices):
+                    action.default = val
-- 
2.43.0


From 5e0cb8d2025fa727d70fcc5ce008f5e1ce05ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 19/36] fix: channel integral with Gauss-Lobatto points and an
 odd mesh size

---
 spectralDNS/utilities/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectralDNS/utilities/__init__.py b/spectralDNS/utilities/__init__.py
index 0c9d7d0..6a7be08 100644
--- a/spectralDNS/utilities/__init__.py
+++ b/spectralDNS/utilities/__init__.py
@@ -102,6 +102,7 @@ def dx(u, FST, axis=0):
                 w[2:] = 2./(1-w[2:]**2)
                 w[0] = 1
                 w[1::2] = 0
+                w[-1] /= 2 # The last coefficient is counted twice in ak
                 return sum(ak*w)*np.prod(np.take(config.params.L/config.params.N, sx))
 
             assert quad == 'GC'
-- 
2.43.0


From 91df8e4eff69a8619f0c79f9c15a73d9eccf9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 20/36] fix: Rayleigh-Benard temperature uses the quadrature of
 the velocity

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index ac83a71..a383730 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -15,7 +15,7 @@ KMMRK3_solve_linear = solve_linear
 def get_context():
     c = KMMRK3_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 69da226..f3265ad 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -15,7 +15,7 @@ KMM_solve_linear = solve_linear
 def get_context():
     c = KMM_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
@@ -43,7 +43,7 @@ def get_context():
     c.la.HelmholtzSolverT = Helmholtz(ADD, BDD,
                                       -np.ones((1, 1, 1)),
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
-    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0)
+    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, RB.quad)
 
     c.hdf5file = RBFile(config.params.solver,
                         checkpoint={'space': c.VFS,
-- 
2.43.0


From 7e0982c34c5a917f87cee4b21653ae736118719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 21/36] fix: wall temperatures survive the 2/3-rule in the
 convection of temperature

---
 spectralDNS/solvers/KMM_RB.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index f3265ad..b35cc42 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -22,6 +22,8 @@ def get_context():
     c.dU = Function(c.VFS)  # rhs vector for integrator. Now three components, not two
     c.phi = Array(FRB)
     c.phi0 = Array(FRBp)
+    # Wall temperatures are in the last coefficients, which the 2/3-rule cuts
+    c.phi_b = 0.5*(1-FRBp.local_mesh(True)[0]) if params.dealias == '2/3-rule' else 0
     c.phi_hat = Function(FRB)
     c.phi_hat0 = Function(FRB)
     c.phi_hat1 = Function(FRB)
@@ -99,13 +101,14 @@ def solve_linear(u_hat, g_hat, p_hat, rhs, context):
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
                     UCN, VFSp, U_hat0, phi_ab, phi0, mat, K, N_hat,
-                    phi_hat0, phi_hat1, FRBp, FSBp, FSTp, work, **context):
+                    phi_hat0, phi_hat1, phi_b, FRBp, FSBp, FSTp, work, **context):
     uT_hat = work[(p_hat, 0, True)]
     F_tmp = work[(u_hat, 0, True)]
 
     UCN = VFSp.backward(0.5*(u_hat + U_hat0), UCN)
     phi_ab[:] = 1.5*phi_hat0 - 0.5*phi_hat1
     phi0 = FRBp.backward(phi_ab, phi0)
+    phi0 += phi_b
     uT_hat = FSBp.forward(phi0*UCN[0], uT_hat)
     F_tmp[0] = mat.CDB.matvec(uT_hat, F_tmp[0])
     uT_hat = FSTp.forward(phi0*UCN[1], uT_hat)
@@ -118,12 +121,13 @@ def DivRBConvection(rhs, u_hat, g_hat, p_hat,
 
 def DivABConvection(rhs, u_hat, g_hat, p_hat,
                     UCN, VFSp, U_hat0, phi_ab, phi0, mat, K, N_hat, N_hat0,
-                    phi_hat0, phi_hat1, FRBp, FSBp, FSTp, work, **context):
+                    phi_hat0, phi_hat1, phi_b, FRBp, FSBp, FSTp, work, **context):
     uT_hat = work[(p_hat, 0, True)]
     F_tmp = work[(u_hat, 0, True)]
 
     UCN = VFSp.backward(u_hat, UCN)
     phi0 = FRBp.backward(p_hat, phi0)
+    phi0 += phi_b
     uT_hat = FSBp.forward(phi0*UCN[0], uT_hat)
     F_tmp[0] = mat.CDB.matvec(uT_hat, F_tmp[0])
     uT_hat = FSTp.forward(phi0*UCN[1], uT_hat)
-- 
2.43.0


From 147b85b0640df724d338bae721957f76272dc561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 22/36] fix: channel pressure takes the wall normal velocity in
 its own basis

---
 spectralDNS/solvers/KMM.py  | 7 +++++--
 spectralDNS/solvers/KMMr.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index cdfc891..54e52b2 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -178,10 +178,11 @@ def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_
 def get_pressure(context, solver):
     FCT = context.FCT
     FST = context.FST
+    FSB = context.FSB
 
     U_hat = context.U_hat
     U_hat0 = context.U_hat0
-    Um = Function(FST)
+    Um = Function(FSB)
     Um[:] = 0.5*(U_hat[0] + U_hat0[0])
     U = U_hat.backward(context.U)
     U0 = U_hat0.backward(context.U0)
@@ -193,8 +194,10 @@ def get_pressure(context, solver):
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
     rhs_hat = inner(context.nu*div(grad(Um)), v)
-    Hx -= 1./dt*(U_hat[0]-U_hat0[0])
+    dU = Function(FSB)
+    dU[:] = 1./dt*(U_hat[0]-U_hat0[0])
     rhs_hat += inner(Hx, v)
+    rhs_hat -= inner(dU, v)
 
     CT = inner(Dx(p, 0, 1), v)
 
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 4e99a17..6faf057 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -179,10 +179,11 @@ def get_convection(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u
 def get_pressure(context, solver):
     FCT = context.FCT
     FST = context.FST
+    FSB = context.FSB
 
     U_hat = context.U_hat
     U_hat0 = context.U_hat0
-    Um = Function(FST)
+    Um = Function(FSB)
     Um[:] = 0.5*(U_hat[2] + U_hat0[2])
     U = U_hat.backward(context.U)
     U0 = U_hat0.backward(context.U0)
@@ -194,8 +195,10 @@ def get_pressure(context, solver):
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
     rhs_hat = inner(context.nu*div(grad(Um)), v)
-    Hz -= 1./dt*(U_hat[2]-U_hat0[2])
+    dU = Function(FSB)
+    dU[:] = 1./dt*(U_hat[2]-U_hat0[2])
     rhs_hat += inner(Hz, v)
+    rhs_hat -= inner(dU, v)
 
     CT = inner(Dx(p, 2, 1), v)
 
-- 
2.43.0


From c1f1ba2baffbade53fb7437a3215c436e4a14a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 23/36] fix: C++ solver starts every step from the velocity of
 the last one

---
 cpp/spectralDNS.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/spectralDNS.cpp b/cpp/spectralDNS.cpp
index be72c6c..907c871 100644
--- a/cpp/spectralDNS.cpp
+++ b/cpp/spectralDNS.cpp
@@ -268,6 +268,17 @@ int main( int argc, char *argv[] )
             W_hat[z] = W_hat1[z];
         }
 
+    // Velocity at the end of the time step, used by the first stage of the next
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(U_hat1.data()), U.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(V_hat1.data()), V.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(W_hat1.data()), W.data());
+    for (int k=0; k<U.size(); k++)
+    {
+      U[k] /= tot;
+      V[k] /= tot;
+      W[k] /= tot;
+    }
+
     if (tstep % 2 == 0)
     {
         s_in[0] = 0.0;
-- 
2.43.0


From 976264d671b55971f4c796faec1f6dddf44a5493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 24/36] fix: asking for the convection does not change the next
 time step

---
 spectralDNS/solvers/Coupled.py | 3 ++-
 spectralDNS/solvers/KMM.py     | 3 ++-
 spectralDNS/solvers/KMMr.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/Coupled.py b/spectralDNS/solvers/Coupled.py
index d968b25..1d09421 100644
--- a/spectralDNS/solvers/Coupled.py
+++ b/spectralDNS/solvers/Coupled.py
@@ -151,7 +151,8 @@ def set_velocity(U_hat, U, **context):
 def get_convection(H_hat, U_hat, K, VFSp, VCp, FSTp, FCTp, work, u_dealias, curl_dealias, curl_hat, mat, la, **context):
     """Compute convection from context"""
     conv_ = getConvection(params.convection)
-    H_hat = conv_(H_hat, U_hat, K, VFSp, VCp, FSTp, FCTp, work, u_dealias, curl_dealias, curl_hat, mat, la)
+    # H_hat itself belongs to the time stepping
+    H_hat = conv_(Function(H_hat.function_space()), U_hat, K, VFSp, VCp, FSTp, FCTp, work, u_dealias, curl_dealias, curl_hat, mat, la)
     return H_hat
 
 def get_divergence(U_hat, FST, mask, **context):
diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 54e52b2..f2295a2 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -172,7 +172,8 @@ def get_curl(curl, U_hat, g, K, FCTp, FSTp, FSBp, work, **context):
 def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias, **context):
     """Compute convection from context"""
     conv_ = getConvection(params.convection)
-    H_hat = conv_(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
+    # H_hat itself belongs to the time stepping
+    H_hat = conv_(Function(H_hat.function_space()), U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
     return H_hat
 
 def get_pressure(context, solver):
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 6faf057..db2453c 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -173,7 +173,8 @@ def get_curl(curl, U_hat, g, work, FCTp, FSTp, FSBp, Kx, **context):
 def get_convection(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias, **context):
     """Compute convection from context"""
     conv_ = getConvection(params.convection)
-    H_hat = conv_(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
+    # H_hat itself belongs to the time stepping
+    H_hat = conv_(Function(H_hat.function_space()), U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
     return H_hat
 
 def get_pressure(context, solver):
-- 
2.43.0


From 32c606f01e40439c00e4bea859fa2e91eb9377ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:06 +0000
Subject: [PATCH 25/36] fix: profile entries only match functions of exactly
 that name

A compiled function in a module with, e.g., '.fftw' in its path was
reported as 'fft'.
---
 spectralDNS/utilities/create_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/utilities/create_profile.py b/spectralDNS/utilities/create_profile.py
index a9b7b99..058d723 100644
--- a/spectralDNS/utilities/create_profile.py
+++ b/spectralDNS/utilities/create_profile.py
@@ -57,7 +57,7 @@ def create_profile(profiler):
                  'solve_linear',
                  'Conv']:
         for key, val in ps.stats.items():
-            if item is key[2] or "method '%s'"%item in key[2] or ".%s"%item in key[2]:
+            if item is key[2] or "method '%s'"%item in key[2] or key[2].endswith(".%s>"%item):
                 results[item] = (comm.reduce(val[2], op=MPI.MIN, root=0),
                                  comm.reduce(val[2], op=MPI.MAX, root=0),
                                  comm.reduce(val[3], op=MPI.MIN, root=0),
-- 
2.43.0


From 4127742aa44e43a7cc16edb8afe091a157b49936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:06 +0000
Subject: [PATCH 26/36] fix: profiling does not hang when processes called
 different functions

The reductions were only entered by processes that had called a function.
---
 spectralDNS/utilities/create_profile.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/utilities/create_profile.py b/spectralDNS/utilities/create_profile.py
index 058d723..c1d7093 100644
--- a/spectralDNS/utilities/create_profile.py
+++ b/spectralDNS/utilities/create_profile.py
@@ -56,14 +56,17 @@ def create_profile(profiler):
                  'ComputeRHS',
                  'solve_linear',
                  'Conv']:
+        found = None
         for key, val in ps.stats.items():
             if item is key[2] or "method '%s'"%item in key[2] or key[2].endswith(".%s>"%item):
-                results[item] = (comm.reduce(val[2], op=MPI.MIN, root=0),
-                                 comm.reduce(val[2], op=MPI.MAX, root=0),
-                                 comm.reduce(val[3], op=MPI.MIN, root=0),
-                                 comm.reduce(val[3], op=MPI.MAX, root=0))
+                found = val[2:4]
                 del ps.stats[key]
                 break
+        # Some processes may not have called the function
+        found = [val for val in comm.allgather(found) if val is not None]
+        if found:
+            total, cum = zip(*found)
+            results[item] = (min(total), max(total), min(cum), max(cum))
 
     if rank == 0:
         print("Printing profiling for total min/max cumulative min/max:")
-- 
2.43.0


From 87fa43a2ee754423855f7026eb3076da497ea6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 27/36] fix: isotropic demo computes its initial velocity from
 the spectrum it generated, for every solver

---
 demo/Isotropic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index ec2ecb8..32cbc41 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -53,7 +53,7 @@ def initialize(solver, context):
     c.mask = c.T.get_mask_nyquist()
     c.T.mask_nyquist(c.U_hat, c.mask)
 
-    solver.get_velocity(**c)
+    c.U = c.U_hat.backward(c.U)
     U_hat = solver.set_velocity(**c)
 
     K = c.K
-- 
2.43.0


From 19bb33b2fd56a2e1e4e7b2173790326ac785a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 28/36] fix: isotropic demo counts modes correctly in its
 spectrum when the last axis is distributed

---
 demo/Isotropic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index 32cbc41..98bf2f1 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -87,10 +87,12 @@ def L2_norm(comm, u):
 
 def spectrum(solver, context):
     c = context
-    uiui = np.zeros(c.U_hat[0].shape)
-    uiui[..., 1:-1] = 2*np.sum((c.U_hat[..., 1:-1]*np.conj(c.U_hat[..., 1:-1])).real, axis=0)
-    uiui[..., 0] = np.sum((c.U_hat[..., 0]*np.conj(c.U_hat[..., 0])).real, axis=0)
-    uiui[..., -1] = np.sum((c.U_hat[..., -1]*np.conj(c.U_hat[..., -1])).real, axis=0)
+    uiui = np.sum((c.U_hat*np.conj(c.U_hat)).real, axis=0)
+    # All modes of the last axis count twice, except from the first and last.
+    # Note that the last axis may be distributed
+    sl = c.T.local_slice(True)[-1]
+    kz = np.arange(sl.start, sl.stop)
+    uiui *= np.where((kz == 0) | (kz == config.params.N[-1]//2), 1, 2)
     uiui *= (4./3.*np.pi)
 
     # Create bins for Ek
-- 
2.43.0


From e03b84a6160bfc734171a1bd64ab91f2f610ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 29/36] fix: isotropic demo opens its existing spectrum file
 for writing

---
 demo/Isotropic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index 98bf2f1..f4e62da 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -215,7 +215,7 @@ def update(context):
 
     if params.tstep % params.compute_spectrum == 0:
         Ek, _, _, _, _ = spectrum(solver, context)
-        f = h5py.File(context.spectrumname, driver='mpio', comm=solver.comm)
+        f = h5py.File(context.spectrumname, mode='r+', driver='mpio', comm=solver.comm)
         f['Turbulence/Ek'].create_dataset(str(params.tstep), data=Ek)
         f.close()
 
-- 
2.43.0


From c67e57cf1fcf606cd5ecedbea0d13edd241099de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 30/36] fix: channel demo restarts with the convection and the
 state of the interrupted run

---
 demo/MKM.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demo/MKM.py b/demo/MKM.py
index deae01d..2902dbf 100644
--- a/demo/MKM.py
+++ b/demo/MKM.py
@@ -268,12 +268,13 @@ def init_from_file(filename, solver, context):
         U_hat[:] = f["U/3D/1"][su]
 
         # Set g, which is used in computing convection
-        #context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
-        context.U_hat0[:] = U_hat
+        context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
         context.H_hat1[:] = solver.get_convection(**context)
 
     # current timestep
     U_hat[:] = f["U/3D/0"][su]
+    if 'RK3' not in config.params.solver:
+        context.U_hat0[:] = U_hat
     if hasattr(context, 'g'):
         context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
     f.close()
-- 
2.43.0


From 8f0e30d063c364848d1b926d307480df97923cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 31/36] fix: Rayleigh-Benard demo has its fields up to date
 when it samples statistics

---
 demo/RayleighBenard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index d8e8587..09c897d 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -37,7 +37,7 @@ def update(context):
     solver = config.solver
     X, U, phi = c.X, c.U, c.phi
 
-    if (params.tstep % params.compute_energy == 0 or params.tstep % params.sample_stats or
+    if (params.tstep % params.compute_energy == 0 or params.tstep % params.sample_stats == 0 or
             params.tstep % params.plot_result == 0 and params.plot_result > 0):
         U = solver.get_velocity(**c)
         phi = c.phi_hat.backward(c.phi)
-- 
2.43.0


From a4415ef41d7d2f5f54a3f884496f11f8c06bc04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 32/36] fix: Rayleigh-Benard demo restarts with the
 temperature, state and time of the interrupted run

---
 demo/RayleighBenard.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index 09c897d..9e6bc25 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -194,19 +194,21 @@ def init_from_file(filename, solver, context):
 
         # Set g, which is used in computing convection
         context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
-        context.U_hat0[:] = U_hat
         context.H_hat1[:] = solver.get_convection(**context)
-        context.phi_hat0[:] = f["phi/3D/1"][sp]
+        context.phi_hat1[:] = f["phi/3D/1"][sp]
 
     # current timestep
     U_hat[:] = f["U/3D/0"][su]
     phi_hat[:] = f["phi/3D/0"][sp]
+    if not 'RK3' in config.params.solver:
+        context.U_hat0[:] = U_hat
+        context.phi_hat0[:] = phi_hat
     context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
     context.hdf5file.filename = filename
     if 'tstep' in f.attrs:
         config.params.tstep = f.attrs['tstep']
     if 't' in f.attrs:
-        config.params.tstep = f.attrs['t']
+        config.params.t = f.attrs['t']
     f.close()
 
 if __name__ == "__main__":
-- 
2.43.0


From bb9c6ed734802abb917df22386265e53ce2661d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 33/36] fix: vortices demo plots at the end on one process only

---
 demo/Vortices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demo/Vortices.py b/demo/Vortices.py
index f05a758..42bb523 100644
--- a/demo/Vortices.py
+++ b/demo/Vortices.py
@@ -66,8 +66,9 @@ def regression_test(context):
     global im
     solver = config.solver
     U = solver.get_velocity(**context)
-    im.set_UVC(U[1, :, :, 0], U[2, :, :, 0])
-    plt.pause(1e-6)
+    if solver.rank == 0:
+        im.set_UVC(U[1, :, :, 0], U[2, :, :, 0])
+        plt.pause(1e-6)
 
 if __name__ == "__main__":
     config.update(
-- 
2.43.0


From db654939af4a6b062c09295560239546ad6bd520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 34/36] fix: laminar channel demo compares all of its points on
 several processes

---
 demo/LaminarChannel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/demo/LaminarChannel.py b/demo/LaminarChannel.py
index 0ec6e39..5ab43b5 100644
--- a/demo/LaminarChannel.py
+++ b/demo/LaminarChannel.py
@@ -71,14 +71,17 @@ def update(context):
 
     if params.tstep % params.compute_energy == 0:
         u0 = U[1, :, 0, 0].copy()
-        uall = None
+        x0 = context.X[0][:, 0, 0].copy()
+        uall, xall = None, None
         if solver.rank == 0:
             uall = np.zeros((solver.num_processes, params.N[0]//solver.num_processes))
+            xall = np.zeros_like(uall)
         solver.comm.Gather(u0, uall, root=0)
+        solver.comm.Gather(x0, xall, root=0)
 
         if solver.rank == 0:
             uall = uall.reshape((params.N[0],))
-            x0 = context.X[0][:, 0, 0]
+            x0 = xall.reshape((params.N[0],))
             #x = x0
             #pc = zeros(len(x))
             #pc = ST.fct(uall, pc)  # Cheb transform of result
@@ -94,14 +97,17 @@ def regression_test(context):
     solver = config.solver
     U = solver.get_velocity(**context)
     u0 = U[1, :, 0, 0].copy()
-    uall = None
+    x0 = context.X[0][:, 0, 0].copy()
+    uall, xall = None, None
     if solver.rank == 0:
         uall = np.zeros((solver.num_processes, params.N[0]//solver.num_processes))
+        xall = np.zeros_like(uall)
 
     solver.comm.Gather(u0, uall, root=0)
+    solver.comm.Gather(x0, xall, root=0)
     if solver.rank == 0:
         uall = uall.reshape((params.N[0],))
-        x0 = context.X[0][:, 0, 0]
+        x0 = xall.reshape((params.N[0],))
         #x = x0
         #pc = zeros(len(x))
         #pc = ST.fct(uall, pc)  # Cheb transform of result
-- 
2.43.0


From 3554ed0f0c597a7e54b88273c637c7b637b01113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 35/36] fix: the profile of a run does not contain an earlier
 run

---
 spectralDNS/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectralDNS/__init__.py b/spectralDNS/__init__.py
index 210ded7..2495352 100644
--- a/spectralDNS/__init__.py
+++ b/spectralDNS/__init__.py
@@ -91,6 +91,10 @@ def solve(solver, context):
 
     dt_in = params.dt
 
+    if params.make_profile:
+        # Forget what was profiled in a previous call
+        solver.profiler.clear()
+
     while params.t + params.dt <= params.T+1e-12:
 
         u, params.dt, dt_took = integrate()
-- 
2.43.0


From bdfbe802b30826cee5729d2f33a69854475e073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 36/36] fix: option h5filename names the files of the run

---
 spectralDNS/config.py             | 4 ++--
 spectralDNS/solvers/Bq2D.py       | 2 +-
 spectralDNS/solvers/Coupled.py    | 2 +-
 spectralDNS/solvers/CoupledRK3.py | 2 +-
 spectralDNS/solvers/KMM.py        | 2 +-
 spectralDNS/solvers/KMMRK3_RB.py  | 2 +-
 spectralDNS/solvers/KMM_RB.py     | 2 +-
 spectralDNS/solvers/KMMr.py       | 2 +-
 spectralDNS/solvers/MHD.py        | 2 +-
 spectralDNS/solvers/NS.py         | 2 +-
 spectralDNS/solvers/VV.py         | 2 +-
 11 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 8ca6cab..36f8c82 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -200,8 +200,8 @@ parser.add_argument('--threads', default=1, type=int,
                     help='Number of threads used for FFTs')
 parser.add_argument('--planner_effort', action=PlanAction, default=fft_plans,
                     help="""Planning effort for FFTs. Usage, e.g., --planner_effort '{"dct":"FFTW_EXHAUSTIVE"}' """)
-parser.add_argument('--h5filename', default='results', type=str,
-                    help='Filename of HDF5 datafile used to store intermediate checkpoint data or timeseries results')
+parser.add_argument('--h5filename', default=None, type=str,
+                    help='Filename of HDF5 datafile used to store intermediate checkpoint data or timeseries results. Default is the name of the solver')
 parser.add_argument('--verbose', dest='verbose', action='store_true', help='Print timings in the end')
 parser.add_argument('--no-verbose', dest='verbose', action='store_false', help='Do not print timings in the end')
 parser.set_defaults(verbose=True)
diff --git a/spectralDNS/solvers/Bq2D.py b/spectralDNS/solvers/Bq2D.py
index a8526c1..d28c63b 100644
--- a/spectralDNS/solvers/Bq2D.py
+++ b/spectralDNS/solvers/Bq2D.py
@@ -69,7 +69,7 @@ def get_context():
     dU = Function(VM)
     work = work_arrays()
 
-    hdf5file = BqFile(config.params.solver,
+    hdf5file = BqFile(config.params.h5filename or config.params.solver,
                       checkpoint={'space': VM,
                                   'data': {'0': {'Ur': [Ur_hat]}}},
                       results={'space': VM,
diff --git a/spectralDNS/solvers/Coupled.py b/spectralDNS/solvers/Coupled.py
index 1d09421..b3876b5 100644
--- a/spectralDNS/solvers/Coupled.py
+++ b/spectralDNS/solvers/Coupled.py
@@ -112,7 +112,7 @@ def get_context():
 
     la = None
 
-    hdf5file = CoupledFile(config.params.solver,
+    hdf5file = CoupledFile(config.params.h5filename or config.params.solver,
                         checkpoint={'space': VQ,
                                     'data': {'0': {'UP': [UP_hat]},
                                              '1': {'UP': [UP_hat0]}}},
diff --git a/spectralDNS/solvers/CoupledRK3.py b/spectralDNS/solvers/CoupledRK3.py
index 4af0c93..9b65aa4 100644
--- a/spectralDNS/solvers/CoupledRK3.py
+++ b/spectralDNS/solvers/CoupledRK3.py
@@ -120,7 +120,7 @@ def get_context():
 
     la = None
 
-    hdf5file = CoupledRK3File(config.params.solver,
+    hdf5file = CoupledRK3File(config.params.h5filename or config.params.solver,
                         checkpoint={'space': VQ,
                                     'data': {'0': {'UP': [UP_hat]}}},
                         results={'space': VFS,
diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index f2295a2..beda51e 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -128,7 +128,7 @@ def get_context():
              HelmholtzSolverU0=Helmholtz(mat.ADD0, mat.BDD0, np.array([-1.]), np.array([2./nu/dt])),
              TDMASolverD=TDMA(inner_product((ST, 0), (ST, 0)))))
 
-    hdf5file = KMMFile(config.params.solver,
+    hdf5file = KMMFile(config.params.h5filename or config.params.solver,
                        checkpoint={'space': VFS,
                                    'data': {'0': {'U': [U_hat]},
                                             '1': {'U': [U_hat0]}}},
diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index a383730..2236034 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -41,7 +41,7 @@ def get_context():
                                        (c.K2[0]+2.0/kappa/(c.a[rk]+c.b[rk])/dt)[np.newaxis, :, :]) for rk in range(3)]
     c.TC = [HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt/(c.a[rk]+c.b[rk])-c.K2), 0, c.ST.quad) for rk in range(3)]
 
-    c.hdf5file = RBFile(config.params.solver,
+    c.hdf5file = RBFile(config.params.h5filename or config.params.solver,
                         checkpoint={'space': c.VFS,
                                     'data': {'0': {'U': [c.U_hat], 'phi': [c.phi_hat]}}},
                         results={'space': c.VFS,
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index b35cc42..61b25fd 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -47,7 +47,7 @@ def get_context():
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
     c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, RB.quad)
 
-    c.hdf5file = RBFile(config.params.solver,
+    c.hdf5file = RBFile(config.params.h5filename or config.params.solver,
                         checkpoint={'space': c.VFS,
                                     'data': {'0': {'U': [c.U_hat], 'phi': [c.phi_hat]},
                                              '1': {'U': [c.U_hat0], 'phi': [c.phi_hat0]}}},
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index db2453c..fde163f 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -129,7 +129,7 @@ def get_context():
              HelmholtzSolverU0=Helmholtz(mat.ADD0, mat.BDD0, np.array([-1.]), np.array([2./nu/dt])),
              TDMASolverD=TDMA(inner_product((ST, 0), (ST, 0)))))
 
-    hdf5file = KMMFile(config.params.solver,
+    hdf5file = KMMFile(config.params.h5filename or config.params.solver,
                        checkpoint={'space': VFS,
                                    'data': {'0': {'U': [U_hat]},
                                             '1': {'U': [U_hat0]}}},
diff --git a/spectralDNS/solvers/MHD.py b/spectralDNS/solvers/MHD.py
index 41751e0..dd1afa7 100644
--- a/spectralDNS/solvers/MHD.py
+++ b/spectralDNS/solvers/MHD.py
@@ -68,7 +68,7 @@ def get_context():
     # Primary variable
     u = UB_hat
 
-    hdf5file = MHDFile(config.params.solver,
+    hdf5file = MHDFile(config.params.h5filename or config.params.solver,
                        checkpoint={'space': VM,
                                    'data': {'0': {'UB': [UB_hat]}}},
                        results={'space': VM,
diff --git a/spectralDNS/solvers/NS.py b/spectralDNS/solvers/NS.py
index 6a11909..360a0bb 100644
--- a/spectralDNS/solvers/NS.py
+++ b/spectralDNS/solvers/NS.py
@@ -63,7 +63,7 @@ def get_context():
     Source = Function(VT) # Possible source term initialized to zero
     work = work_arrays()
 
-    hdf5file = NSFile(config.params.solver,
+    hdf5file = NSFile(config.params.h5filename or config.params.solver,
                       checkpoint={'space': VT,
                                   'data': {'0': {'U': [U_hat]}}},
                       results={'space': VT,
diff --git a/spectralDNS/solvers/VV.py b/spectralDNS/solvers/VV.py
index df96576..7fb438e 100644
--- a/spectralDNS/solvers/VV.py
+++ b/spectralDNS/solvers/VV.py
@@ -29,7 +29,7 @@ def get_context():
 
     # Primary variable
     c.u = c.W_hat
-    c.hdf5file = VVFile(config.params.solver,
+    c.hdf5file = VVFile(config.params.h5filename or config.params.solver,
                         checkpoint={'space': c.VT,
                                     'data': {'0': {'curl': [c.W_hat]}}},
                         results={'space': c.VT,
-- 
2.43.0

