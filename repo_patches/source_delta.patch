From 4ae7ee28211fcab844da7dd624c390fcfb569fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:33 +0000
Subject: [PATCH 01/18] fix: start multistep integrators at the first step also
 when tstep is nonzero

AB2 and the FSAL BS5 methods used params.tstep == 0 to detect the first step.
With a nonzero initial step counter (a restart, or a second call to solve) AB2
combined the right hand side with a copy of the solution, and BS5 used a zero
first stage.
---
 spectralDNS/maths/integrators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 3f97ce5..d0ee215 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -180,6 +180,10 @@ def getintegrator(rhs, u0, solver, context):
     params = solver.params
     u1 = u0.copy()
 
+    # Methods using history from previous steps must be started at the first
+    # step taken here, also if the step counter starts from a nonzero value
+    tstep0 = params.tstep
+
     if params.integrator == "RK4":
         # RK4 parameters
         a = np.array([1./6., 1./3., 1./3., 1./6.], dtype=context.float)
@@ -222,8 +226,8 @@ def getintegrator(rhs, u0, solver, context):
         def func():
             return adaptiveRK(A, b, bhat, err_order, fY_hat, u1, sc, err, fsal,
                               offset, params.TOL, params.TOL, adaptive, errnorm,
-                              rhs, u0, solver, params.dt, params.tstep, context,
-                              solver.additional_callback, params)
+                              rhs, u0, solver, params.dt, params.tstep-tstep0,
+                              context, solver.additional_callback, params)
         return func
 
     elif params.integrator == "ForwardEuler":
@@ -235,5 +239,5 @@ def getintegrator(rhs, u0, solver, context):
     elif params.integrator == "AB2":
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, params.tstep, solver, context)
+            return AB2(u0, u1, rhs, params.dt, params.tstep-tstep0, solver, context)
         return func
-- 
2.43.0


From c263d76e90cf1114fdb6467cdcd4ce0c6be1d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:33 +0000
Subject: [PATCH 02/18] fix: normalise the error norm of adaptive integrators
 by the global shape

The sum over all processors was divided by the local number of coefficients, so
the step size depended on the number of processors used.
---
 spectralDNS/maths/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index d0ee215..ae09e3e 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -93,7 +93,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             if comm.Get_rank() == 0:
                 est_to_bcast = np.zeros(1)
                 est = np.max(np.sqrt(nsquared))
-                est /= np.sqrt(np.array(context.T.shape(True)).prod())
+                est /= np.sqrt(np.array(context.T.global_shape(True)).prod())
                 est_to_bcast[0] = est
             est_to_bcast = comm.bcast(est_to_bcast, root=0)
             est = est_to_bcast[0]
@@ -108,7 +108,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             x = np.zeros(asdf.shape)
             comm.Allreduce(asdf, x, op=MPI.MAX)
             est = np.abs(np.max(x))
-            est /= np.sqrt(np.array(context.T.shape(True)).prod())
+            est /= np.sqrt(np.array(context.T.global_shape(True)).prod())
         else:
             assert False, "Wrong error norm"
 
-- 
2.43.0


From 98daa19d4633e016177a2550ebb9b78812894e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:07 +0000
Subject: [PATCH 03/18] fix: restart AB2 when the time step size has changed

The history stored by AB2 is scaled by the previous dt. When end_of_tstep
shortens the last step to hit T the two-step formula was inconsistent and
advanced the solution by 1.5*dt-0.5*dt_prev instead of dt.
---
 spectralDNS/maths/integrators.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index ae09e3e..3f760b5 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -237,7 +237,15 @@ def getintegrator(rhs, u0, solver, context):
         return func
 
     elif params.integrator == "AB2":
+        dt_prev = [None]
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, params.tstep-tstep0, solver, context)
+            # The two-step formula requires equal step sizes. Restart with
+            # ForwardEuler if dt has changed (e.g., for a last step to hit T)
+            dt = params.dt
+            tstep = params.tstep-tstep0
+            if dt_prev[0] is None or abs(dt-dt_prev[0]) > 1e-6*dt:
+                tstep = 0
+            dt_prev[0] = dt
+            return AB2(u0, u1, rhs, dt, tstep, solver, context)
         return func
-- 
2.43.0


From 9a73cb2724520934e215434990590975400720e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 04/18] fix: closing the output files of a run that took no
 steps

---
 spectralDNS/h5io/HDF5File.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index cf7de8d..360a58c 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -99,9 +99,9 @@ class HDF5File(object):
         self.wfile.open()
 
     def close(self):
-        if self.cfile.f:
+        if self.cfile is not None and self.cfile.f:
             self.cfile.close()
-        if self.wfile.f:
+        if self.wfile is not None and self.wfile.f:
             self.wfile.close()
 
     @staticmethod
-- 
2.43.0


From f8f7ff996fde3e49e9ef1c12b31746316a6e1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:42 +0000
Subject: [PATCH 05/18] fix: let config.update reach parameters declared by the
 parser of a solver

---
 spectralDNS/config.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index ff1771f..f8d9f57 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -312,3 +312,12 @@ def update(new, mesh="triplyperiodic"):
         fft_plans.update(new['planner_effort'])
         new['planner_effort'] = fft_plans
     globals()[mesh].set_defaults(**new)
+
+    # Parameters declared by the parser of a solver are not influenced by the
+    # defaults of the mesh's parser
+    subparsers = {'triplyperiodic': trippelsubparsers,
+                  'doublyperiodic': doublesubparsers,
+                  'channel': channelsubparsers}[mesh]
+    for p in subparsers.choices.values():
+        p.set_defaults(**{key: val for key, val in new.items()
+                          if p.get_default(key) is not None})
-- 
2.43.0


From 5fd78837258f25a95de2fe5bd1e19cc3c2d223a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:31 +0000
Subject: [PATCH 06/18] fix: reject unknown convection forms for doubly
 periodic solvers

---
 spectralDNS/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index f8d9f57..ed7f549 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -246,7 +246,7 @@ doublyperiodic.add_argument('--integrator', default='RK4',
 doublyperiodic.add_argument('--L', default=[2*pi, 2*pi], nargs=2, metavar=('Lx', 'Ly'),
                             help='Physical mesh size')
 doublyperiodic.add_argument('--convection', default='Vortex',
-                            choices=('Vortex'),
+                            choices=('Vortex',),
                             help='Choose method for computing the nonlinear convective term')
 doublyperiodic.add_argument('--TOL', type=float, default=1e-6,
                             help='Tolerance for adaptive time integrator')
-- 
2.43.0


From 973482767db0d7acd1988866c0d34e360ef7bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 07/18] fix: keep time and step of an existing checkpoint when
 appending to it

---
 spectralDNS/h5io/HDF5File.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index 360a58c..a7f658e 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -67,8 +67,9 @@ class HDF5File(object):
                                      self.checkpoint['space'],
                                      mode=params.filemode)
             self.cfile.open()
-            self.cfile.f.attrs.create('tstep', 0)
-            self.cfile.f.attrs.create('t', 0.0)
+            if 'tstep' not in self.cfile.f.attrs:
+                self.cfile.f.attrs.create('tstep', 0)
+                self.cfile.f.attrs.create('t', 0.0)
             self.cfile.close()
         if self.wfile is None:
             self.wfile = ShenfunFile(self.filename+'_w',
-- 
2.43.0


From 4a48a9ff406bce41fd063eaa1cf5ebac5981f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:24 +0000
Subject: [PATCH 08/18] fix: solve for the temperature in the Rayleigh-Benard
 solvers

Helmholtz takes the right-hand side first and the solution second; with the
arguments swapped the temperature was never advanced.
---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0721c49..5ef6458 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -79,7 +79,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, rk, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, rk, context):
     u_hat, g_hat = KMMRK3_solve_linear(u_hat, g_hat, rhs, rk, **context)
-    p_hat = context.la.HelmholtzSolverT[rk](p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT[rk](rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index d6d7c30..0d52600 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -94,7 +94,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, context):
     u_hat, g_hat = KMM_solve_linear(u_hat, g_hat, rhs, **context)
-    p_hat = context.la.HelmholtzSolverT(p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT(rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-- 
2.43.0


From c0934fd922edea495882c9a6aef26ffbd2d70097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:24 +0000
Subject: [PATCH 09/18] fix: use the selected quadrature for the temperature of
 the Rayleigh-Benard solvers

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 5ef6458..0bd4294 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -15,7 +15,7 @@ KMMRK3_solve_linear = solve_linear
 def get_context():
     c = KMMRK3_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 0d52600..79fd3e6 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -15,7 +15,7 @@ KMM_solve_linear = solve_linear
 def get_context():
     c = KMM_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
@@ -43,7 +43,7 @@ def get_context():
     c.la.HelmholtzSolverT = Helmholtz(ADD, BDD,
                                       -np.ones((1, 1, 1)),
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
-    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0)
+    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, c.ST.quad)
 
     c.hdf5file = RBFile(config.params.solver,
                         checkpoint={'space': c.VFS,
-- 
2.43.0


From 78805cab72e175cb6124a30758693e5863e50c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:24 +0000
Subject: [PATCH 10/18] fix: do not overwrite the input of the mass matrix in
 KMMRK3_RB

StandardRBConvection is called with N_hat as output, so N_hat was both input and
output of matvec, which gave zero advection of the temperature.
---
 spectralDNS/solvers/KMMRK3_RB.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0bd4294..c169c94 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -114,8 +114,8 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
     dTdxi[2] = FSTp.backward(1j*K[2]*p_hat, dTdxi[2])
     N[:] = Ua[0]*dTdxi[0] + Ua[1]*dTdxi[1] + Ua[2]*dTdxi[2]
-    N_hat = FSTp.forward(N, N_hat)
-    rhs = mat.BDD.matvec(N_hat, rhs)
+    N_s = FSTp.forward(N, N_s)
+    rhs = mat.BDD.matvec(N_s, rhs)
     return rhs
 
 def integrate(u_hat, g_hat, p_hat, rhs, dt, solver, context):
-- 
2.43.0


From c1fce823e3860708ba047f97884c95d8da493c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:24 +0000
Subject: [PATCH 11/18] fix: sign of the boundary part of the wall normal
 temperature gradient

The last two coefficients are the left and right boundary values.
---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index c169c94..5dcf9d1 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -108,7 +108,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(Ua[0], 0, True)]
     Ua = VFSp.backward(u_hat, Ua)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 79fd3e6..61360d5 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -143,7 +143,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(UCN[0], 0, True)]
     UCN = VFSp.backward(U_hat0, UCN)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
-- 
2.43.0


From 4f35ab27edeb29ef5024ec9bb58ac6937d8793bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 12/18] fix: keep the wall normal momentum flux of KMM in the
 space it is transformed to

---
 spectralDNS/solvers/KMM.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index bb958b0..202b67d 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -326,15 +326,17 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = Function(VFSp, buffer=work[(rhs, 0, True)])
-    F_tmp2 = Function(VFSp, buffer=work[(rhs, 1, True)])
+    # All products, and their derivatives, are here in the Dirichlet space
+    VFSTp = VectorSpace([FSTp, FSTp, FSTp])
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
     F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
 
-    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSp, output_array=F_tmp2)
+    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSTp, output_array=F_tmp2)
     rhs += F_tmp2
 
     F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-- 
2.43.0


From 608fe6c05030de443ece8b4275f3afaa1c2863f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:56 +0000
Subject: [PATCH 13/18] fix: convection forms of KMMr for its wall normal
 direction

---
 spectralDNS/solvers/KMMr.py | 75 +++++++++++++++----------------------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index a38d0ae..d4da36c 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -14,6 +14,7 @@ from shenfun.chebyshev.la import Helmholtz, Biharmonic
 from .spectralinit import *
 from ..shen.Matrices import BiharmonicCoeff, HelmholtzCoeff
 from ..shen import LUsolve
+from shenfun import project
 
 def get_context():
     """Set up context for solver"""
@@ -284,34 +285,26 @@ def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
                        mat, la):
     rhs[:] = 0
     U = u_dealias
-    Uc = work[(U, 1, True)]
     Uc2 = work[(U, 2, True)]
-    F_tmp = work[(rhs, 0, True)]
 
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(u_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    dudx = Uc[0] = FSTp.backward(F_tmp[0], Uc[0])
+    # dwdz = 0 on walls from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    dudz = project(Dx(u_hat[0], 2, 1), FCTp).backward()
+    dvdz = project(Dx(u_hat[1], 2, 1), FCTp).backward()
+    dwdz = project(Dx(u_hat[2], 2, 1), FSTp).backward()
 
-    LUsolve.Mult_CTD_3D_n(params.N[0], u_hat[1], u_hat[2], F_tmp[1], F_tmp[2])
-    dvdx = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
-    dwdx = Uc[2] = FCTp.backward(F_tmp[2], Uc[2])
-
-    dudy = Uc2[0] = FSBp.backward(1j*K[1]*u_hat[0], Uc2[0])
-    dudz = Uc2[1] = FSBp.backward(1j*K[2]*u_hat[0], Uc2[1])
+    dudx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[0], Uc2[0])
+    dudy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[0], Uc2[1])
     rhs[0] = FSTp.forward(U[0]*dudx + U[1]*dudy + U[2]*dudz, rhs[0])
 
     Uc2[:] = 0
-    dvdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[0])
-
-    dvdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[1], Uc2[1])
+    dvdx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[1], Uc2[0])
+    dvdy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[1])
     rhs[1] = FSTp.forward(U[0]*dvdx + U[1]*dvdy + U[2]*dvdz, rhs[1])
 
     Uc2[:] = 0
-    dwdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[2], Uc2[0])
-    dwdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[2], Uc2[1])
-
+    dwdx = Uc2[0] = FSBp.backward(1j*K[0]*u_hat[2], Uc2[0])
+    dwdy = Uc2[1] = FSBp.backward(1j*K[1]*u_hat[2], Uc2[1])
     rhs[2] = FSTp.forward(U[0]*dwdx + U[1]*dwdy + U[2]*dwdz, rhs[2])
 
     return rhs
@@ -321,36 +314,28 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = work[(rhs, 0, True)]
-    F_tmp2 = work[(rhs, 1, True)]
+    # All products, and their derivatives, are here in the Dirichlet space
+    VFSTp = VectorSpace([FSTp, FSTp, FSTp])
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
-    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
-    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
-    F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
-
-    F_tmp2[0] = mat.CDD.matvec(F_tmp[0], F_tmp2[0])
-    F_tmp2[1] = mat.CDD.matvec(F_tmp[1], F_tmp2[1])
-    F_tmp2[2] = mat.CDD.matvec(F_tmp[2], F_tmp2[2])
-    F_tmp2[0] = la.TDMASolverD(F_tmp2[0])
-    F_tmp2[1] = la.TDMASolverD(F_tmp2[1])
-    F_tmp2[2] = la.TDMASolverD(F_tmp2[2])
-    rhs[0] += F_tmp2[0]
-    rhs[1] += F_tmp2[1]
-    rhs[2] += F_tmp2[2]
-
-    F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-    F_tmp2[1] = FSTp.forward(U[0]*U[2], F_tmp2[1])
-    rhs[0] += 1j*K[1]*F_tmp2[0] # duvdy
-    rhs[0] += 1j*K[2]*F_tmp2[1] # duwdz
-
-    F_tmp[0] = FSTp.forward(U[1]*U[1], F_tmp[0])
-    F_tmp[1] = FSTp.forward(U[1]*U[2], F_tmp[1])
+    F_tmp[0] = FSTp.forward(U[2]*U[0], F_tmp[0])
+    F_tmp[1] = FSTp.forward(U[2]*U[1], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[2]*U[2], F_tmp[2])
-    rhs[1] += 1j*K[1]*F_tmp[0]  # dvvdy
-    rhs[1] += 1j*K[2]*F_tmp[1]  # dvwdz
+
+    F_tmp2 = project(Dx(F_tmp, 2, 1), VFSTp, output_array=F_tmp2)
+    rhs += F_tmp2
+    rhs[2] += 1j*K[0]*F_tmp[0]  # duwdx
     rhs[2] += 1j*K[1]*F_tmp[1]  # dvwdy
-    rhs[2] += 1j*K[2]*F_tmp[2]  # dwwdz
+
+    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
+    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
+    F_tmp[2] = FSTp.forward(U[1]*U[1], F_tmp[2])
+    rhs[0] += 1j*K[0]*F_tmp[0]  # duudx
+    rhs[0] += 1j*K[1]*F_tmp[1]  # duvdy
+    rhs[1] += 1j*K[0]*F_tmp[1]  # duvdx
+    rhs[1] += 1j*K[1]*F_tmp[2]  # dvvdy
 
     return rhs
 
-- 
2.43.0


From ae2a7ed501f3066406ac585a2cc14a21571be755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 14/18] fix: velocity derivatives of the KMM and KMMr solvers

---
 spectralDNS/solvers/KMM.py  |  2 +-
 spectralDNS/solvers/KMMr.py | 26 +++++++++++++-------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 202b67d..c9f3601 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -271,7 +271,7 @@ def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
     F_tmp[0] = la.TDMASolverD(F_tmp[0])
     duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2], 0)
     duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
     duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
     duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index d4da36c..aea1428 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -265,20 +265,20 @@ def compute_curl(c, u_hat, g, K, FCTp, FSTp, FSBp, work):
 def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     duidxj = np.zeros((3, 3)+U.shape[1:])
     F_tmp = work[(U_hat, 0, True)]
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
-    duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
-    duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
-    duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-    duidxj[0, 2] = dudz = FSB.backward(1j*K[2]*U_hat[0], duidxj[0, 2])
+    # dwdz = 0 from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    F_tmp[2] = mat.CDB.matvec(U_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    duidxj[2, 2] = dwdz = FST.backward(F_tmp[2], duidxj[2, 2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], U_hat[0], U_hat[1], F_tmp[0], F_tmp[1], 2)
+    duidxj[0, 2] = dudz = FCT.backward(F_tmp[0], duidxj[0, 2])  # proj to Cheb
+    duidxj[1, 2] = dvdz = FCT.backward(F_tmp[1], duidxj[1, 2])  # proj to Cheb
+    duidxj[2, 0] = dwdx = FSB.backward(1j*K[0]*U_hat[2], duidxj[2, 0]) # ShenB
+    duidxj[2, 1] = dwdy = FSB.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
+    duidxj[0, 0] = dudx = FST.backward(1j*K[0]*U_hat[0], duidxj[0, 0])
+    duidxj[0, 1] = dudy = FST.backward(1j*K[1]*U_hat[0], duidxj[0, 1])
+    duidxj[1, 0] = dvdx = FST.backward(1j*K[0]*U_hat[1], duidxj[1, 0])
     duidxj[1, 1] = dvdy = FST.backward(1j*K[1]*U_hat[1], duidxj[1, 1])
-    duidxj[1, 2] = dvdz = FST.backward(1j*K[2]*U_hat[1], duidxj[1, 2])
-    duidxj[2, 1] = dwdy = FST.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
-    duidxj[2, 2] = dwdz = FST.backward(1j*K[2]*U_hat[2], duidxj[2, 2])
     return duidxj
 
 def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
-- 
2.43.0


From 884dd869d545ca093d6f168e01ae08f00e2a3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 15/18] fix: get_curl of the KMM and KMMr solvers

---
 spectralDNS/solvers/KMM.py  | 5 +++--
 spectralDNS/solvers/KMMr.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index c9f3601..c6371db 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -63,6 +63,7 @@ def get_context():
     # Solution variables
     U = Array(VFS)
     U0 = Array(VFS)
+    curl = Array(VFS)
     U_hat = Function(VFS)
     U_hat0 = Function(VFS)
     g = Function(FST)
@@ -164,9 +165,9 @@ def set_velocity(U_hat, U, VFS, **context):
     U_hat = VFS.forward(U, U_hat)
     return U_hat
 
-def get_curl(curl, U_hat, g, K, FCTp, FSTp, FSBp, work, **context):
+def get_curl(curl, U_hat, g, K, FCT, FST, FSB, work, **context):
     """Compute curl from context"""
-    curl = compute_curl(curl, U_hat, g, K, FCTp, FSTp, FSBp, work)
+    curl = compute_curl(curl, U_hat, g, K, FCT, FST, FSB, work)
     return curl
 
 def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias, **context):
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index aea1428..e155fa9 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -61,6 +61,7 @@ def get_context():
     # Solution variables
     U = Array(VFS)
     U0 = Array(VFS)
+    curl = Array(VFS)
     U_hat = Function(VFS)
     U_hat0 = Function(VFS)
     g = Function(FST)
@@ -166,9 +167,9 @@ def set_velocity(U_hat, U, VFS, **context):
     U_hat = VFS.forward(U, U_hat)
     return U_hat
 
-def get_curl(curl, U_hat, g, work, FCTp, FSTp, FSBp, Kx, **context):
+def get_curl(curl, U_hat, g, Kx, FCT, FST, FSB, work, **context):
     """Compute curl from context"""
-    curl = compute_curl(curl, U_hat, g, Kx, FCTp, FSTp, FSBp, work)
+    curl = compute_curl(curl, U_hat, g, Kx, FCT, FST, FSB, work)
     return curl
 
 def get_convection(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias, **context):
-- 
2.43.0


From ba559e691dec5e7ae96ef40b930b18babeceda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 16/18] fix: index of the wavenumbers in the 2D Cython cross
 product

---
 spectralDNS/optimization/cython_maths.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_maths.in b/spectralDNS/optimization/cython_maths.in
index 918fefe..6019d52 100644
--- a/spectralDNS/optimization/cython_maths.in
+++ b/spectralDNS/optimization/cython_maths.in
@@ -138,8 +138,8 @@ def _cross3_2D(np.ndarray[complex_t, ndim=2] c,
 
     for i in xrange(b.shape[1]):
         for j in xrange(b.shape[2]):
-            a0 = kx[i,j]
-            a1 = ky[i,j]
+            a0 = kx[i,0]
+            a1 = ky[0,j]
             b0 = b[0,i,j]
             b1 = b[1,i,j]
             c[i,j].real = -(a0*b1.imag - a1*b0.imag)
-- 
2.43.0


From 1baf16ad061392b16c38c9fc4346aecc5f025032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 17/18] fix: signature of the Cython ForwardEuler integrators

---
 spectralDNS/optimization/cython_integrators.in | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 80ef204..bc602b7 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -52,7 +52,6 @@ def RK4(np.ndarray[complex_t, ndim=4] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler(np.ndarray[complex_t, ndim=4] U_hat,
-                 np.ndarray[complex_t, ndim=4] U_hat0,
                  np.ndarray[complex_t, ndim=4] dU,
                  real_t dt,
                  solver,
@@ -139,7 +138,6 @@ def RK4_2D(np.ndarray[complex_t, ndim=3] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler_2D(np.ndarray[complex_t, ndim=3] U_hat,
-                    np.ndarray[complex_t, ndim=3] U_hat0,
                     np.ndarray[complex_t, ndim=3] dU,
                     real_t dt,
                     solver,
-- 
2.43.0


From 52934c603943b4e6913b2f35203f7342331c64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 18/18] fix: first step of the 2D Cython AB2 integrator

---
 spectralDNS/optimization/cython_integrators.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index bc602b7..94b299e 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -163,7 +163,7 @@ def AB2_2D(np.ndarray[complex_t, ndim=3] U_hat,
     cdef unsigned int rk, i, j, k
     dU = solver.ComputeRHS(dU, U_hat, solver, **context)
 
-    if tstep == 1:
+    if tstep == 0:
         for i in range(dU.shape[0]):
             for j in range(dU.shape[1]):
                 for k in range(dU.shape[2]):
-- 
2.43.0

