From a35843547f10589f51c90267321c6963561316e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 01/46] fix: give each Kohn-Sham energy record its own arrays

An ndarray default of a dataclass is one object shared by every instance, and
Python 3.11 and later refuse it, so that kohnsham.py could not be imported.
---
 CADMium/kohnsham/kohnsham.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 12f3397..fa6c7b7 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -2,7 +2,7 @@
 kohnsham.py
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from multiprocessing import Process, Manager, current_process
 from pydantic import validator, BaseModel
 import numpy as np
@@ -25,8 +25,8 @@ class E:
     E  : float = 0.0 
     Ec : float = 0.0
     Ex : float = 0.0
-    Eks: np.ndarray = np.empty((1,1))
-    Vks: np.ndarray = np.empty((1,1))
+    Eks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
+    Vks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
 
 class KohnShamOptions(BaseModel):
     interaction_type : str = 'dft'
-- 
2.43.0


From fdcb69206bb9c0c277febd4172a318475779226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 02/46] fix: undo SuperLU's row exchanges in the factorized
 Laplacian

With partial pivoting L U is a row permutation of the Laplacian; the Hartree
solver used L and U as if their product was the Laplacian itself.
---
 CADMium/psgrid/factorize_laplacian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/psgrid/factorize_laplacian.py b/CADMium/psgrid/factorize_laplacian.py
index 35ea94b..e832861 100644
--- a/CADMium/psgrid/factorize_laplacian.py
+++ b/CADMium/psgrid/factorize_laplacian.py
@@ -13,7 +13,8 @@ def factorize_laplacian(self, DISP):
         print(" Factorizing Laplacian ... \n")
         
     LU = splu(self.elap, permc_spec="NATURAL")
-    self.L_lap = LU.L
+    #SuperLU may exchange rows: P_r A = L U. Undo it so that A = L_lap @ U_lap
+    self.L_lap = LU.L.tocsr()[LU.perm_r].tocsc()
     self.U_lap = LU.U
         
     if DISP is True:
-- 
2.43.0


From 7c9193cedd49893832c89883675696f86b312601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 03/46] fix: integrate a one-column function as one function

wi * w * f with f of shape (N, 1) broadcasts to (N, N).
---
 CADMium/psgrid/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/integrate.py b/CADMium/psgrid/integrate.py
index d3998fd..5f2f65c 100644
--- a/CADMium/psgrid/integrate.py
+++ b/CADMium/psgrid/integrate.py
@@ -13,7 +13,7 @@ def integrate(self, f):
         integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
 
     elif f.shape[1] == 1:
-        integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
+        integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f[:, 0])
 
     else:
         integral = np.zeros_like(f)
-- 
2.43.0


From 0835adf0a49183aded939a0b6b7f491bc9e1231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 04/46] fix: mixed-spin gradient product of a polarized density

@ and * have the same precedence, so the product was evaluated left to right.
---
 CADMium/psgrid/sigma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/sigma.py b/CADMium/psgrid/sigma.py
index f4fbad8..23015c0 100644
--- a/CADMium/psgrid/sigma.py
+++ b/CADMium/psgrid/sigma.py
@@ -16,7 +16,7 @@ def sigma(self, n):
         sigma = np.zeros((npoints, 3))
         sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2
         sigma[:,0] = (self.grada @ n[:, 0]) ** 2 +  (self.gradr @ n[:, 0]) ** 2
-        sigma[:,1] = self.grada @ n[:, 0] * self.grada @ n[:,1] + self.gradr @ n[:, 0] * self.gradr @ n[:,1]
+        sigma[:,1] = (self.grada @ n[:, 0]) * (self.grada @ n[:, 1]) + (self.gradr @ n[:, 0]) * (self.gradr @ n[:, 1])
 
     else:
         raise ValueError("Shape of density in second axis should not be greater than 2")
-- 
2.43.0


From 1705d1ccf3e47190b29c8f41a052d5a9926e61a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 05/46] fix: lay the integration weights out like every other
 grid function

Grid functions run over the angular index first; the weights were flattened
radial index first, which is wrong whenever the two directions differ.
---
 CADMium/psgrid/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/initialize.py b/CADMium/psgrid/initialize.py
index f0eb0c7..40fd28f 100644
--- a/CADMium/psgrid/initialize.py
+++ b/CADMium/psgrid/initialize.py
@@ -60,7 +60,7 @@ def initialize(self, DISP=False, factor=True):
     wr = wr.reshape(len(wr), 1)
     
     #2d Grid of integration weights
-    self.wi = np.reshape(wa@wr.T, (self.Nelem))
+    self.wi = np.reshape(wa@wr.T, (self.Nelem), order="F")
     
     if DISP is True:
         print(" Building finite difference opperators ... \n")
-- 
2.43.0


From a15c14953328c51884bcad09f5a37c82366d3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 06/46] fix: keep both end corrections of a single-block
 Newton-Cotes rule

With one block the two end corrections overlap and the second replaced the first.
---
 CADMium/common/NC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/common/NC.py b/CADMium/common/NC.py
index 6f975b2..153a3b4 100644
--- a/CADMium/common/NC.py
+++ b/CADMium/common/NC.py
@@ -30,7 +30,7 @@ def NC(N, Nm):
     NP = (N-1) * Nm + 1
     wi = np.zeros(NP)
     wi[:N-1] = w1[:]
-    wi[-(N-1):] = w1[::-1]
+    wi[-(N-1):] += w1[::-1]
 
     for i in range(Nm):
         wi[np.array(range(N))+(N-1)*(i)] = wi[np.array(range(N))+(N-1)*(i)] + w
-- 
2.43.0


From fcd1c3b3cf0dc5b90dcc97294213fff0030548aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 07/46] fix: reduced density gradient

A number cannot be an operand of @, sigma takes columns, the second spin
overwrote the first, and the method dropped the result.
---
 CADMium/psgrid/psgrid.py       | 2 +-
 CADMium/psgrid/reduced_grad.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index c3d839a..9e4830c 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -269,7 +269,7 @@ class Psgrid():
         factorize_laplacian(self, DISP)
 
     def reduced_grad(self, n):
-        reduced_grad(self, n)
+        return reduced_grad(self, n)
 
     def plotter(self, fin, max=1, sym=1):
         full, z, x = plotter(self, fin, max, sym)
diff --git a/CADMium/psgrid/reduced_grad.py b/CADMium/psgrid/reduced_grad.py
index b3a64bf..2370778 100644
--- a/CADMium/psgrid/reduced_grad.py
+++ b/CADMium/psgrid/reduced_grad.py
@@ -12,12 +12,12 @@ def reduced_grad(self, n):
     pol = n.shape[1]
 
     if pol == 1:
-        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) @ n** (4/3) )
+        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) * n** (4/3) )
 
     if pol == 2:
         s = np.zeros_like(n)
-        s[:, 0] = self.sigma(2 * n[:,0])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,0])**(4/3))
-        s[:, 0] = self.sigma(2 * n[:,1])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,1])**(4/3))
+        s[:, 0] = self.sigma(2 * n[:,[0]])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,0])**(4/3))
+        s[:, 1] = self.sigma(2 * n[:,[1]])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,1])**(4/3))
 
     #WARNING: S might be zero, in that case, that particular cell should be turned to zero#
 
-- 
2.43.0


From 04f6ca111c2b001f15862e5724fe27e97db1b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:37 +0000
Subject: [PATCH 08/46] fix: build a missing base Hamiltonian before solving
 for orbitals

---
 CADMium/pssolver/calc_orbitals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index af37616..f774796 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -29,7 +29,7 @@ def calc_orbitals(self, solver_id, return_dict):
         Veff = spdiags(data= W @ self.veff, diags=0, m=Nelem, n=Nelem)
 
         if self.H0 is None:
-            self.hamiltionian()
+            self.hamiltonian()
 
         #Construct Hamiltonian
         H = self.H0 + Veff
-- 
2.43.0


From 94040a17be48b21df44870d5fdec232176235913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:37 +0000
Subject: [PATCH 09/46] fix: leave an orbital alone when its residual is within
 tolerance

---
 CADMium/pssolver/iter_orbitals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 3b0598b..4bc8e95 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -54,9 +54,9 @@ def iter_orbitals(self, solver_id, return_dict):
                 else:
                     x = spsolve(C, rhs)
                 
-            self.phi[:, j] -= x[:Nelem]
-            self.eig[j]    -= x[-1]
-            self.normalize_orbitals()
+                self.phi[:, j] -= x[:Nelem]
+                self.eig[j]    -= x[-1]
+                self.normalize_orbitals()
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From 7a359f85b0387f60c4fe89ccabee90e5ed2ee336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:37 +0000
Subject: [PATCH 10/46] fix: kinetic energy density of a partially occupied
 orbital

---
 CADMium/pssolver/calc_ked_WFI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_ked_WFI.py b/CADMium/pssolver/calc_ked_WFI.py
index 956717b..4272c18 100644
--- a/CADMium/pssolver/calc_ked_WFI.py
+++ b/CADMium/pssolver/calc_ked_WFI.py
@@ -41,7 +41,7 @@ def calc_ked_WFI(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional and nu != 0:
         #Normalized orbital
-        phi_norm = self.phi[:,i] / self.grid.integrate( self.phi[:, int(Nocc+1) ]**2)**0.5
+        phi_norm = self.phi[:, int(Nocc)] / self.grid.integrate( self.phi[:, int(Nocc)]**2 )**0.5
         phi_norm = phi_norm[:, None]
         self.ked_WFI += nu * ( phi_norm * (self.H0 @ phi_norm) ) / self.grid.w[:, None]
 
-- 
2.43.0


From 7a1c00610f8423177872e5e1702e13f02256769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:37 +0000
Subject: [PATCH 11/46] fix: response of a partially occupied orbital

---
 CADMium/pssolver/calc_response.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 464d725..1112b80 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -8,7 +8,6 @@ from scipy.sparse import vstack as csc_vstack
 from scipy.sparse import hstack as csc_hstack
 from scipy.sparse import csc_matrix
 from scipy.sparse.linalg import spsolve
-from scipy.sparse.linalg import splu
 
 def calc_response(self):
     """
@@ -70,7 +69,7 @@ def calc_response(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional is  True and nu != 0:
         print("Warning, you may need to confirm calc_response in CADMium")
-        j = Nocc + 1
+        j = int(Nocc)
 
         #Select the orbital and normalize
         phi_j = self.phi[:, j] / self.grid.integrate( self.phi[:, j]**2 )**0.5
@@ -87,16 +86,10 @@ def calc_response(self):
         A = csc_vstack(( A_inside_1, A_inside_2 ))
         A = csc_matrix(A)
 
-        lu = splu(A)
-        #Take matrox L and U from decomposition
-        L = lu.L.A
-        U = lu.U.A
-
-        #Solve linear equation
-        x = spsolve( U , spsolve(L, rhs))
+        x = spsolve(A, rhs)
 
         #Add orbital density response into total response
-        self.chi += self.chi + nu * 2 * PHI * x[0:Nelem, 0:Nelem]
+        self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
     if self.pol == 1:
-- 
2.43.0


From 96410270e56b1a0dff44e5c18edf65eb604e2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:37 +0000
Subject: [PATCH 12/46] fix: full occupation of a solver given no number of
 electrons

---
 CADMium/pssolver/pssolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index e5d46fb..7040aa7 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -89,7 +89,7 @@ class i_solver():
         self.pol = pol
 
         if self.N == -1:
-            if self.polarization == 1:
+            if self.pol == 1:
                 self.N = 2 * self.Nmo
             else:
                 self.N = self.Nmo
-- 
2.43.0


From 0098ee3d82219f74952844644ce0f2aaf599a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 13/46] fix: response of m>0 orbitals counts both signs of m

---
 CADMium/pssolver/calc_response.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 1112b80..35a0338 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -95,4 +95,8 @@ def calc_response(self):
     if self.pol == 1:
         self.chi = 2 * self.chi
 
+    #m>0 orbitals hold twice as many electrons due to +-m symmetry
+    if self.m != 0:
+        self.chi = 2 * self.chi
+
 
-- 
2.43.0


From bfc87214061fca825c5a77167ec0a0175063b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 14/46] fix: set_veff_external hands out its argument instead
 of the stored potential

---
 CADMium/kohnsham/kohnsham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index fa6c7b7..0711d21 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -181,7 +181,7 @@ class Kohnsham():
         """
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):
-                self.solver[i,j].setveff(self.veff[:,j])
+                self.solver[i,j].setveff(veff[:,j])
 
     def calc_density(self, ITERATIVE=False, dif=0.0):
         """
-- 
2.43.0


From cc8d87374430552e87f98eaf9d568be6045b59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 15/46] fix: Kohn-Sham SCF options given in capitals were
 accepted but ignored

---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 62c753d..be0c427 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -23,8 +23,8 @@ def scf(self, optKS):
     SCF method to handle self consistent field calculations
     """
 
+    optKS = {k.lower(): v for k, v in optKS.items()}
     for i in optKS.keys():
-        i = i.lower()
         if i not in KohnShamSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for the SCF procedure")
     optKS = KohnShamSCFOptions(**optKS)
-- 
2.43.0


From 88b4285b8f2d733a2c62a3c829285c02f4a957db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 16/46] fix: auto_tol in the Kohn-Sham SCF used undefined names

---
 CADMium/kohnsham/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index be0c427..d4eb1d4 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < opt.KS.auto_tol_iter) and iter < optKS.maxiter:
+    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
@@ -104,7 +104,7 @@ def scf(self, optKS):
         old_n = self.n
 
         if optKS.auto_tol is True:
-            if dif < min_dif:
+            if diff < min_dif:
                 num_iter_not_min = 0
                 min_dif = diff
             else:
-- 
2.43.0


From 2b805659a302142ceed354701c5906f9de31a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 17/46] fix: spinflipsym symmetrised the potential only after
 it was handed to the solvers

---
 CADMium/kohnsham/scf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index d4eb1d4..4390d1d 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -68,14 +68,14 @@ def scf(self, optKS):
         self.calc_hxc_potential() 
         self.veff = self.vnuc + self.vext + self.vhxc
 
-        for i in range(self.Nmo.shape[0]):
-            for j in range(self.Nmo.shape[1]):
-                self.solver[i,j].setveff(self.veff[:,j])
-
         #Spin flip mirror symmetry
         if optKS.spinflipsym is True:
             self.veff = (self.veff + self.grid.mirror(self.grid.spinflip(self.veff))) / 2
 
+        for i in range(self.Nmo.shape[0]):
+            for j in range(self.Nmo.shape[1]):
+                self.solver[i,j].setveff(self.veff[:,j])
+
         #Calculate new density
         if optKS.iterative is True and optKS.continuing is True:
             nout = self.calc_density(ITERATIVE=optKS.iterative)
-- 
2.43.0


From 2e8289d6acb8510bd38ce57a6cd65890d71f69dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 18/46] fix: ensemble energy of fragment B counted one
 component twice

---
 CADMium/partition/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index eca7c39..7c7f98e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -24,7 +24,7 @@ def energy(self):
         iks_b = [self.KSb]
     else:
         iks_a = [self.KSa, self.KSA]
-        iks_b = [self.KSB, self.KSB]
+        iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
         if i_KS.E is None:
-- 
2.43.0


From d5f90680bba888968e8f1e0b4d799afe1d673ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 19/46] fix: an ensemble with only one fractional fragment
 could not be constructed

---
 CADMium/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 5e6f118..14d5524 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -256,7 +256,7 @@ class Partition():
 
         self.KSa = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_a, self.N_a, optKS)
         self.KSb = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_b, self.N_b, optKS)
-        if self.nu_a != 1.0 and self.nu_b != 1.0:
+        if self.ens:
 
             self.KSA = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_A, self.N_A, optKS)
             self.KSB = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_B, self.N_B, optKS)
-- 
2.43.0


From 59b2b9b5fa9038d71ea0496f8dfa65d9690e144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 20/46] fix: auto_tol in the partition SCF used a non-existent
 option

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 31f2c22..1caa474 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -139,7 +139,7 @@ def scf(self, optSCF={}):
 
     #-----> SCF Procedure Begins
     while (dif > optSCF.e_tol 
-           or (optSCF.auto_tol is True and num_iter_not_min < self.optPartition["AutoTolIter"])) \
+           or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
 
-- 
2.43.0


From 48a09d95412cee71fc14d4bddfbc47793c1c7dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 21/46] fix: von Weizsaecker partition kinetic energy: sign of
 the molecular term, misplaced parenthesis in the fragment term

---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b15adc9..57eb874 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,7 +13,7 @@ def ep_kinetic(self):
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
               * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
 
         tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
               * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
@@ -30,8 +30,8 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 ) \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
+                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
-- 
2.43.0


From 0d95d69f1e99c279a0174364221b87cadbff564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 22/46] fix: two-orbital fragment energy density counted twice
 with A/B symmetry

---
 CADMium/partition/ep_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 57eb874..7c9fa2d 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -159,7 +159,7 @@ def ep_kinetic(self):
             tsf += i_KS.Q * i_KS.V.ts[:,None]
 
         if self.optPartition.ab_sym:
-            tsf += tsf + self.grid.mirror(tsf)
+            tsf += self.grid.mirror(tsf)
             Tsf *= 2      
 
         # print("Yo soy Tsf", tsf)
-- 
2.43.0


From 7e6098303e4667e5da73e0224e0792ae3c38933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 23/46] fix: kinetic energy densities of the inversion method:
 angular momenta overwrote each other, one copy per solver, outer difference

---
 CADMium/partition/ep_kinetic.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 7c9fa2d..98089b3 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -63,13 +63,12 @@ def ep_kinetic(self):
 
     elif self.optPartition.kinetic_part_type == "inversion":
         
-        tsm = np.sum( self.inverter.get_ts_WFI(), axis=1 ) / np.sum( self.nf, axis=1 )
+        tsm = ( np.sum( self.inverter.get_ts_WFI(), axis=1 ) / np.sum( self.nf, axis=1 ) )[:, None]
         Tsm = self.inverter.get_Ts()
 
         #Evaluate kinetic energy for fragments
         Tsf = 0.0
         tsf = np.zeros_like(tsm)
-        tsf = tsf[:, None]
 
         if self.optPartition.ab_sym is not True:
             if not self.ens:
@@ -86,7 +85,6 @@ def ep_kinetic(self):
             assert i_KS.E.Ts != None, ("Fragment energies must be evaluated before partition energy")
             Tsf += i_KS.scale * i_KS.E.Ts
             
-            i_KS.V.ts = np.zeros_like( i_KS.n )
             ts = np.zeros((self.grid.Nelem, self.pol))
 
             for i in range(i_KS.solver.shape[0]):
@@ -97,11 +95,9 @@ def ep_kinetic(self):
             for i in range(i_KS.solver.shape[0]):
                 for j in range(i_KS.solver.shape[1]):
                     if i_KS.solver[i,j].ked_WFI is not None:
-                        ts[:,j] = np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
+                        ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
-            for i in range(i_KS.solver.shape[0]):
-                for j in range(i_KS.solver.shape[1]):
-                    i_KS.V.ts += np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
+            i_KS.V.ts = ts / np.sum(i_KS.n, axis=1)[:,None]
 
             tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 )[:,None] * np.sum( i_KS.V.ts, axis=1 )[:,None]
 
-- 
2.43.0


From 835caf7f9d91e0f7f3024f5679b14128da20b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 24/46] fix: mirrored Hartree energy density was added once per
 ensemble component

---
 CADMium/partition/ep_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 79ead77..9acd1d1 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -28,7 +28,7 @@ def ep_hxc(self):
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
                     ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
-                ehf += self.grid.mirror(ehf)
+            ehf += self.grid.mirror(ehf)
 
         else:
             if not self.ens:
-- 
2.43.0


From ba29b5ff4b76de086ef226d4d6569c8ce765b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 25/46] fix: overlap derivative of polarised fragments used
 per-spin density ratios

---
 CADMium/partition/vp_overlap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index 9313a0b..4cca5c2 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -23,8 +23,8 @@ def vp_overlap(self):
     
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = KSa.scale * 0.5 * (self.nb_frac / self.na_frac)**0.5
-        if self.optPartition is True:
+        KSa.V.dSdn = KSa.scale * 0.5 * (np.sum(self.nb_frac, axis=1) / np.sum(self.na_frac, axis=1))[:,None]**0.5
+        if self.pol == 2:
             KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
         #Remove any Nans
         KSa.V.dSdn[ np.isinf(KSa.V.dSdn) ] = 0.0
@@ -33,8 +33,8 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = KSb.scale * 0.5 *  (self.na_frac / self.nb_frac)**0.5
-        if self.optPartition is True:
+        KSb.V.dSdn = KSb.scale * 0.5 * (np.sum(self.na_frac, axis=1) / np.sum(self.nb_frac, axis=1))[:,None]**0.5
+        if self.pol == 2:
             KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
         #Remove any Nans
         KSb.V.dSdn[ np.isinf(KSb.V.dSdn) ] = 0.0
-- 
2.43.0


From 1823504abcc371f94b4c5a2359958603d9caafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 26/46] fix: sign of the overlap derivative times the ensemble
 Hartree energy

---
 CADMium/partition/vp_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_hxc.py b/CADMium/partition/vp_hxc.py
index a6b6458..6bf938d 100644
--- a/CADMium/partition/vp_hxc.py
+++ b/CADMium/partition/vp_hxc.py
@@ -81,7 +81,7 @@ def vp_hxc(self):
             i_KS.V.vp_hxc = self.E.F * (i_KS.V.vp_h + i_KS.V.vp_x + i_KS.V.vp_c) + \
                             + (self.E.Ep_h + self.E.Ep_x + self.E.Ep_c) * i_KS.V.dFdn \
                             + (1 - self.E.F) * (i_KS.V.vhcor) \
-                            + (self.E.Ehcor) * i_KS.V.dFdn
+                            - (self.E.Ehcor) * i_KS.V.dFdn
 
     # elif self.optPartition.hxc_part_type == "overlap_hxc_2":
     #     #Overlap approximation for H2p
-- 
2.43.0


From 2fcb72f1bede6db80db30d5431437f8af3c40cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 27/46] fix: surprisal functional could not be evaluated

---
 CADMium/partition/ep_hxc.py      | 4 ++--
 CADMium/partition/vp_hxc.py      | 8 +++-----
 CADMium/partition/vp_surprise.py | 4 ++--
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 9acd1d1..f06ea47 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -136,10 +136,10 @@ def ep_hxc(self):
         self.E.Ep_hxc = self.E.F * ( self.E.Ep_h + self.E.Ep_x + self.E.Ep_c ) \
                         + (1 - self.E.F) * self.E.Ehcor
 
-    elif self.optPartition.hxc_part_type == "surprise": 
+    elif self.optPartition.hxc_part_type == "surprisal": 
         self.vp_surprise()
         self.E.Ep_hxc = self.E.Ep_h \
-                      + self.grid.integrate( self.V.s * (self.V.ep_x + self.V.ep_c) * np.sum(self.nf, axis=1))
+                      + self.grid.integrate( self.V.s * (self.V.ep_x + self.V.ep_c)[:,0] * np.sum(self.nf, axis=1))
 
     else: 
         raise ValueError("hxc_part_type not recognized")
diff --git a/CADMium/partition/vp_hxc.py b/CADMium/partition/vp_hxc.py
index 6bf938d..b1caf16 100644
--- a/CADMium/partition/vp_hxc.py
+++ b/CADMium/partition/vp_hxc.py
@@ -96,13 +96,11 @@ def vp_hxc(self):
 
     elif self.optPartition.hxc_part_type == "surprisal":
         #Hmmm (?)
-        self.Ep_hxc
-        self.vp_surprise
+        self.energy()
 
         for i_KS in iks:
-            i_KS.V.vp_hxc = i_KS.V.vp_h + self.V.s * np.ones((1,2)) * (i_KS.V.vp_x + i_KS.V.vp_c) \
-                            + (self.V.ep_x * np.ones((1,2))) \
-                            + self.V.ep_c * np.ones((1,2)) * self.nf * i_KS.V.v_s
+            i_KS.V.vp_hxc = i_KS.V.vp_h + self.V.s[:,None] * (i_KS.V.vp_x + i_KS.V.vp_c) \
+                            + (self.V.ep_x + self.V.ep_c) * np.sum(self.nf, axis=1)[:,None] * i_KS.V.v_s
 
     else:
         raise ValueError (f"{self.optPartition.hxc_part_type} is not an available hxc part method") 
diff --git a/CADMium/partition/vp_surprise.py b/CADMium/partition/vp_surprise.py
index 0d30fd6..621f55f 100644
--- a/CADMium/partition/vp_surprise.py
+++ b/CADMium/partition/vp_surprise.py
@@ -23,10 +23,10 @@ def vp_surprise(self):
     
     for KSa in iksa:
         KSa.V.v_s = Pb * np.log2( Pb/Pa ) / np.sum(self.nf, axis=1)
-        KSa.V.v_s = np.repeat( KSa.V.v_s, 2, axis=1 )
+        KSa.V.v_s = np.repeat( KSa.V.v_s[:,None], self.pol, axis=1 )
 
     for KSb in iksb:
         KSb.V.v_s = Pa * np.log2( Pa/Pb ) / np.sum(self.nf, axis=1)
-        KSb.V.v_s = np.repeat( KSb.V.v_s, 2, axis=1 )
+        KSb.V.v_s = np.repeat( KSb.V.v_s[:,None], self.pol, axis=1 )
 
     
\ No newline at end of file
-- 
2.43.0


From f27a001add480a1fd78d7fab1e289b30ef5cf3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 28/46] fix: highest occupied level of fragment B overwrote
 that of fragment A

---
 CADMium/partition/vp_kinetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 2a6a3aa..f1cd933 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -61,7 +61,7 @@ def vp_kinetic(self):
                 if self.KSa.solver[i,j].homo is not None:
                     ua = np.max( (ua, self.KSa.solver[i,j].homo) )
                 if self.KSb.solver[i,j].homo is not None:
-                    ua = np.max( (ub, self.KSb.solver[i,j].homo) )
+                    ub = np.max( (ub, self.KSb.solver[i,j].homo) )
 
         if self.ens:
             for i in range(self.Nmo_A.shape[0]):
@@ -69,7 +69,7 @@ def vp_kinetic(self):
                     if self.KSA.solver[i,j].homo is not None:
                         ua = np.max( (ua, self.KSA.solver[i,j].homo) )
                     if self.KSB.solver[i,j].homo is not None:
-                        ua = np.max( (ub, self.KSB.solver[i,j].homo) )
+                        ub = np.max( (ub, self.KSB.solver[i,j].homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From f740a741d317a2f8d1a328e467297ec641882a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 29/46] fix: missing orbital factor in the two-orbital kinetic
 potential of fragment A

---
 CADMium/partition/vp_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index f1cd933..3a99454 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -142,7 +142,7 @@ def vp_kinetic(self):
         dTO_dphi2 = (eT @ phi2) / self.grid.w[:,None]
 
         # Functional derivative of KEF wrt density one
-        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (       dTO_dphi1)[:,0] ))
+        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
         dTO1_dn2 = -(1/2) * (C * n2)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
 
         dTO2_dn1 = dTO_dphi2 * ( (1/4 - 1/2*(C * n1)**(-0.5)*phi1) /phi2) + 0.5 * (phi1/(C*n1)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
-- 
2.43.0


From 813bceb2b407c33a83159240784cf835a1328f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 30/46] fix: correlated Hartree energy without an ensemble
 could not be evaluated

---
 CADMium/partition/EnsCorHar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index d43e9c9..fe7ad85 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -7,15 +7,15 @@ import numpy as np
 
 def EnsCorHar(self):
     if not self.ens:  # No Ensemble
-        if not self.optPartiton.ens_spin_sym: #Not ENS Spin Symmetry
+        if not self.optPartition.ens_spin_sym: #Not ENS Spin Symmetry
             self.KSa.E.Ehcor = 0.0
             self.KSb.E.Ehcor = 0.0
             self.KSa.V.vhcor = np.zeros_like( self.KSa.V.vh )
             self.KSb.V.vhcor = np.zeros_like( self.KSb.V.vh )
             self.E.Ehcor = 0.0
         else:                                 #With ENS Spin Symmetry
-            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh) ))   / 2.0
-            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh) ))   / 2.0
+            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh), axis=1 ))   / 2.0
+            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh), axis=1 ))   / 2.0
             self.KSa.V.vhcor = self.grid.spinflip( self.KSb.V.vh )
             self.KSb.V.vhcor = self.grid.spinflip( self.KSa.V.vh )
             self.E.Ehcor = 0.0
-- 
2.43.0


From 41489475dda885f8b554915b5e05e09fc2cdc40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 31/46] fix: kinetic energy density of the inverter: angular
 momenta overwrote each other, stale second spin

---
 CADMium/inverter/get_ts_WFI.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index e58e3e6..104f9b0 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -23,7 +23,7 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     else:
         for i in range(self.solver.shape[0]):
@@ -32,7 +32,7 @@ def get_ts_WFI(self):
         #Get Kinetic Energy Density
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
-                if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                if self.solver[i,0].ked_WFI is not None:
+                    ts[:,j] += np.sum( self.solver[i,0].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
-- 
2.43.0


From 6f6ebca50af4352f7167457110bf1d8902ca7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 32/46] fix: gauge condition of the inversion used the stored
 potential instead of the trial one

---
 CADMium/inverter/inverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index 2cbebc8..b24251a 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -191,7 +191,7 @@ class Inverter():
             print("vs is inf")
 
         #Calculate error function
-        grad = np.vstack( ( self.B @ (n-self.n0[:, spin][:,None]), self.vs[self.Nelem-1, spin] ) )
+        grad = np.vstack( ( self.B @ (n-self.n0[:, spin][:,None]), vs[self.Nelem-1] ) )
         grad = np.squeeze(grad)
 
         if np.isnan(grad).any() is True:
-- 
2.43.0


From 397a6518197b9f1d648eedfb78537228d66d620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 33/46] fix: Jacobian of the inversion left out all but the
 first angular momentum

---
 CADMium/inverter/inverter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index b24251a..9cdf10e 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -209,7 +209,8 @@ class Inverter():
         """
 
         #Calculate jacobian of error function.
-        Jac = np.vstack( ( self.B @ self.solver[0,spin].chi, np.zeros((1, self.Nelem)) ) )
+        chi = sum( self.solver[i,spin].chi for i in range(self.solver.shape[0]) )
+        Jac = np.vstack( ( self.B @ chi, np.zeros((1, self.Nelem)) ) )
         Jac = np.asarray(Jac)
         Jac[-1, -1] = 1
 
-- 
2.43.0


From 4a05fc65053428c27d542773a56773e7adf490b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 34/46] fix: linear-response inversion of a given spin: target
 column, initial guess, chemical potential

---
 CADMium/inverter/inverter.py    |  2 +-
 CADMium/inverter/linresponse.py | 63 +++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index 9cdf10e..6151d12 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -159,7 +159,7 @@ class Inverter():
 
     #Inversion methods
     def linresponse(self, n0, vs0, ispin):
-        flag, output = linresponse(self, n0, vs0, )
+        flag, output = linresponse(self, n0, vs0, ispin)
         return flag, output
 
     def Ws(self, vs, spin):
diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index d3a052b..b6f78f8 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -8,7 +8,7 @@ from scipy.optimize import least_squares
 from scipy.sparse import spdiags
 
 
-def linresponse(self, n0, vs0=None):
+def linresponse(self, n0, vs0=None, ispin=0):
     """
     wuyang like inversion of the density with response
     """
@@ -16,29 +16,39 @@ def linresponse(self, n0, vs0=None):
     n0 = n0[:, None] if len(n0.shape) == 1 else n0
     pol   = n0.shape[1] if len(n0.shape) > 1 else 1
     self.pol = pol
-    self.n0  = n0
     Nelem = n0.shape[0]
-    w = self.grid.w if pol == 1 else np.hstack((self.grid.w, self.grid.w))
-    
-    if self.solver[0,0].veff is None:
-        if vs0 is None:
-            #If no initial guess is provided
-            #Use the von weizacker inversion
-            vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
-            vs0 -= vs[-1]
-    else:
-        vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
 
-    self.vs = np.zeros_like(vs0)
-    self.us = np.zeros((1, pol))
+    #A single column is the target density of ispin
+    spins = [ispin] if pol == 1 else list(range(pol))
+    nspin = self.solver.shape[1]
+    self.n0 = np.zeros((Nelem, nspin))
+    self.n0[:, spins] = n0
+
+    if self.vs is None:
+        self.vs = np.zeros((Nelem, nspin))
+        self.us = np.zeros((1, nspin))
     flag   = np.empty_like(self.solver, dtype=object)
     output = np.empty_like(self.solver, dtype=object)
+
+    #Initial guess
+    guess = np.zeros((Nelem, nspin))
+    for i in spins:
+        if self.solver[0,i].veff is not None:
+            guess[:,i] = np.reshape(self.solver[0,i].veff, Nelem)
+        elif vs0 is not None:
+            guess[:,i] = vs0[:, spins.index(i) if vs0.shape[1] == pol else 0]
+        else:
+            #If no initial guess is provided
+            #Use the von weizacker inversion
+            guess[:,i]  = (0.5 * self.grid.elap @ (self.n0[:,i]**0.5)) / (self.n0[:,i]**0.5 * self.grid.w)
+            guess[:,i] -= guess[-1,i]
+    vs0 = guess
     
     if self.optInv.ens_spin_sym is True:
         #Invert density n0 to find vs
         #Preallocation
         #B is the inverse of n0 in main diagonal
-        B = spdiags( 1./n0[:,0],0, Nelem, Nelem)
+        B = spdiags( 1./self.n0[:,0],0, Nelem, Nelem)
 
         self.B = B
 
@@ -56,23 +66,22 @@ def linresponse(self, n0, vs0=None):
 
         #Get solution from least squares object
         self.vs[:,0] = res_lsq.x
-        self.us[0] = self.solver[0,0].get_homo()
-        flag[0,0] = res_lsq.status
-        output[0,0] = res_lsq
+        self.us[0,0] = self.solver[0,0].get_homo()
 
         #Copy information
-        self.vs = np.hstack((self.vs, self.vs))
-        self.us = np.hstack((self.us, self.us))
-        self.solver[0,1].setveff(self.vs[:,0])
-        flag[0,1] = res_lsq.status
-        output[0,1] = res_lsq
+        self.vs[:,1] = self.vs[:,0]
+        self.us[0,1] = self.us[0,0]
+        for j in range(self.solver.shape[0]):
+            self.solver[j,1].setveff(self.vs[:,0])
+            flag[j,:] = res_lsq.status
+            output[j,:] = res_lsq
 
     else:
-        for i in range(pol):
+        for i in spins:
             #Invert density n0 to find vs
             #Preallocation
 
-            B = spdiags( 1./n0[:,i], 0, Nelem, Nelem)
+            B = spdiags( 1./self.n0[:,i], 0, Nelem, Nelem)
             self.B = B
             for j in range(self.solver.shape[0]):
                 self.solver[j,i].hamiltonian()
@@ -91,8 +100,10 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[i]   = self.solver[0,i].get_homo()
+            self.us[0,i] = self.solver[0,i].get_homo()
 
+        #Only the spins that were inverted
+        flag, output = flag[:, spins], output[:, spins]
 
     return flag, output
 
-- 
2.43.0


From 22b0b29aaf22ecec3896a18383f4072c60c9dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 35/46] fix: orbital inversion failed for fractional
 occupations and non-zero angular momentum

---
 CADMium/inverter/orbitalinvert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e345268..aa8540c 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -198,7 +198,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     isolver = self.solver[:, ispin]
     Nsol = isolver.shape[0]
-    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int)
+    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=float), np.empty((Nsol), dtype=int)
     for i, j in enumerate(isolver):
         j.hamiltonian()
         Nmo[i] = j.Nmo
@@ -222,17 +222,17 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] - np.floor(N[it])
             
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
-            D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
+            D[it,0] = 4 *  np.ones((Nmo[it], 1))
             if isolver[it].pol == 1:
                 nu = N[it] / 4 - np.floor(N[it] / 4)
             else:
                 nu = N[it] / 2 - np.floor(N[it] / 2)
 
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
 
 
     H_matrices = []
-- 
2.43.0


From f661bf74a16cc4d759b0161d0bff69c71583edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 36/46] fix: orbital inversion compared every orbital norm with
 the one of the first orbital

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index aa8540c..af57809 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -139,7 +139,7 @@ def kmatrix(x, i_orth, Nelem, Nmo, WWi, H, n0, occ, B2i, B2j, B3i, B3j):
     n = np.sum( np.abs(phi)**2, axis=1)
     S = np.sum( WWi @ np.abs(phi)**2, axis=0)
     ncon = WWi @ ((n-n0) / 2)[:, None]
-    Ncon = (- (S - occ) / 2)[:,0][:,None]
+    Ncon = - (S[:,None] - occ) / 2
     eqn = np.vstack(( KSeq, Ncon[:-1], Ocon, ncon  ))
 
     B2v = np.reshape(WWi @ phi, (np.sum(Nmo) * Nelem, 1), order="F")
-- 
2.43.0


From 50bdc901ab7a2daadfc6cd09c2e9fb42d045a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 37/46] fix: orbital inversion stored the chemical potential in
 a row of a grid sized array

---
 CADMium/inverter/orbitalinvert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index af57809..d8db5b3 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -189,7 +189,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     if self.vs is None and self.us is None:
         self.vs = np.zeros((self.grid.Nelem, self.solver.shape[1]))
-        self.us = np.zeros((self.grid.Nelem, self.solver.shape[1]))
+        self.us = np.zeros((1, self.solver.shape[1]))
 
     Nelem = self.grid.Nelem
     Wi = spdiags( 2*np.pi * self.grid.hr * self.grid.ha * self.grid.wi, 0, Nelem, Nelem)
@@ -461,7 +461,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
 
     for it in range(Nsol):
-        self.us[ispin] = isolver[it].get_homo()
+        self.us[0, ispin] = isolver[it].get_homo()
 
         isolver[it].calc_density()
         isolver[it].setveff(self.vs[:, ispin])
-- 
2.43.0


From 8208907ca93c7cc31e76aef26160bc6bda0e243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 38/46] fix: results of all orbital inversions shared one
 record

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index d8db5b3..c7860a9 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -472,7 +472,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         flag = True
 
 
-    inv_info = inversion_info
+    inv_info = inversion_info()
     inv_info.nfev       = iter 
     inv_info.optimality = res
     output = np.empty((1,1), dtype=object)
-- 
2.43.0


From 2bf0689e24ea0a8146abb548c27bd57abb2bb8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:45 +0000
Subject: [PATCH 39/46] fix: orbital inversion with several angular momenta

---
 CADMium/inverter/orbitalinvert.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index c7860a9..1b0e49c 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -38,7 +38,7 @@ def ab_symmetrize(x, Nelem, Nmo, North, self):
     Nmo = Nmo[:, None]
 
     #Check for degenerate and nearly degenerate orbitals
-    for i in range(0, int(np.sum(Nmo, axis=1)-1)):
+    for i in range(0, int(np.sum(Nmo)-1)):
         if np.abs( evals[i] - evals[i+1] ) < 1e-6:
             even =  phi[:, i]   + self.grid.mirror( phi[:,i]   ) \
                   + phi[:, i+1] + self.grid.mirror( phi[:,i+1] )
@@ -49,7 +49,7 @@ def ab_symmetrize(x, Nelem, Nmo, North, self):
             phi[:, i+1] = odd  / np.linalg.norm(odd)
 
 
-    for i in range(0, int(np.sum(Nmo, axis=1))):
+    for i in range(0, int(np.sum(Nmo))):
         if phi[:, i].T @ self.grid.mirror( phi[:, i] ) > 0:
             phi[:, i] += self.grid.mirror( phi[:, i] )
             phi[:, i] /=  np.linalg.norm(  phi[:, i] )
@@ -236,11 +236,12 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
 
     H_matrices = []
-    for i in range(C[0,0].shape[0]):
-        H_matrices.append(C[0,0][i])
+    for it in range(Nsol):
+        for i in range(C[it,0].shape[0]):
+            H_matrices.append(C[it,0][i])
     matrices = (H_matrices[i][0] for i in range(len(H_matrices)))
     H = block_diag( matrices )
-    occ = np.vstack(D[:][0])
+    occ = np.vstack(D[:,0])
 
     B2i = np.array( range( 0, np.sum(Nmo) * Nelem ) )[:, None]
     B2j = matlab.repmat( np.array(range(0,Nelem))[:,None], np.sum(Nmo), 1 )
@@ -419,8 +420,8 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
                 for it in range(Nsol):
 
-                    isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-                    isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
+                    isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
+                    isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1])]
 
                 for i in isolver:
                     i.setveff(self.vs[:, ispin])
@@ -430,7 +431,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 evals = None
                 for i in isolver:
                     phi   = i.phi if phi is None else np.concatenate( (phi, i.phi),   axis=1)
-                    evals = i.eig if evals is None else np.concatenate( (evals, i.eig), axis=1)
+                    evals = i.eig if evals is None else np.concatenate( (evals, i.eig), axis=0)
 
                 X = np.concatenate((phi.flatten("F")[:,None], 
                                     (evals[:-1] - evals[-1])[:, None], 
@@ -457,15 +458,15 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     self.vs[:, ispin] = X[ np.array(range(Nelem)) + np.sum(Nmo) * Nelem + np.sum(Nmo) - 1 + North, 0]
 
     for it in range(Nsol):
-        isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-        isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
+        isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
+        isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1])]
 
     for it in range(Nsol):
-        self.us[0, ispin] = isolver[it].get_homo()
-
         isolver[it].calc_density()
         isolver[it].setveff(self.vs[:, ispin])
 
+    self.us[0, ispin] = np.max([i.get_homo() for i in isolver])
+
     if res > self.optInv.tol_invert:
         flag = False
     else:
-- 
2.43.0


From a5e66322a6f47b8e10c129e9bc52c1f212efcc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:45 +0000
Subject: [PATCH 40/46] fix: initial eigenvalues of the orbital inversion were
 not relative to its last orbital

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 1b0e49c..fea7b0e 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -257,7 +257,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     #Initial Guess
     if isolver[0].phi is None:
         X = np.vstack((  phi0[:np.sum(Nmo) * Nelem], 
-                         (e0[:np.sum(Nmo)-1] - e0[-1])[:, None], 
+                         (e0[:np.sum(Nmo)-1] - e0[np.sum(Nmo)-1])[:, None], 
                          np.zeros((North, 1)),
                          vs0 - e0[np.sum(Nmo)-1]
                         ))
-- 
2.43.0


From e5a59b437418b2cf1dd7c72fa108f8274d05d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:45 +0000
Subject: [PATCH 41/46] fix: initial orbitals of the molecular inversion were
 interleaved

---
 CADMium/partition/vp_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 3a99454..1307bbe 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -88,7 +88,7 @@ def vp_kinetic(self):
             if self.pol == 2:
                 ntarget = 2 * ntarget
             phi0, e0, vs0 = self.initialguessinvert(ispin)
-            phi0 = phi0.flatten()[:,None]
+            phi0 = phi0.flatten("F")[:,None]
             e0   = e0.flatten()
 
             #Invert molecular problem:
-- 
2.43.0


From 7ca1744e38be7e885f53c6bdce37630827d54432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:59 +0000
Subject: [PATCH 42/46] fix: orbital inversion put two electrons in every spin
 orbital

---
 CADMium/inverter/orbitalinvert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index fea7b0e..962cc1a 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -214,7 +214,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         C[it,0] = np.repeat( Wi @ isolver[it].H0, Nmo[it])[:,None]
 
         if m[it] == 0:            
-            D[it,0] = 2 * np.ones( (Nmo[it], 1) )
+            D[it,0] = 2 / isolver[it].pol * np.ones( (Nmo[it], 1) )
 
             if isolver[it].pol == 1:
                 nu = N[it] / 2 - np.floor(N[it] / 2)
@@ -225,7 +225,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
-            D[it,0] = 4 *  np.ones((Nmo[it], 1))
+            D[it,0] = 4 / isolver[it].pol * np.ones((Nmo[it], 1))
             if isolver[it].pol == 1:
                 nu = N[it] / 4 - np.floor(N[it] / 4)
             else:
-- 
2.43.0


From 4a69fcb827268c5a7b2131cf8077909ea23f734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:15 +0000
Subject: [PATCH 43/46] fix: orbital inversion stored eigenvalues as a column,
 so that repeating it failed

---
 CADMium/inverter/orbitalinvert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 962cc1a..9cef8b5 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -411,7 +411,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 #Inner range of phi:
                 if np.sum(Nmo) - 1 == 0:
                     subset = np.array(range(np.sum(Nmo) * Nelem))
-                    evals = np.concatenate( (np.array(([[0]])) ), axis=0 )
+                    evals = np.zeros((1,1))
                 else:
                     subset = np.array(range(np.sum(Nmo) - 1)) + np.sum(Nmo) * Nelem
                     evals = np.concatenate( ( X[ subset ], np.array(([[0]])) ), axis=0 )
@@ -421,7 +421,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 for it in range(Nsol):
 
                     isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-                    isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1])]
+                    isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1]), 0]
 
                 for i in isolver:
                     i.setveff(self.vs[:, ispin])
@@ -450,7 +450,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     #Inner range of phi:
     if np.sum(Nmo) - 1 == 0:
         subset = np.array(range(np.sum(Nmo) * Nelem))
-        evals = np.concatenate( (np.array(([[0]])) ), axis=0 )
+        evals = np.zeros((1,1))
     else:
         subset = np.array(range(np.sum(Nmo) - 1)) + np.sum(Nmo) * Nelem
         evals = np.concatenate( ( X[ subset ], np.array(([[0]])) ), axis=0 )
@@ -459,7 +459,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     for it in range(Nsol):
         isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-        isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1])]
+        isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1]), 0]
 
     for it in range(Nsol):
         isolver[it].calc_density()
-- 
2.43.0


From 612dcafd30a4291d4bd2f8d469a552c8c893c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:22 +0000
Subject: [PATCH 44/46] fix: kinetic potential by inversion asked for twice the
 density of each spin

---
 CADMium/partition/vp_kinetic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 1307bbe..94eb055 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -85,8 +85,6 @@ def vp_kinetic(self):
 
         for ispin in range(nspin+1):
             ntarget = self.nf[:, ispin]
-            if self.pol == 2:
-                ntarget = 2 * ntarget
             phi0, e0, vs0 = self.initialguessinvert(ispin)
             phi0 = phi0.flatten("F")[:,None]
             e0   = e0.flatten()
-- 
2.43.0


From f6afddabf6ee3e52dc0d1efeeaa5e77c882a8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:49 +0000
Subject: [PATCH 45/46] fix: initial orbitals of the molecular inversion:
 missing angular momenta, mirrored fragment

---
 CADMium/partition/initialguessinvert.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 9ae016e..5377c35 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -59,37 +59,37 @@ def initialguessinvert(self, ispin=0):
         m   = None
 
         #--> Alpha Kohn Sham object
-        if len( self.KSa.solver[:,ispin]) >= i-1:
+        if len( self.KSa.solver[:,ispin]) >= i:
             phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
             self.KSa.solver[i-1, ispin].hamiltonian()
             H0  = self.KSa.solver[i-1, ispin].H0
-            m   = self.KSb.solver[i-1, ispin].m
+            m   = self.KSa.solver[i-1, ispin].m
 
         if self.ens: # Ensemble?
-            if len( self.KSA.solver[:,ispin]) >= i-1:
+            if len( self.KSA.solver[:,ispin]) >= i:
                 phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1)
                 self.KSA.solver[i-1, ispin].hamiltonian()
                 H0  = self.KSA.solver[i-1, ispin].H0
                 m   = self.KSA.solver[i-1, ispin].m
 
         if self.optPartition.ab_sym is True:
-            phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
-            if self.ens:
-                phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1 )
+            phi = np.append(phi, self.grid.mirror(phi), axis = 1 )
 
         #--> Beta Kohn Sham object
         else:
-            if len(self.KSb.solver) >= i-1:
+            if len(self.KSb.solver) >= i:
                 phi = np.append(phi, self.KSb.solver[i-1, ispin].phi, axis = 1 )
                 if H0 is None:
+                    self.KSb.solver[i-1, ispin].hamiltonian()
                     H0 = self.KSb.solver[i-1, ispin].H0
                 if m is None:
                     m = self.KSb.solver[i-1, ispin].m
             
             if self.ens: # Ensemble?
-                if len(self.KSB.solver) >= i-1:
+                if len(self.KSB.solver) >= i:
                     phi = np.append(phi, self.KSB.solver[i-1, ispin].phi, axis = 1 )
                     if H0 is None:
+                        self.KSB.solver[i-1, ispin].hamiltonian()
                         H0 = self.KSB.solver[i-1, ispin].H0
                     if m is None:
                         m = self.KSB.solver[i-1, ispin].m
-- 
2.43.0


From 97fd8d81ea972b50ea1108becadcdf256df6c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:49 +0000
Subject: [PATCH 46/46] fix: kinetic potential by inversion took both fragments
 to have the same angular momenta

---
 CADMium/partition/vp_kinetic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 94eb055..4d166fa 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -60,6 +60,9 @@ def vp_kinetic(self):
             for j in range(self.Nmo_a.shape[1]):
                 if self.KSa.solver[i,j].homo is not None:
                     ua = np.max( (ua, self.KSa.solver[i,j].homo) )
+
+        for i in range(self.Nmo_b.shape[0]):
+            for j in range(self.Nmo_b.shape[1]):
                 if self.KSb.solver[i,j].homo is not None:
                     ub = np.max( (ub, self.KSb.solver[i,j].homo) )
 
@@ -68,6 +71,9 @@ def vp_kinetic(self):
                 for j in range(self.Nmo_A.shape[1]):
                     if self.KSA.solver[i,j].homo is not None:
                         ua = np.max( (ua, self.KSA.solver[i,j].homo) )
+
+            for i in range(self.Nmo_B.shape[0]):
+                for j in range(self.Nmo_B.shape[1]):
                     if self.KSB.solver[i,j].homo is not None:
                         ub = np.max( (ub, self.KSB.solver[i,j].homo) )
         u = np.max((ua, ub))
-- 
2.43.0

