From 8fb5c9ca4f0b36c37ff2eed94cb9997a06e041eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 01/22] fix: shift_pm_pi wraps with modulus 2*pi (operator
 precedence)

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 2c9c509..8178b3e 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -705,7 +705,7 @@ def shift_pm_pi(phase):
     """
     phase = np.copy(phase)
     
-    phase = ((phase + np.pi) % 2*np.pi) - np.pi
+    phase = ((phase + np.pi) % (2*np.pi)) - np.pi
     
     return phase
 
-- 
2.43.0


From 754515f9eaad584e4ffede94cfa7d3229afbeef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 02/22] fix: harmonic_wise_conditioning with non-float delta
 and 2*Ndof or more extra unknowns

---
 tmdsimpy/utils/harmonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 8178b3e..0c5c875 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -373,8 +373,9 @@ def harmonic_wise_conditioning(X, Ndof, h, delta=1e-4):
         CtoP = CtoP.reshape(-1, order='F')[Ndof*h0:]
         
         if extras:
-            # Trim off extra at end
-            CtoP = CtoP[:(m-2*Ndof)]
+            # Trim off or repeat the minimum for the m extra terms at the end
+            Nharm = Nhc(h)*Ndof
+            CtoP = np.hstack((CtoP[:Nharm], CtoP[Nharm]*np.ones(m)))
         
     # Loop over Harmonics and Potentially increase each harmonic
     haszero = 0
-- 
2.43.0


From 333680786fb4b67057b8df87d82c95be2cca61da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/22] fix: eigs no longer modifies its default or the
 caller's subset_by_index

---
 tmdsimpy/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 2ad936d..0310f20 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -205,7 +205,8 @@ class NonlinearSolver:
 
         """
         
-        subset_by_index[1] = min(subset_by_index[1], K.shape[0]-1)
+        subset_by_index = [subset_by_index[0], 
+                           min(subset_by_index[1], K.shape[0]-1)]
         
         eigvals, eigvecs = scipy.linalg.eigh(K, M, 
                                              subset_by_index=subset_by_index)
-- 
2.43.0


From ce75a246560b1877a32573014b39e1c1eb9f93e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 04/22] fix: shooting integrates the sum of all nonlinear
 forces

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 6747e01..8bcdf20 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -2090,7 +2090,7 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     # State Derivatives
     Udot = V
     
-    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnl) + Fext
+    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnltot) + Fext
     Minv = np.linalg.inv(vib_sys.M)
     Vdot = Minv @ rhs
     
-- 
2.43.0


From 1f7a2cc1d92c66926e007a24ccb1843f54435b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 05/22] fix: conditioned Jacobian scales rows by a vector
 residual scaling

---
 tmdsimpy/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 0310f20..0a55e2c 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -287,7 +287,7 @@ def _conditioned_fun(Xc, CtoP, RPtoC, calc_grad, fun):
         R, dRdXp = fun(Xp)[:2]
         
         Rc = RPtoC * R
-        dRcdXc = RPtoC*dRdXp*CtoP
+        dRcdXc = np.reshape(RPtoC, (-1, 1))*dRdXp*CtoP
         
         return (Rc, dRcdXc)
         
-- 
2.43.0


From b8c0748f0c34d30932ae20d61ad0103cf94efd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 06/22] fix: continuation stops at an unconverged step also
 when output is suppressed

---
 tmdsimpy/continuation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 6ad73dd..a732454 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -837,8 +837,9 @@ class Continuation:
                 
             #} End fracLam loop
             
-            if(not sol['success'] and not silent):
-                print('Stopping since final solution failed to converge.')
+            if not sol['success']:
+                if not silent:
+                    print('Stopping since final solution failed to converge.')
                 break
             
             # Store Iteration and Advance
-- 
2.43.0


From 784f371944e27a9bfb641f99620984290387773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 07/22] fix: continuation keeps output suppressed on later
 calls instead of overwriting the verbose setting

---
 tmdsimpy/continuation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index a732454..7482fad 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -712,9 +712,7 @@ class Continuation:
         
         # Check about removing all output
         silent = self.config['verbose'] < 0
-        
-        if silent:
-            self.config['verbose'] = 0
+        verbose = max(self.config['verbose'], 0)
         
         # Initialize Memory
         XlamP_full = np.zeros((self.config['MaxSteps'], XlamP0.shape[0]))        
@@ -816,7 +814,7 @@ class Continuation:
                 while (not sol['success']) and ds > self.config['dsmin']:
                     ds = max(ds / 2, self.config['dsmin'])
                     
-                    if self.config['verbose']:
+                    if verbose:
                         print(sol['message'])
                         print('Failed to converge with ds=', 2*ds, 
                               '. Retrying with ds=', ds)
@@ -830,7 +828,7 @@ class Continuation:
             
                 # Break out of loop over FracLam values if have converged
                 if sol['success']:
-                    if fracLam_ind > 0 and self.config['verbose']:
+                    if fracLam_ind > 0 and verbose:
                         print('Succeeded with FracLam index {} with value FracLam={}.'\
                               .format(fracLam_ind, self.config['FracLam']))
                     break
@@ -845,7 +843,7 @@ class Continuation:
             # Store Iteration and Advance
             XlamP_full[step] = self.CtoP * XlamC
             
-            if self.config['verbose'] and step % self.config['verbose'] == 0:
+            if verbose and step % verbose == 0:
                 print('Step=', step, ' converged: lam=', XlamP_full[step, -1], \
                       ' ds=', ds, ' and nfev=', sol['nfev'])
             
-- 
2.43.0


From c25658384b5758c0df68c6e37bf99a6d8f3fb534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 08/22] fix: Continuation does not modify the FracLamList
 passed by the user

---
 tmdsimpy/continuation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 7482fad..f5055a8 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -204,6 +204,9 @@ class Continuation:
         for key in config.keys():
             default_config[key] = config[key]
             
+        # Copy so that the list passed in by the user is not modified
+        default_config['FracLamList'] = list(default_config['FracLamList'])
+        
         # Make sure to always start with the value of 'FracLam' that is passed 
         # in before proceeding to the list of other possible values. 
         if len(default_config['FracLamList']) == 0 \
-- 
2.43.0


From 94bb092af0462b3193421953c5be5fad41771e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 09/22] fix: linear_frf_base with several base DOFs moving
 together

---
 tmdsimpy/vibration_system.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8bcdf20..4c8115d 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -997,12 +997,14 @@ class VibrationSystem:
         # modal_fsin = V.T @ f_base_sin.T
         
         # Just using the stiffness/damping matrix column to generate base forces
-        f_base_cos = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[0]\
-                      - self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[1]*w
+        # All base DOFs move together, so their columns are added
+        Kb, Cb = [mat[np.logical_not(base_flag), :][:, base_flag]\
+                      .sum(axis=1, keepdims=True) for mat in (self.K, self.C)]
+
+        f_base_cos = -Kb*Ub[0] - Cb*Ub[1]*w
                      
          
-        f_base_sin = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[1]\
-                      + self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[0]*w
+        f_base_sin = -Kb*Ub[1] + Cb*Ub[0]*w
         
 
         # Now essentially copied from linear_frf
-- 
2.43.0


From ef987d06655c8e418aa7f305393350d70362b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 10/22] fix: linear_frf_base includes inertial coupling between
 free and base DOFs

---
 tmdsimpy/vibration_system.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 4c8115d..14285dc 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -996,15 +996,16 @@ class VibrationSystem:
         # modal_f = V.T @ f_base_cos.T
         # modal_fsin = V.T @ f_base_sin.T
         
-        # Just using the stiffness/damping matrix column to generate base forces
+        # Just using the stiffness/damping/mass matrix columns to generate base forces
         # All base DOFs move together, so their columns are added
-        Kb, Cb = [mat[np.logical_not(base_flag), :][:, base_flag]\
-                      .sum(axis=1, keepdims=True) for mat in (self.K, self.C)]
+        Kb, Cb, Mb = [mat[np.logical_not(base_flag), :][:, base_flag]\
+                          .sum(axis=1, keepdims=True)
+                          for mat in (self.K, self.C, self.M)]
 
-        f_base_cos = -Kb*Ub[0] - Cb*Ub[1]*w
+        f_base_cos = -Kb*Ub[0] - Cb*Ub[1]*w + Mb*Ub[0]*w**2
                      
          
-        f_base_sin = -Kb*Ub[1] + Cb*Ub[0]*w
+        f_base_sin = -Kb*Ub[1] + Cb*Ub[0]*w + Mb*Ub[1]*w**2
         
 
         # Now essentially copied from linear_frf
-- 
2.43.0


From 3e8f2f7b7987f6534810c6131b485f62d7316dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 11/22] fix: set_new_C without arguments leaves the damping
 unchanged as documented

---
 tmdsimpy/vibration_system.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 14285dc..8284734 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -261,9 +261,7 @@ class VibrationSystem:
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
         
-        if C is None:
-            self.C = np.zeros_like(self.M)
-        else:
+        if not (C is None):
             self.C = C
         
         return
-- 
2.43.0


From d933ccda228c7ab191592ed2142eb5c7d6243b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 12/22] fix: set_new_C with a matrix drops the outdated
 proportional coefficients

---
 tmdsimpy/vibration_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8284734..c3cfd64 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -260,6 +260,9 @@ class VibrationSystem:
             
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
+        elif not (C is None):
+            # Previous proportional coefficients do not describe the new C
+            self.ab = None
         
         if not (C is None):
             self.C = C
-- 
2.43.0


From df20d193d38b8c95cec04b4138a3e08da97dada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 13/22] fix: elastic dry friction static force continues from
 the committed tangential force

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 536296b..faab4e8 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -506,7 +506,7 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[1::2].set(jnp.maximum((unl[1::2]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpred = kt*(unl[0::2]-up)
+    fpred = kt*(unl[0::2]-up) + fp
     
     fcurr = jnp.where(fpred < mu*fnl[1::2], fpred, mu*fnl[1::2])
         
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index a521b61..d5c4243 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -517,8 +517,8 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[2::3].set(jnp.maximum((unl[2::3]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpredx = kt*(unl[0::3]-up[0::2])
-    fpredy = kt*(unl[1::3]-up[1::2])
+    fpredx = kt*(unl[0::3]-up[0::2]) + fp[0::2]
+    fpredy = kt*(unl[1::3]-up[1::2]) + fp[1::2]
     
     fcurrx = jnp.where(fpredx < mu*fnl[2::3], fpredx, mu*fnl[2::3])
     fcurry = jnp.where(fpredy < mu*fnl[2::3], fpredy, mu*fnl[2::3])
-- 
2.43.0


From 32127c9b1ad363282a0bdcaf1be632abcaecfb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 14/22] fix: relative step and energy tolerances of
 NonlinearSolverOMP were swapped

---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 5f7ca54..e9c921c 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -788,9 +788,9 @@ def _check_convg(check_list, tol_dict, r_curr, e_curr, u_curr, r_rel, e_rel, u_r
                 'xtol'    : u_curr, 
                 'rtol'    : r_curr,
                 'etol'    : e_curr,
-                'xtol_rel' : e_rel,
+                'xtol_rel' : u_rel,
                 'rtol_rel' : r_rel,
-                'etol_rel' : u_rel,
+                'etol_rel' : e_rel,
                 }
     
     for key in check_list:
-- 
2.43.0


From 46202122fbb5afcbc76b3b49ee29a696d24b677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 15/22] fix: elastic dry friction local_force_history with the
 default scalar u0

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 4 ++--
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index faab4e8..505a83f 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -441,7 +441,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
         
         pars = np.array([self.kt, self.kn, self.mu])
         
@@ -454,7 +454,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index d5c4243..ff4f672 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -452,7 +452,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
         
         pars = np.array([self.kt, self.kn, self.mu])
         
@@ -465,7 +465,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
-- 
2.43.0


From eb2bc524af1db81e76375caf2964d72cf610009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 16/22] fix: local_harmonic_forces for forces initialized from
 the zeroth harmonic (u0=None)

---
 tmdsimpy/postprocess/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 4e2ccbc..58c3a05 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -84,7 +84,7 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
         if nlforce.nl_force_type() == 1:
             # Hysteretic Nonlinearities
             
-            if hasattr(nlforce, 'u0'):
+            if getattr(nlforce, 'u0', None) is not None:
                 # Generally the rough contact nonlinearity should come here,
                 # and other nonlinear friction type elements.    
                 unlth0 = nlforce.u0
-- 
2.43.0


From 0ca49340f3c9fc08a11af6a226faa7e7bde43ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 17/22] fix: VPRNM ROM failed for large modal amplitudes
 (absolute tolerance in the peak check)

---
 tmdsimpy/roms/vprnm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/roms/vprnm.py b/tmdsimpy/roms/vprnm.py
index 0cf3f74..e7c5994 100644
--- a/tmdsimpy/roms/vprnm.py
+++ b/tmdsimpy/roms/vprnm.py
@@ -314,7 +314,9 @@ def constant_h1_displacement(epmc_fund_bb, h_fund, epmc_rhi_bb, h_rhi,
     # this is a check everytime since it is very difficult to write a test
     # for it. This check failed due to bugs with frequency scaling to match
     # the VPRNM frequency.
-    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-12, \
+    # The tolerance is relative since the modal amplitude depends on the units 
+    # and is converted to a log scale and back before this check.
+    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-10*q_S_EPMC, \
         'Superharmonic reconstruction did not recover VPRNM peak.'
     
     h0_rhi = h_rhi[0] == 0
-- 
2.43.0


From 230b21209531ba7783fdbde6ec569eacd23ef64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 18/22] fix: summary callbacks report the static response for
 output harmonic 0

The zeroth harmonic only has one component, so the cosine component of the
next harmonic was included in the printed amplitude.
---
 tmdsimpy/utils/continuation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index a021f3a..6dac9f8 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -769,7 +769,11 @@ def _calc_harmonic_resp(U, w, h, order, output_recov, output_harmonic):
     Nhc_before = hutils.Nhc(h[h < output_harmonic])
     
     amp_cos = output_recov @ U[Nhc_before*Ndof:(Nhc_before+1)*Ndof]
-    amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
+    
+    # Harmonic 0 only has one component, next entries are another harmonic
+    amp_sin = 0.0
+    if output_harmonic != 0:
+        amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
     
     amp = np.sqrt(amp_cos**2 + amp_sin**2) *((output_harmonic*w)**order)
                         
-- 
2.43.0


From 0f3a9e2e9291f7f7e37d2f7310d610220185bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 19/22] fix: start every continuation run from the conditioning
 given by the user

---
 tmdsimpy/continuation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index f5055a8..62ad3ca 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -172,6 +172,7 @@ class Continuation:
                 
             self.setCtoPto1 = False
             self.CtoP = np.abs(CtoP)
+            self.CtoP_user = np.copy(self.CtoP)
             
         if RPtoC is None:
             # Needed vector for using RPtoC in initial solve
@@ -181,6 +182,7 @@ class Continuation:
             self.RPtoC = 1
         else:
             self.RPtoC = RPtoC
+            self.RPtoC_user = RPtoC
             self.setRPtoCto1 = False
             
         default_config={'FracLam' : 0.5, 
@@ -726,11 +728,17 @@ class Continuation:
         
         
         # Conditioning up front for static solution
+        # Always start from the conditioning of the user since both of these 
+        # are updated during a continuation run.
         if self.setCtoPto1:
             self.CtoP = np.ones_like(XlamP0)
+        else:
+            self.CtoP = np.copy(self.CtoP_user)
             
         if self.setRPtoCto1:
             self.RPtoC = np.ones_like(XlamP0)
+        else:
+            self.RPtoC = self.RPtoC_user
             
         # Make sure that RPtoC is initially a vector for use in 
         # initial solution
-- 
2.43.0


From 1834f4e38a131888b486fcbd1bd16c763f823dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:59 +0000
Subject: [PATCH 20/22] fix: per-call xtol of NonlinearSolverOMP stayed in the
 configuration when the residual function raised

---
 tmdsimpy/jax/solvers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index e9c921c..08cc3e8 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -534,10 +534,10 @@ class NonlinearSolverOMP(NonlinearSolver):
         if verbose is None:
             verbose = self.config['verbose']
             
-        # Save out the setting from xtol in config, then will overwrite
-        # here to update to be used for this call. 
-        xtol_setting = self.config['xtol'] 
-        self.config['xtol'] = xtol
+        # Tolerances for this call. The config of the solver is not changed, so
+        # xtol is not kept for later calls, even if fun raises an exception.
+        tol_config = dict(self.config)
+        tol_config['xtol'] = xtol
         
         max_iter = self.config['max_steps']
         
@@ -699,7 +699,7 @@ class NonlinearSolverOMP(NonlinearSolver):
                               curr_iter))
             
             # Check for final convergence
-            converged = _check_convg(self.config['stopping_tol'], self.config, 
+            converged = _check_convg(self.config['stopping_tol'], tol_config, 
                                      r_curr, e_curr, u_curr, 
                                      r_curr/r0, e_curr/e0, u_curr/u0)
             if converged:
@@ -729,7 +729,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         if no_nan_vals and not sol['success']:
             
             # Check convergence against the second set of tolerances
-            converged = _check_convg(self.config['accepting_tol'], self.config, 
+            converged = _check_convg(self.config['accepting_tol'], tol_config, 
                                  r_curr, e_curr, u_curr, 
                                  r_curr/r0, e_curr/e0, u_curr/u0)
             
@@ -744,9 +744,6 @@ class NonlinearSolverOMP(NonlinearSolver):
         if(verbose):
             print(sol['message'], ' Nfev=', sol['nfev'], ' Njev=', sol['njev'])
         
-        # Set xtol in config back to the value passed in. 
-        self.config['xtol'] = xtol_setting
-        
         return X, R, dRdX, sol
     
     
-- 
2.43.0


From af510679abe5c39d3634df16260848dd930d06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:48 +0000
Subject: [PATCH 21/22] fix: linear FRF of systems with rigid body modes was
 not finite

The modal damping term was formed as 2*zeta*wn with zeta = ab[0]/wn/2 + ...,
which divides by the zero natural frequency of rigid body modes (or takes the
square root of a slightly negative eigenvalue). Use ab[0] + ab[1]*wn**2
directly, in linear_frf and linear_frf_base.
---
 tmdsimpy/vibration_system.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index c3cfd64..7cd284e 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -623,25 +623,24 @@ class VibrationSystem:
             
         # Calculate Mode Shapes:
         wnsq,V = solver.eigs(self.K, self.M, subset_by_index=[0, neigs-1] )
-        wn = np.sqrt(wnsq)
 
         # Modal Forcing:
         modal_f = V.T @ Fl
         modal_fsin = V.T @ Flsin
-        modal_z = self.ab[0]/wn/2 +  self.ab[1]*wn/2
+        modal_c = self.ab[0] + self.ab[1]*wnsq # 2*zeta*wn, finite for wn=0
         
         # Modes in second direction
         modal_f = np.atleast_2d(modal_f).T
         modal_fsin = np.atleast_2d(modal_fsin).T
-        modal_z = np.atleast_2d(modal_z).T
-        wn2d = np.atleast_2d(wn).T
+        modal_c = np.atleast_2d(modal_c).T
+        wnsq2d = np.atleast_2d(wnsq).T
         
         # Rederived by Hand:
-        qcos = ((wn2d**2 - w**2)*modal_f - (2*wn2d*w*modal_z)*modal_fsin)\
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qcos = ((wnsq2d - w**2)*modal_f - (w*modal_c)*modal_fsin)\
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
-        qsin = ((2*wn2d*w*modal_z)*modal_f + (wn2d**2 - w**2)*modal_fsin) \
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qsin = ((w*modal_c)*modal_f + (wnsq2d - w**2)*modal_fsin) \
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
         Xw = np.vstack((V @ qcos, V @ qsin, w)).T
         
@@ -987,7 +986,6 @@ class VibrationSystem:
         
         # Calculate Mode Shapes:
         wnsq,V = solver.eigs(Krel, Mrel, subset_by_index=[0, neigs-1] )
-        wn = np.sqrt(wnsq)
 
         # # Base Excitation as real force (based on relative coords)
         # f_base_cos = -(Mrel.sum(axis=0) * Ub[0]) * w.reshape(-1,1)**2
@@ -1013,11 +1011,11 @@ class VibrationSystem:
         # Modal Forcing:
         modal_f = V.T @ f_base_cos
         modal_fsin = V.T @ f_base_sin
-        modal_z = self.ab[0]/wn/2 +  self.ab[1]*wn/2
+        modal_c = self.ab[0] + self.ab[1]*wnsq # 2*zeta*wn, finite for wn=0
         
         # Modes in second direction
-        modal_z = np.atleast_2d(modal_z).T
-        wn2d = np.atleast_2d(wn).T
+        modal_c = np.atleast_2d(modal_c).T
+        wnsq2d = np.atleast_2d(wnsq).T
         
         #######################
         # # From Inman (SDOF):
@@ -1032,11 +1030,11 @@ class VibrationSystem:
         
         #######################
         # Rederived by Hand:
-        qcos = ((wn2d**2 - w**2)*modal_f - (2*wn2d*w*modal_z)*modal_fsin)\
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qcos = ((wnsq2d - w**2)*modal_f - (w*modal_c)*modal_fsin)\
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
-        qsin = ((2*wn2d*w*modal_z)*modal_f + (wn2d**2 - w**2)*modal_fsin) \
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qsin = ((w*modal_c)*modal_f + (wnsq2d - w**2)*modal_fsin) \
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
         # Stack output plus transform back from relative to absolute coordinates
         
-- 
2.43.0


From 0f942f2fbadd3429882b0fb0a60375fd8c9c9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:23 +0000
Subject: [PATCH 22/22] fix: static and shooting residuals evaluated cubic
 dampers with displacements

CubicDamping.force takes velocities, but static_res and the shooting state
space passed displacements, so that a damper acted as a cubic spring.
---
 tmdsimpy/nlforces/cubic_damping.py   |  2 ++
 tmdsimpy/nlforces/nonlinear_force.py |  3 +++
 tmdsimpy/vibration_system.py         | 14 +++++++++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/nlforces/cubic_damping.py b/tmdsimpy/nlforces/cubic_damping.py
index 68e039b..f66dcbe 100644
--- a/tmdsimpy/nlforces/cubic_damping.py
+++ b/tmdsimpy/nlforces/cubic_damping.py
@@ -24,6 +24,8 @@ class CubicDamping(InstantaneousForce):
     
     """
     
+    velocity_force = True
+    
     def __init__(self, Q, T, calpha):
         
         self.Q = Q
diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 6ad59e8..c863433 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -17,6 +17,9 @@ class NonlinearForce:
     
     """
     
+    # True if the input of `force` is global velocities (not displacements).
+    velocity_force = False
+    
     def __init__(self, Q, T):
         
         self.Q = Q
diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 7cd284e..c5cb4fa 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -309,6 +309,9 @@ class VibrationSystem:
         
         
         for nlforce in self.nonlinear_forces:
+            if getattr(nlforce, 'velocity_force', False):
+                continue # velocities are zero for static analysis
+            
             Fnl_curr, dFnldU_curr = nlforce.force(U)
             
             Fnl += Fnl_curr
@@ -2078,13 +2081,18 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     
     Fnltot = np.zeros_like(U)
     dFnldUtot = np.zeros((Ndof, Ndof))
+    dFnldVtot = np.zeros((Ndof, Ndof))
     
     # Internal Nonlinear Forces
     for nlforce in vib_sys.nonlinear_forces:
-        Fnl, dFdU = nlforce.force(U)
+        if getattr(nlforce, 'velocity_force', False):
+            Fnl, dFdV = nlforce.force(V)
+            dFnldVtot += dFdV
+        else:
+            Fnl, dFdU = nlforce.force(U)
+            dFnldUtot += dFdU
         
         Fnltot += Fnl
-        dFnldUtot += dFdU
         
     # External Forcing
     Fext = Fl[:Ndof]*np.cos(omega*t) + Fl[Ndof:2*Ndof]*np.sin(omega*t)
@@ -2102,7 +2110,7 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     
     dg_dz = np.vstack((np.hstack(( np.zeros((Ndof, Ndof)), np.eye(Ndof) )), \
                       np.hstack(( Minv @ (-vib_sys.K -dFnldUtot), \
-                                  Minv @ (-vib_sys.C))) ))
+                                  Minv @ (-vib_sys.C - dFnldVtot))) ))
         
     dUVdUV0_dot = dg_dz @ dUVdUV0
     
-- 
2.43.0

