From 725f73c82ccaee1f67a9a0d3e717a09fa94f5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 01/67] fix: onwd_evo returned the forward evolution for Qobj
 operators

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f48b916..95add78 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1385,7 +1385,7 @@ class Dynamics(object):
         if self._onwd_evo is not None:
             if self._onwd_evo_qobj is None:
                 if self.oper_dtype == Qobj:
-                    self._onwd_evo_qobj = self._fwd_evo
+                    self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
                         Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
-- 
2.43.0


From 2f6cd74fcac12002851a9a96ae97c745ee78c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 02/67] fix: phase_option SU failed for ndarray operators
 (scalar overlap)

---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 9b776a0..206c80b 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -378,7 +378,7 @@ class FidCompUnitary(FidelityComputer):
                 norm = _trace(A)
             else:
                 raise TypeError("Cannot compute trace (not square)")
-        except AttributeError:
+        except (AttributeError, IndexError):
             # assume input is already scalar and hence assumed
             # to be the prenormalised scalar value, e.g. fidelity
             norm = A
-- 
2.43.0


From 6b1afdeaa53f4484f47a4b9dde6d3b9a3fb21437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 03/67] fix: keep a copy of the control amplitudes, the caller
 may reuse its array

---
 src/qutip_qtrl/tslotcomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 18c1473..3124490 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -216,7 +216,8 @@ class TSlotCompUpdateAll(TimeslotComputer):
             dyn.stats.num_timeslot_changes += ecs.num_timeslots_changed
 
         if changed:
-            dyn.ctrl_amps = new_amps
+            # keep a copy, as the caller may reuse its array
+            dyn.ctrl_amps = np.array(new_amps)
             dyn.flag_system_changed()
             return False
         else:
-- 
2.43.0


From 5c59a0cb8da6d827e44c7e27ab2d679a0c0f258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 04/67] fix: DEBUG_INTENSE logging failed in
 recompute_evolution

---
 src/qutip_qtrl/tslotcomp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 3124490..a641b80 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -282,9 +282,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
                         if self.log_level <= logging.DEBUG_INTENSE:
                             logger.log(
                                 logging.DEBUG_INTENSE,
-                                "propagator {}:\n{:10.3g}".format(
-                                    k, self._prop[k]
-                                ),
+                                "propagator {}:\n{}".format(k, dyn._prop[k]),
                             )
                     else:
                         dyn._prop_grad[k, j] = prop_comp._compute_prop_grad(
-- 
2.43.0


From b73e55d4379e4bf0a013eb19f8331c08a46688bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 05/67] fix: symplectic dynamics failed with Qobj operators
 (phase built before operator type known)

---
 src/qutip_qtrl/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 95add78..173b1d4 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -734,10 +734,10 @@ class Dynamics(object):
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
+        # The operator type must be known before the phase is initialised
+        self._set_memory_optimizations()
         # Set the phase application method
         self._init_phase()
-
-        self._set_memory_optimizations()
         if self.sparse_eigen_decomp and self.sys_shape[0] <= 2:
             raise ValueError(
                 "Single qubit pulse optimization dynamics cannot use sparse"
-- 
2.43.0


From 44b0fbb4a5a6c485485894aefe192264f787bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 06/67] fix: AUG_MAT propagator computer failed with Qobj
 operators

---
 src/qutip_qtrl/propcomp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index ee422fd..0080814 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -336,10 +336,10 @@ class PropCompAugMat(PropagatorComputer):
         dg = dyn._get_phased_dyn_gen(k)
 
         if dyn.oper_dtype == Qobj:
-            A = dg.data * dyn.tau[k]
-            E = dyn._get_phased_ctrl_dyn_gen(k, j).data * dyn.tau[k]
-            Z = sp.csr_matrix(dg.data.shape)
-            aug = Qobj(sp.vstack([sp.hstack([A, E]), sp.hstack([Z, A])]))
+            A = dg.full() * dyn.tau[k]
+            E = dyn._get_phased_ctrl_dyn_gen(k, j).full() * dyn.tau[k]
+            Z = np.zeros(dg.shape)
+            aug = Qobj(np.vstack([np.hstack([A, E]), np.hstack([Z, A])]))
         else:
             A = dg * dyn.tau[k]
             E = dyn._get_phased_ctrl_dyn_gen(k, j) * dyn.tau[k]
@@ -362,7 +362,7 @@ class PropCompAugMat(PropagatorComputer):
         aug = self._get_aug_mat(k, j)
 
         if dyn.oper_dtype == Qobj:
-            aug_exp = aug.expm()
+            aug_exp = aug.expm().full()
             prop_grad = Qobj(
                 aug_exp[: dg.shape[0], dg.shape[1] :], dims=dyn.dyn_dims
             )
-- 
2.43.0


From 6c12538fe6b75d4c701809581a12d5a21917cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 07/67] fix: approximate trace-difference gradient composed the
 evolution in the wrong order

---
 src/qutip_qtrl/fidcomp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 206c80b..b59fcdd 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -766,9 +766,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                 fwd_evo = dyn._fwd_evo[k]
                 prop_eps = prop_comp._compute_diff_prop(k, j, self.epsilon)
                 if dyn.oper_dtype == Qobj:
-                    evo_final_eps = fwd_evo * prop_eps
+                    evo_final_eps = prop_eps * fwd_evo
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps * dyn._onwd_evo[k + 1]
+                        evo_final_eps = dyn._onwd_evo[k + 1] * evo_final_eps
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
@@ -776,9 +776,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                         (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
                     )
                 else:
-                    evo_final_eps = fwd_evo.dot(prop_eps)
+                    evo_final_eps = prop_eps.dot(fwd_evo)
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps.dot(dyn._onwd_evo[k + 1])
+                        evo_final_eps = dyn._onwd_evo[k + 1].dot(evo_final_eps)
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     fid_err_eps = self.scale_factor * np.real(
                         _trace(evo_f_diff_eps.conj().T.dot(evo_f_diff_eps))
-- 
2.43.0


From 2274da9e0b229c700d4b57689c24250d28176674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 08/67] fix: onwd_evo failed for state evolution (dims of the
 state instead of the generator)

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 173b1d4..8b11dd7 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1388,7 +1388,7 @@ class Dynamics(object):
                     self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
-                        Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
+                        Qobj(dg, dims=self.dyn_dims) for dg in self._onwd_evo
                     ]
         return self._onwd_evo_qobj
 
-- 
2.43.0


From 3bb4cb1e20ac3868f9df781ad5581346cd1ffed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 09/67] fix: trace-difference fidelity failed for states with
 Qobj operators

---
 src/qutip_qtrl/fidcomp.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index b59fcdd..91add13 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -589,6 +589,13 @@ class FidCompTraceDiff(FidelityComputer):
                     "Scale factor calculated as {}".format(self.scale_factor)
                 )
 
+    def _qobj_overlap(self, A, B):
+        """tr(A.dag() * B), where the product is a scalar for kets"""
+        ovlp = A.dag() * B
+        if isinstance(ovlp, Qobj):
+            ovlp = ovlp.tr()
+        return ovlp
+
     def get_fid_err(self):
         """
         Gets the absolute error in the fidelity
@@ -614,7 +621,7 @@ class FidCompTraceDiff(FidelityComputer):
             # np.real, just avoids the complex casting warning
             if dyn.oper_dtype == Qobj:
                 self.fid_err = self.scale_factor * np.real(
-                    (evo_f_diff.dag() * evo_f_diff).tr()
+                    self._qobj_overlap(evo_f_diff, evo_f_diff)
                 )
             else:
                 self.fid_err = self.scale_factor * np.real(
@@ -695,7 +702,7 @@ class FidCompTraceDiff(FidelityComputer):
                     g = (
                         -2
                         * self.scale_factor
-                        * np.real((evo_f_diff.dag() * evo_grad).tr())
+                        * np.real(self._qobj_overlap(evo_f_diff, evo_grad))
                     )
                 else:
                     evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
@@ -773,7 +780,7 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
                     fid_err_eps = self.scale_factor * np.real(
-                        (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
+                        self._qobj_overlap(evo_f_diff_eps, evo_f_diff_eps)
                     )
                 else:
                     evo_final_eps = prop_eps.dot(fwd_evo)
-- 
2.43.0


From c2df8b24f43e15ff9793b817d46883b25df01dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 10/67] fix: onto_evo failed for state evolution with ndarray
 operators

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 8b11dd7..42ba56e 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1409,9 +1409,10 @@ class Dynamics(object):
                     self._onto_evo_qobj = self._onto_evo
                 else:
                     self._onto_evo_qobj = []
+                    rev_dims = [self.sys_dims[1], self.sys_dims[0]]
                     for k in range(0, self.num_tslots):
                         self._onto_evo_qobj.append(
-                            Qobj(self._onto_evo[k], dims=self.sys_dims)
+                            Qobj(self._onto_evo[k], dims=rev_dims)
                         )
                     self._onto_evo_qobj.append(self.onto_evo_target)
 
-- 
2.43.0


From 7bee86082c7564a3502616a03b79095a7c5e61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 11/67] fix: onto_evo_target stayed the old one after the
 target was changed

---
 src/qutip_qtrl/dynamics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 42ba56e..71113fb 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -810,6 +810,7 @@ class Dynamics(object):
             # Onward propagation overlap with inverse target
             self._onto_evo = [object for x in range(self.num_tslots + 1)]
             self._onto_evo[self.num_tslots] = self._get_onto_evo_target()
+            self._onto_evo_target_qobj = None
 
         if isinstance(self.prop_computer, propcomp.PropCompDiag):
             self._create_decomp_lists()
-- 
2.43.0


From 5c95baf153a269e4766910127a83a4d3bb10e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 12/67] fix: time dependent controls not recognised unless
 num_ctrls was read first

---
 src/qutip_qtrl/dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 71113fb..7344be5 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -724,6 +724,8 @@ class Dynamics(object):
             _check_drift_dyn_gen(self.drift_dyn_gen)
         if not self._ctrl_dyn_gen_checked:
             self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        # Sets time_depend_ctrl_dyn_gen, which is needed below
+        self._get_num_ctrls()
 
         if not isinstance(self.initial, Qobj):
             raise TypeError("initial must be a Qobj")
@@ -1136,6 +1138,7 @@ class Dynamics(object):
             self.time_depend_ctrl_dyn_gen = True
         else:
             self._num_ctrls = len(self.ctrl_dyn_gen)
+            self.time_depend_ctrl_dyn_gen = False
 
         return self._num_ctrls
 
-- 
2.43.0


From 9330c43b417a75b6b91e6466b28ffbe63caa677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 13/67] fix: result.fidelity was never set

---
 src/qutip_qtrl/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index dae2e93..a2e4a2d 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -782,6 +782,8 @@ class Optimizer(object):
         result.num_fid_func_calls = self.num_fid_func_calls
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
+        if hasattr(dyn.fid_computer, "get_fidelity"):
+            result.fidelity = dyn.fid_computer.get_fidelity()
         result.grad_norm_final = dyn.fid_computer.grad_norm
         result.final_amps = dyn.ctrl_amps
         final_evo = dyn.full_evo
-- 
2.43.0


From fc9ba1da73c8ae772245826c4b46279a10f072dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 14/67] fix: converged BFGS run reported 'not started yet',
 precision loss reported as gradient minimum

---
 src/qutip_qtrl/optimizer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index a2e4a2d..d7c3b2f 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -876,12 +876,18 @@ class OptimizerBFGS(Optimizer):
 
             amps = self._get_ctrl_amps(optim_var_vals)
             dyn.update_ctrl_amps(amps)
-            if warn == 1:
+            if warn == 0:
+                result.grad_norm_min_reached = True
+                result.termination_reason = "Gradient normal minimum reached"
+            elif warn == 1:
                 result.max_iter_exceeded = True
                 result.termination_reason = "Iteration count limit reached"
             elif warn == 2:
-                result.grad_norm_min_reached = True
-                result.termination_reason = "Gradient normal minimum reached"
+                result.termination_reason = (
+                    "Gradient and/or function calls not changing"
+                )
+            else:
+                result.termination_reason = "Unknown (warn={})".format(warn)
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From 4a8ff8a71290d8fabd2e19aa1241168f60e2a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 15/67] fix: L-BFGS-B convergence on error reduction reported
 as gradient minimum

---
 src/qutip_qtrl/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index d7c3b2f..a7d6207 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -1030,7 +1030,10 @@ class OptimizerLBFGSB(Optimizer):
             dyn.update_ctrl_amps(amps)
             warn = res_dict["warnflag"]
             if warn == 0:
-                result.grad_norm_min_reached = True
+                # convergence is on the gradient or on the error reduction
+                result.grad_norm_min_reached = "GRADIENT" in str(
+                    res_dict["task"]
+                )
                 result.termination_reason = "function converged"
             elif warn == 1:
                 result.max_iter_exceeded = True
-- 
2.43.0


From 83a431a40543ce940971a9c5feacc4de82d5fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 16/67] fix: explicit bounds ignored by L-BFGS-B, stale bounds
 kept for later runs by the other methods

---
 src/qutip_qtrl/optimizer.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index a7d6207..d070abc 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -499,7 +499,7 @@ class Optimizer(object):
         cfg = self.config
         dyn = self.dynamics
         n_ctrls = dyn.num_ctrls
-        self.bounds = []
+        bounds = []
         for t in range(dyn.num_tslots):
             for c in range(n_ctrls):
                 if isinstance(self.amp_lbound, list):
@@ -516,7 +516,9 @@ class Optimizer(object):
                 if ub is not None and np.isinf(ub):
                     ub = None
 
-                self.bounds.append((lb, ub))
+                bounds.append((lb, ub))
+
+        return bounds
 
     def run_optimization(self, term_conds=None):
         """
@@ -558,8 +560,11 @@ class Optimizer(object):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        if self.bounds is None:
-            self._build_bounds_list()
+        # Bounds not set by the user are built anew for each run, as the
+        # amplitude bounds may have been changed since the last one
+        bounds = self.bounds
+        if bounds is None:
+            bounds = self._build_bounds_list()
 
         self._build_method_options()
 
@@ -584,7 +589,7 @@ class Optimizer(object):
                 self.optim_var_vals,
                 method=self.method,
                 jac=jac,
-                bounds=self.bounds,
+                bounds=bounds,
                 options=self.method_options,
                 callback=self.iter_step_callback_func,
             )
@@ -978,7 +983,11 @@ class OptimizerLBFGSB(Optimizer):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 1
 
-        bounds = self._build_bounds_list()
+        # Bounds not set by the user are built anew for each run, as the
+        # amplitude bounds may have been changed since the last one
+        bounds = self.bounds
+        if bounds is None:
+            bounds = self._build_bounds_list()
         result = self._create_result()
 
         if self.approx_grad:
@@ -1018,7 +1027,7 @@ class OptimizerLBFGSB(Optimizer):
                 fprime=fprime,
                 approx_grad=self.approx_grad,
                 callback=self.iter_step_callback_func,
-                bounds=self.bounds,
+                bounds=bounds,
                 m=m,
                 factr=factr,
                 pgtol=term_conds.min_gradient_norm,
-- 
2.43.0


From bf9457d968532b83ce49ed8344543bab0b92b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 17/67] fix: limits of the first run were passed to the
 minimiser in later runs

---
 src/qutip_qtrl/optimizer.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index d070abc..5670c5a 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -441,11 +441,13 @@ class Optimizer(object):
         It assumes that apply_method_params has already been run and
         hence the method_options attribute may already contain items.
         These values will NOT be overridden
+        Note that the dictionary is built anew for each run, as the
+        attributes may have been changed since the last one
         """
         tc = self.termination_conditions
         if self.method_options is None:
             self.method_options = {}
-        mo = self.method_options
+        mo = dict(self.method_options)
 
         if "max_metric_corr" in mo and "maxcor" not in mo:
             mo["maxcor"] = mo["max_metric_corr"]
@@ -566,7 +568,7 @@ class Optimizer(object):
         if bounds is None:
             bounds = self._build_bounds_list()
 
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         result = self._create_result()
 
@@ -590,7 +592,7 @@ class Optimizer(object):
                 method=self.method,
                 jac=jac,
                 bounds=bounds,
-                options=self.method_options,
+                options=method_options,
                 callback=self.iter_step_callback_func,
             )
 
@@ -973,7 +975,7 @@ class OptimizerLBFGSB(Optimizer):
         dyn = self.dynamics
         cfg = self.config
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
@@ -995,19 +997,19 @@ class OptimizerLBFGSB(Optimizer):
         else:
             fprime = self.fid_err_grad_wrapper
 
-        if "accuracy_factor" in self.method_options:
-            factr = self.method_options["accuracy_factor"]
-        elif "ftol" in self.method_options:
-            factr = self.method_options["ftol"]
+        if "accuracy_factor" in method_options:
+            factr = method_options["accuracy_factor"]
+        elif "ftol" in method_options:
+            factr = method_options["ftol"]
         elif hasattr(term_conds, "accuracy_factor"):
             factr = term_conds.accuracy_factor
         else:
             factr = 1e7
 
-        if "max_metric_corr" in self.method_options:
-            m = self.method_options["max_metric_corr"]
-        elif "maxcor" in self.method_options:
-            m = self.method_options["maxcor"]
+        if "max_metric_corr" in method_options:
+            m = method_options["max_metric_corr"]
+        elif "maxcor" in method_options:
+            m = method_options["maxcor"]
         elif hasattr(self, "max_metric_corr"):
             m = self.max_metric_corr
         else:
-- 
2.43.0


From ddb317011393a8d6d85ee01415ed76112d54960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 18/67] fix: iteration statistics started at one and missed the
 iteration ended by the wall time

---
 src/qutip_qtrl/optimizer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 5670c5a..60ad445 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -742,6 +742,9 @@ class Optimizer(object):
         Terminate if this has exceeded the maximum allowed time
         """
         self.num_iter += 1
+        # *** update stats ***
+        if self.stats is not None:
+            self.stats.num_iter = self.num_iter
 
         if self.log_level <= logging.DEBUG:
             logger.debug("Iteration callback {}".format(self.num_iter))
@@ -760,10 +763,6 @@ class Optimizer(object):
         if wall_time > tc.max_wall_time:
             raise errors.MaxWallTimeTerminate()
 
-        # *** update stats ***
-        if self.stats is not None:
-            self.stats.num_iter = self.num_iter
-
     def _interpret_term_exception(self, except_term, result):
         """
         Update the result object based on the exception that occurred
@@ -845,7 +844,7 @@ class OptimizerBFGS(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         if self.approx_grad:
             fprime = None
@@ -983,7 +982,7 @@ class OptimizerLBFGSB(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         # Bounds not set by the user are built anew for each run, as the
         # amplitude bounds may have been changed since the last one
@@ -1251,7 +1250,7 @@ class OptimizerCrabFmin(OptimizerCrab):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         result = self._create_result()
 
-- 
2.43.0


From c58771b27d28556240c8d5736bd923291c1f5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 19/67] fix: operators in dynamics dump files (onward and onto
 sections held the forward evolution, last entries and Qobj missing)

---
 src/qutip_qtrl/dump.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index f86d900..1f0178b 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -12,6 +12,8 @@ import os
 import copy
 import numpy as np
 
+from qutip import Qobj
+
 # QuTiP control modules
 import qutip_qtrl.io as qtrlio
 
@@ -745,6 +747,13 @@ class DynamicsDump(Dump):
                 logger.info("Dynamics dump saved to {}".format(self.dump_dir))
 
 
+def _save_oper(f, oper, delimiter):
+    """Write an operator (Qobj or ndarray) to the (byte mode) stream"""
+    if isinstance(oper, Qobj):
+        oper = oper.full()
+    np.savetxt(f, oper, delimiter=delimiter)
+
+
 class DumpItem:
     """
     An item in a dump list
@@ -841,7 +850,7 @@ class EvoCompDumpItem(DumpItem):
                         "dynamics generator for timeslot {}\n".format(k)
                     )
                 )
-                np.savetxt(f, self.dyn_gen[k], delimiter=dump.data_sep)
+                _save_oper(f, dg, dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -856,9 +865,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-prop.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for prop in self.prop:
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
-                np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
+                _save_oper(f, prop, dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -881,9 +890,7 @@ class EvoCompDumpItem(DumpItem):
                             "control {}\n".format(k, j)
                         )
                     )
-                    np.savetxt(
-                        f, self.prop_grad[k, j], delimiter=dump.data_sep
-                    )
+                    _save_oper(f, self.prop_grad[k, j], dump.data_sep)
             if closef:
                 f.close()
 
@@ -897,9 +904,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-fwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.fwd_evo:
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                _save_oper(f, evo, dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -914,9 +921,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.onwd_evo:
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                _save_oper(f, evo, dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -931,11 +938,11 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onto_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.onto_evo:
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                _save_oper(f, evo, dump.data_sep)
                 k += 1
             if closef:
                 f.close()
-- 
2.43.0


From 9cc487c52b7f75762b6fc80eda14c6c9abde7775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 20/67] fix: dumping level CUSTOM raised ValueError

---
 src/qutip_qtrl/dump.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 1f0178b..faa2c45 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -139,8 +139,8 @@ class Dump:
 
     @level.setter
     def level(self, value):
-        self._level = value
-        self._apply_level()
+        self._apply_level(value)
+        self._level = value.upper()
 
     @property
     def dump_any(self):
@@ -289,15 +289,16 @@ class OptimDump(Dump):
         return self.dump_fid_err and self.dump_grad_norm and self.dump_grad
 
     def _apply_level(self, level=None):
-        if level is None:
+        reset = level is None
+        if reset:
             level = self._level
         if not isinstance(level, str):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if self._level == "CUSTOM" and not reset:
                 # dumping level has not changed keep the same specific config
-                pass
+                return
             else:
                 # Switching to custom, start from SUMMARY
                 level = "SUMMARY"
@@ -583,16 +584,17 @@ class DynamicsDump(Dump):
 
     def _apply_level(self, level=None):
         dyn = self.parent
-        if level is None:
+        reset = level is None
+        if reset:
             level = self._level
 
         if not isinstance(level, str):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if self._level == "CUSTOM" and not reset:
                 # dumping level has not changed keep the same specific config
-                pass
+                return
             else:
                 # Switching to custom, start from SUMMARY
                 level = "SUMMARY"
-- 
2.43.0


From a5cf3e64634ccd163e0d0ca417e0e2acbad3138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 21/67] fix: dump files kept their first path after the
 directory or names were changed, relative summary file ignored the directory

---
 src/qutip_qtrl/dump.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index faa2c45..f449477 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -195,11 +195,11 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File name base must be a string")
         self._fname_base = value
-        self._summary_file_path = None
+        self._summary_file_specified = False
 
     @property
     def summary_file(self):
-        if self._summary_file_path is None:
+        if not self._summary_file_specified:
             fname = "{}-summary.{}".format(
                 self._fname_base, self.dump_file_ext
             )
@@ -211,7 +211,7 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File path must be a string")
         self._summary_file_specified = True
-        if os.path.abspath(value):
+        if os.path.isabs(value):
             self._summary_file_path = value
         elif "~" in value:
             self._summary_file_path = os.path.expanduser(value)
@@ -269,8 +269,6 @@ class OptimDump(Dump):
         self.grad_norm_log = []
         self.grad_log = []
         self._fname_base = "optimdump"
-        self._fid_err_file = None
-        self._grad_norm_file = None
 
     def clear(self):
         del self.iter_summary[:]
@@ -342,12 +340,8 @@ class OptimDump(Dump):
 
     @property
     def fid_err_file(self):
-        if self._fid_err_file is None:
-            fname = "{}-fid_err_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._fid_err_file = os.path.join(self.dump_dir, fname)
-        return self._fid_err_file
+        fname = "{}-fid_err_log.{}".format(self.fname_base, self.dump_file_ext)
+        return os.path.join(self.dump_dir, fname)
 
     def update_fid_err_log(self, fid_err):
         """add an entry to the fid_err log"""
@@ -363,12 +357,8 @@ class OptimDump(Dump):
 
     @property
     def grad_norm_file(self):
-        if self._grad_norm_file is None:
-            fname = "{}-grad_norm_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._grad_norm_file = os.path.join(self.dump_dir, fname)
-        return self._grad_norm_file
+        fname = "{}-grad_norm_log.{}".format(self.fname_base, self.dump_file_ext)
+        return os.path.join(self.dump_dir, fname)
 
     def update_grad_norm_log(self, grad_norm):
         """add an entry to the grad_norm log"""
-- 
2.43.0


From dc00bafea8291814371c868fa42180b428e56c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 22/67] fix: supplying unchanged amplitudes lost the numbers of
 changes of the pending evolution record

---
 src/qutip_qtrl/tslotcomp.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index a641b80..ed08374 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -176,19 +176,15 @@ class TSlotCompUpdateAll(TimeslotComputer):
         changed = False
         dyn = self.parent
 
-        if dyn.stats or dyn.dump:
-            if self.evo_comp_summary:
-                self.evo_comp_summary.reset()
-            else:
-                self.evo_comp_summary = EvoCompSummary()
+        if (dyn.stats or dyn.dump) and not self.evo_comp_summary:
+            self.evo_comp_summary = EvoCompSummary()
         ecs = self.evo_comp_summary
 
         if dyn.ctrl_amps is None:
             # Flag fidelity and gradients as needing recalculation
             changed = True
-            if ecs:
-                ecs.num_amps_changed = len(new_amps.flat)
-                ecs.num_timeslots_changed = new_amps.shape[0]
+            num_amps_changed = len(new_amps.flat)
+            num_timeslots_changed = new_amps.shape[0]
         else:
             # create boolean array with same shape as ctrl_amps
             # True where value in new_amps differs, otherwise false
@@ -196,24 +192,27 @@ class TSlotCompUpdateAll(TimeslotComputer):
             if np.any(changed_amps):
                 # Flag fidelity and gradients as needing recalculation
                 changed = True
+                num_amps_changed = changed_amps.sum()
+                num_timeslots_changed = np.any(changed_amps, 1).sum()
                 if self.log_level <= logging.DEBUG:
                     logger.debug(
-                        "{} amplitudes changed".format(changed_amps.sum())
+                        "{} amplitudes changed".format(num_amps_changed)
                     )
 
-                if ecs:
-                    ecs.num_amps_changed = changed_amps.sum()
-                    ecs.num_timeslots_changed = np.any(changed_amps, 1).sum()
-
             else:
                 if self.log_level <= logging.DEBUG:
                     logger.debug("No amplitudes changed")
 
+        if changed and ecs:
+            ecs.reset()
+            ecs.num_amps_changed = num_amps_changed
+            ecs.num_timeslots_changed = num_timeslots_changed
+
         # *** update stats ***
-        if dyn.stats:
-            dyn.stats.num_ctrl_amp_updates += bool(ecs.num_amps_changed)
-            dyn.stats.num_ctrl_amp_changes += ecs.num_amps_changed
-            dyn.stats.num_timeslot_changes += ecs.num_timeslots_changed
+        if changed and dyn.stats:
+            dyn.stats.num_ctrl_amp_updates += 1
+            dyn.stats.num_ctrl_amp_changes += num_amps_changed
+            dyn.stats.num_timeslot_changes += num_timeslots_changed
 
         if changed:
             # keep a copy, as the caller may reuse its array
-- 
2.43.0


From 006f04e26aa1293869f5840a83c91077fb4f52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 23/67] fix: means of StatsDynTsUpdate failed when nothing was
 counted, its own counters survived clear()

---
 src/qutip_qtrl/stats.py | 44 ++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/qutip_qtrl/stats.py b/src/qutip_qtrl/stats.py
index c628539..79cef0f 100644
--- a/src/qutip_qtrl/stats.py
+++ b/src/qutip_qtrl/stats.py
@@ -321,8 +321,8 @@ class StatsDynTsUpdate(Stats):
     def __init__(self):
         self.reset()
 
-    def reset(self):
-        Stats.reset(self)
+    def clear(self):
+        Stats.clear(self)
         # Dynamics generators (Hamiltonians)
         self.num_dyn_gen_computes = 0
         self.mean_num_dyn_gen_computes_per_update = 0.0
@@ -342,40 +342,44 @@ class StatsDynTsUpdate(Stats):
 
     def calculate(self):
         Stats.calculate(self)
-        self.mean_num_dyn_gen_computes_per_update = (
-            self.num_dyn_gen_computes / float(self.num_ctrl_amp_updates)
+        num_updates = self.num_ctrl_amp_updates
+        self.mean_num_dyn_gen_computes_per_update = self._mean(
+            self.num_dyn_gen_computes, num_updates
         )
 
-        self.mean_wall_time_dyn_gen_compute = (
-            self.wall_time_dyn_gen_compute / float(self.num_dyn_gen_computes)
+        self.mean_wall_time_dyn_gen_compute = self._mean(
+            self.wall_time_dyn_gen_compute, self.num_dyn_gen_computes
         )
 
-        self.mean_num_prop_computes_per_update = (
-            self.num_prop_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_prop_computes_per_update = self._mean(
+            self.num_prop_computes, num_updates
         )
 
-        self.mean_wall_time_prop_compute = self.wall_time_prop_compute / float(
-            self.num_prop_computes
+        self.mean_wall_time_prop_compute = self._mean(
+            self.wall_time_prop_compute, self.num_prop_computes
         )
 
-        self.mean_num_fwd_prop_step_computes_per_update = (
-            self.num_fwd_prop_step_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_fwd_prop_step_computes_per_update = self._mean(
+            self.num_fwd_prop_step_computes, num_updates
         )
 
-        self.mean_wall_time_fwd_prop_compute = (
-            self.wall_time_fwd_prop_compute
-            / float(self.num_fwd_prop_step_computes)
+        self.mean_wall_time_fwd_prop_compute = self._mean(
+            self.wall_time_fwd_prop_compute, self.num_fwd_prop_step_computes
         )
 
-        self.mean_num_onwd_prop_step_computes_per_update = (
-            self.num_onwd_prop_step_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_onwd_prop_step_computes_per_update = self._mean(
+            self.num_onwd_prop_step_computes, num_updates
         )
 
-        self.mean_wall_time_onwd_prop_compute = (
-            self.wall_time_onwd_prop_compute
-            / float(self.num_onwd_prop_step_computes)
+        self.mean_wall_time_onwd_prop_compute = self._mean(
+            self.wall_time_onwd_prop_compute, self.num_onwd_prop_step_computes
         )
 
+    @staticmethod
+    def _mean(total, num):
+        """Mean of total over num, undefined (nan) if nothing was counted"""
+        return total / float(num) if num else np.nan
+
     def report(self):
         """
         Print a report of the stats to the console
-- 
2.43.0


From 69eb2c730941cf3d7a564ada44e608b09dd0e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 24/67] fix: infinite bounds gave infinite pulses (random,
 zero, and bounds changed after initialisation), inconsistent ones were
 accepted

---
 src/qutip_qtrl/pulsegen.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d52d738..ca77acd 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -239,7 +239,12 @@ class PulseGen:
                 self.time[k + 1] = self.time[k] + self.tau[k]
 
         self._pulse_initialised = True
+        self._check_bounds()
 
+    def _check_bounds(self):
+        """
+        Infinite bounds are no bounds. Check that the others are consistent
+        """
         if self.lbound is not None:
             if np.isinf(self.lbound):
                 self.lbound = None
@@ -257,6 +262,8 @@ class PulseGen:
         (after applying the offset)
         Assumes that pulses passed are centered around zero (on average)
         """
+        # the bounds may have been changed since the pulse was initialised
+        self._check_bounds()
         if self.lbound is None and self.ubound is None:
             return pulse + self.offset
 
@@ -306,6 +313,9 @@ class PulseGenZero(PulseGen):
         The value will be zero, unless the offset is not zero,
         in which case it will be the offset
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = np.zeros(self.num_tslots)
         return self._apply_bounds_and_offset(pulse)
 
@@ -327,6 +337,9 @@ class PulseGenRandom(PulseGen):
         and shifted using the offset property
         Returns the pulse as an array of vales for each timeslot
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = (2 * np.random.random(self.num_tslots) - 1) * self.scaling
 
         return self._apply_bounds_and_offset(pulse)
-- 
2.43.0


From 47b3cac95b494dc31c5a70e96c65f7413dea1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 25/67] fix: number of waves of periodic pulses was wavelength
 times pulse time

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index ca77acd..a517aa4 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -748,10 +748,10 @@ class PulseGenPeriodic(PulseGen):
             self.wavelen = 1.0 / self.freq
         elif self.wavelen is not None:
             self.freq = 1.0 / self.wavelen
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
         else:
             self.wavelen = 1.0 / self.freq
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
 
 
 class PulseGenSine(PulseGenPeriodic):
-- 
2.43.0


From bd8b673f8f4ef6cd1f2a0f48704bcea9f3ed47ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 26/67] fix: gradient or start value alone ignored by linear
 pulses, one timeslot gave nan

---
 src/qutip_qtrl/pulsegen.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index a517aa4..1ec3677 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -644,6 +644,9 @@ class PulseGenLinear(PulseGen):
         self.start_val = -1.0
         self.end_val = 1.0
         self.apply_params()
+        if self.gradient is not None and "end_val" not in self.params:
+            # the gradient is given, the default end value is not wanted
+            self.end_val = None
 
     def init_pulse(self, gradient=None, start_val=None, end_val=None):
         """
@@ -651,14 +654,22 @@ class PulseGenLinear(PulseGen):
         end point values
         """
         PulseGen.init_pulse(self)
-        if start_val is not None and end_val is not None:
+        if gradient is not None:
+            self.gradient = gradient
+            self.end_val = None
+        if start_val is not None:
             self.start_val = start_val
+        if end_val is not None:
             self.end_val = end_val
 
         if self.start_val is not None and self.end_val is not None:
-            self.gradient = float(self.end_val - self.start_val) / (
-                self.pulse_time - self.tau[-1]
-            )
+            if self.num_tslots > 1:
+                self.gradient = float(self.end_val - self.start_val) / (
+                    self.pulse_time - self.tau[-1]
+                )
+            else:
+                # there is only the starting amplitude
+                self.gradient = 0.0
 
     def gen_pulse(self, gradient=None, start_val=None, end_val=None):
         """
-- 
2.43.0


From ebadce9bf27fb24bf376d276640179979e82f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 27/67] fix: Gaussian pulse with mean zero used the default
 mean

---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 1ec3677..c8985ab 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -923,11 +923,11 @@ class PulseGenGaussian(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        if mean:
+        if mean is not None:
             Tm = mean
         else:
             Tm = self.mean
-        if variance:
+        if variance is not None:
             Tv = variance
         else:
             Tv = self.variance
@@ -971,7 +971,7 @@ class PulseGenGaussianEdge(PulseGen):
             self.init_pulse()
 
         t = self.time
-        if decay_time:
+        if decay_time is not None:
             Td = decay_time
         else:
             Td = self.decay_time
-- 
2.43.0


From b117cb21e515cd7de1dca0ee1655186051d78dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 28/67] fix: max_d2_amp of RNDWALK2 pulses was not factored by
 the scaling

---
 src/qutip_qtrl/pulsegen.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index c8985ab..1f7f62e 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -596,16 +596,14 @@ class PulseGenRndWalk2(PulseGen):
         if max_d2_amp is not None:
             self.max_d2_amp = max_d2_amp
 
-        max_d2_amp = self.max_d2_amp
+        max_d2_amp = self.max_d2_amp * self.scaling
 
         if not self._pulse_initialised:
             self.init_pulse()
 
         walk = np.zeros(self.tau.shape)
         amp = self.scaling * (np.random.rand() * 2 - 1)
-        print("Start amp {}".format(amp))
         grad = 0.0
-        print("Start grad {}".format(grad))
         for k in range(len(walk)):
             walk[k] = amp
             grad += (np.random.rand() * 2 - 1) * max_d2_amp
-- 
2.43.0


From a0fe01a9de1dc75c5cbf75728efe0bb86f2ffe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 29/67] fix: a missing or unknown guess pulse action raised
 instead of being ignored

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 1f7f62e..ba06b63 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1161,13 +1161,13 @@ class PulseGenCrab(PulseGen):
     def init_guess_pulse(self):
         self.guess_pulse_func = None
         if not self.guess_pulse_action:
-            logger.WARN("No guess pulse action given, hence ignored.")
+            logger.warning("No guess pulse action given, hence ignored.")
         elif self.guess_pulse_action.upper() == "MODULATE":
             self.guess_pulse_func = self.guess_pulse_modulate
         elif self.guess_pulse_action.upper() == "ADD":
             self.guess_pulse_func = self.guess_pulse_add
         else:
-            logger.WARN(
+            logger.warning(
                 "No option for guess pulse action '{}' "
                 ", hence ignored.".format(self.guess_pulse_action)
             )
-- 
2.43.0


From 55b36fef06ed2f40dd324f1702708606e0ed3c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 30/67] fix: CRAB pulse could not be generated from given
 coefficients

---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index ba06b63..1b6573f 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1320,12 +1320,12 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs:
-            self.coeffs = coeffs
-
         if not self._pulse_initialised:
             self.init_pulse()
 
+        if coeffs is not None:
+            self.coeffs = coeffs
+
         pulse = np.zeros(self.num_tslots)
 
         for i in range(self.num_coeffs):
-- 
2.43.0


From 601e21a6c07ddbca9dec37c28805b545aadb8630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 31/67] fix: CRAB Fourier parameters given at creation were
 overwritten, the frequency variables lost on reset

---
 src/qutip_qtrl/pulsegen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 1b6573f..37def41 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1270,11 +1270,8 @@ class PulseGenCrabFourier(PulseGenCrab):
     """
 
     def __init__(self, dyn=None, num_coeffs=None, params=None, fix_freqs=True):
-        PulseGenCrab.__init__(self, dyn, num_coeffs, params)
         self.fix_freqs = fix_freqs
-        if not self.fix_freqs:
-            # additional parameter for the frequency
-            self.num_basis_funcs += 1
+        PulseGenCrab.__init__(self, dyn, num_coeffs, params)
 
     def reset(self):
         """
@@ -1283,6 +1280,10 @@ class PulseGenCrabFourier(PulseGenCrab):
         PulseGenCrab.reset(self)
         self.freqs = None
         self.randomize_freqs = True
+        self.apply_params()
+        if not self.fix_freqs:
+            # additional parameter for the frequency
+            self.num_basis_funcs += 1
 
     def init_pulse(self, num_coeffs=None, init_coeffs=None):
         """
-- 
2.43.0


From f6871641311c6611a61bec763f120626c321146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 32/67] fix: gradient of linear pulses ignored when applied
 after creation

---
 src/qutip_qtrl/pulsegen.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 37def41..b85f99e 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -642,9 +642,18 @@ class PulseGenLinear(PulseGen):
         self.start_val = -1.0
         self.end_val = 1.0
         self.apply_params()
-        if self.gradient is not None and "end_val" not in self.params:
-            # the gradient is given, the default end value is not wanted
-            self.end_val = None
+
+    def apply_params(self, params=None):
+        """
+        Set object attributes based on the dictionary (if any).
+        A gradient given without end value replaces the default end value
+        """
+        if not params:
+            params = self.params
+        PulseGen.apply_params(self, params)
+        if isinstance(params, dict) and params.get("gradient") is not None:
+            if "end_val" not in params:
+                self.end_val = None
 
     def init_pulse(self, gradient=None, start_val=None, end_val=None):
         """
-- 
2.43.0


From efa54e7ce488fc22049a3de4746a689d3a67d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 33/67] fix: pulse generators failed when the timeslots were
 given by durations only

---
 src/qutip_qtrl/pulsegen.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index b85f99e..90e0b41 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -196,6 +196,10 @@ class PulseGen:
 
         if isinstance(params, dict):
             self.params = params
+            if params.get("tau") is not None:
+                # the timeslots are defined by their durations
+                self.num_tslots = len(params["tau"])
+                self.pulse_time = np.sum(params["tau"])
             for key in params:
                 setattr(self, key, params[key])
 
@@ -232,6 +236,10 @@ class PulseGen:
                 * self.pulse_time
                 / self.num_tslots
             )
+        elif len(self.tau) != self.num_tslots:
+            # only the durations were set
+            self.num_tslots = len(self.tau)
+            self.pulse_time = np.sum(self.tau)
 
         if self._uses_time:
             self.time = np.zeros(self.num_tslots, dtype=float)
-- 
2.43.0


From 1e8a37f1c1c5e860f165401be3e1bdb1ba698e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 34/67] fix: bounds of zero were ignored by CRAB

---
 src/qutip_qtrl/pulseoptim.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b7d3555..5dc1ad1 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -85,6 +85,16 @@ def _param_deprecation(message, stacklevel=3):
     warnings.warn(message, FutureWarning, stacklevel=stacklevel)
 
 
+def _ctrl_bound(bound, ctrl):
+    """
+    Amplitude bound of the control, where `bound` is either a scalar (or None)
+    that applies to all the controls or a list with one for each of them
+    """
+    if isinstance(bound, list):
+        return bound[min(ctrl, len(bound) - 1)]
+    return bound
+
+
 def _upper_safe(s):
     try:
         s = s.upper()
@@ -2053,24 +2063,8 @@ def create_pulse_optimizer(
             if isinstance(crab_pulse_params, dict):
                 crab_pgen.apply_params(crab_pulse_params)
 
-            lb = None
-            if amp_lbound:
-                if isinstance(amp_lbound, list):
-                    try:
-                        lb = amp_lbound[j]
-                    except Exception:
-                        lb = amp_lbound[-1]
-                else:
-                    lb = amp_lbound
-            ub = None
-            if amp_ubound:
-                if isinstance(amp_ubound, list):
-                    try:
-                        ub = amp_ubound[j]
-                    except Exception:
-                        ub = amp_ubound[-1]
-                else:
-                    ub = amp_ubound
+            lb = _ctrl_bound(amp_lbound, j)
+            ub = _ctrl_bound(amp_ubound, j)
             crab_pgen.lbound = lb
             crab_pgen.ubound = ub
 
-- 
2.43.0


From 1798353bfa095c2daa79960c5f5d3222fb1e5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 35/67] fix: optimize_pulse failed for lists of amplitude
 bounds

---
 src/qutip_qtrl/pulseoptim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 5dc1ad1..8bf0991 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -487,6 +487,8 @@ def optimize_pulse(
     else:
         pgen = optim.pulse_generator
         for j in range(dyn.num_ctrls):
+            pgen.lbound = _ctrl_bound(amp_lbound, j)
+            pgen.ubound = _ctrl_bound(amp_ubound, j)
             init_amps[:, j] = pgen.gen_pulse()
 
     # Initialise the starting amplitudes
@@ -2089,8 +2091,8 @@ def create_pulse_optimizer(
         )
         pgen.scaling = pulse_scaling
         pgen.offset = pulse_offset
-        pgen.lbound = amp_lbound
-        pgen.ubound = amp_ubound
+        pgen.lbound = _ctrl_bound(amp_lbound, 0)
+        pgen.ubound = _ctrl_bound(amp_ubound, 0)
 
         optim.pulse_generator = pgen
 
-- 
2.43.0


From 8b3bba141533aeee0c02abb3add8ccfc47da1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 36/67] fix: algorithm given in lower case was accepted but not
 run

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 8bf0991..4c8f355 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -479,7 +479,7 @@ def optimize_pulse(
     # Generate initial pulses for each control
     init_amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
 
-    if alg == "CRAB":
+    if optim.alg == "CRAB":
         for j in range(dyn.num_ctrls):
             pgen = optim.pulse_generator[j]
             pgen.init_pulse()
@@ -1967,7 +1967,7 @@ def create_pulse_optimizer(
         else:
             optim = optimizer.Optimizer(cfg, dyn)
 
-    optim.alg = alg
+    optim.alg = alg_up
     optim.method = optim_method
     optim.amp_lbound = amp_lbound
     optim.amp_ubound = amp_ubound
-- 
2.43.0


From cebd296bcc0561da871c32508091d3858e020d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 37/67] fix: timeslot durations changed along with the caller's
 array

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 7344be5..bcf642c 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -575,7 +575,8 @@ class Dynamics(object):
 
     @tau.setter
     def tau(self, value):
-        self._tau = value
+        # the durations must not change with the array that was passed
+        self._tau = None if value is None else np.array(value, dtype=float)
         self.init_timeslots()
 
     def init_timeslots(self):
-- 
2.43.0


From 249e26a8efc950ec280728157f9618b8d94e5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 38/67] fix: get_amp_times failed before the timeslots were
 initialised

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index bcf642c..93577cb 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -999,7 +999,8 @@ class Dynamics(object):
             )
 
     def get_amp_times(self):
-        return self.time[: self.num_tslots]
+        num_tslots = self.num_tslots
+        return self.time[:num_tslots]
 
     def save_amps(self, file_name=None, times=None, amps=None, verbose=False):
         """
-- 
2.43.0


From 4b66c1b2f1c948869d08e2dbac9beeae33c14d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 39/67] fix: unitarity checks failed for dynamics other than
 unitary ones

---
 src/qutip_qtrl/dynamics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 93577cb..1a7d3ac 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1495,6 +1495,12 @@ class Dynamics(object):
         return err
 
     def unitarity_check(self):
+        """
+        Checks whether all propagators are unitary
+        """
+        self.check_unitarity()
+
+    def check_unitarity(self):
         """
         Checks whether all propagators are unitary
         """
-- 
2.43.0


From f99c00579400c862da4dbf09bd337f268e49edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 40/67] fix: unitarity checks failed for propagators not
 computed by diagonalisation

---
 src/qutip_qtrl/dynamics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 1a7d3ac..f321b29 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1723,8 +1723,14 @@ class DynamicsUnitary(Dynamics):
                 else:
                     diff = np.abs(H.T.conj() - H)
                     herm = np.all(diff < settings.core["atol"])
-                eigval_unit = self._is_unitary(self._prop_eigen[k])
-                eigvec_unit = self._is_unitary(self._dyn_gen_eigenvectors[k])
+                # only available when the generators are diagonalised
+                eigval_unit = None
+                eigvec_unit = None
+                if self._prop_eigen is not None:
+                    eigval_unit = self._is_unitary(self._prop_eigen[k])
+                    eigvec_unit = self._is_unitary(
+                        self._dyn_gen_eigenvectors[k]
+                    )
                 if self._dyn_gen_eigenvectors_adj is not None:
                     eigvecadj_unit = self._is_unitary(
                         self._dyn_gen_eigenvectors_adj[k]
-- 
2.43.0


From b1019c1ff29c18669c8907126a90d9fb665bfb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 41/67] fix: pulses fitted to the bounds could exceed them by
 rounding

---
 src/qutip_qtrl/pulsegen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 90e0b41..eada256 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -287,10 +287,10 @@ class PulseGen:
             # One of the bounds is inf, so just shift the pulse
             if self.lbound is None:
                 # max_amp + offset must exceed the ubound
-                return pulse + self.ubound - max_amp
+                return np.minimum(pulse + self.ubound - max_amp, self.ubound)
             else:
                 # min_amp + offset must exceed the lbound
-                return pulse + self.lbound - min_amp
+                return np.maximum(pulse + self.lbound - min_amp, self.lbound)
         else:
             bound_range = self.ubound - self.lbound
             amp_range = max_amp - min_amp
@@ -299,7 +299,10 @@ class PulseGen:
                 pulse = pulse * bound_range / amp_range
 
             # otherwise the pulse should fit anyway
-            return pulse + self.lbound - min(pulse)
+            # (the bounds must not be exceeded through rounding)
+            return np.clip(
+                pulse + self.lbound - min(pulse), self.lbound, self.ubound
+            )
 
     def _apply_ramping_pulse(self, pulse, ramping_pulse=None):
         if ramping_pulse is None:
-- 
2.43.0


From 942278ede878c44d22ce1837a31bb6b73bba9e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 42/67] fix: runs with methods that report no number of
 iterations failed

---
 src/qutip_qtrl/optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 60ad445..7eee753 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -601,13 +601,15 @@ class Optimizer(object):
             result.termination_reason = opt_res.message
             # Note the iterations are counted in this object as well
             # so there are compared here for interest sake only
-            if self.num_iter != opt_res.nit:
+            # (some methods, e.g. COBYLA, do not report it)
+            num_iter = opt_res.get("nit", self.num_iter)
+            if self.num_iter != num_iter:
                 logger.info(
                     "The number of iterations counted {} "
                     " does not match the number reported {} "
-                    "by {}".format(self.num_iter, opt_res.nit, self.method)
+                    "by {}".format(self.num_iter, num_iter, self.method)
                 )
-            result.num_iter = opt_res.nit
+            result.num_iter = num_iter
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From b75f55450cfb1fccf5c511f390d5cba93f2bbc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 43/67] fix: parameter dictionaries of the caller were modified

---
 src/qutip_qtrl/pulseoptim.py | 156 +++++++++++++++--------------------
 1 file changed, 67 insertions(+), 89 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 4c8f355..7d64202 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -85,6 +85,16 @@ def _param_deprecation(message, stacklevel=3):
     warnings.warn(message, FutureWarning, stacklevel=stacklevel)
 
 
+def _add_param(params, key, value):
+    """
+    Copy of the parameters, with the value added under the key, unless there
+    is one already. The dictionary that was passed is left as it was.
+    """
+    params = dict(params) if isinstance(params, dict) else {}
+    params.setdefault(key, value)
+    return params
+
+
 def _ctrl_bound(bound, ctrl):
     """
     Amplitude bound of the control, where `bound` is either a scalar (or None)
@@ -381,22 +391,18 @@ def optimize_pulse(
         )
 
     if max_metric_corr is not None:
-        if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
-        else:
-            method_params = {"max_metric_corr": max_metric_corr}
+        method_params = _add_param(
+            method_params, "max_metric_corr", max_metric_corr
+        )
         _param_deprecation(
             "The 'max_metric_corr' parameter is deprecated. "
             "Use 'max_metric_corr' in method_params instead"
         )
 
     if accuracy_factor is not None:
-        if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
-        else:
-            method_params = {"accuracy_factor": accuracy_factor}
+        method_params = _add_param(
+            method_params, "accuracy_factor", accuracy_factor
+        )
         _param_deprecation(
             "The 'accuracy_factor' parameter is deprecated. "
             "Use 'accuracy_factor' in method_params instead"
@@ -404,11 +410,7 @@ def optimize_pulse(
 
     # phase_option
     if phase_option is not None:
-        if isinstance(fid_params, dict):
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
-        else:
-            fid_params = {"phase_option": phase_option}
+        fid_params = _add_param(fid_params, "phase_option", phase_option)
         _param_deprecation(
             "The 'phase_option' parameter is deprecated. "
             "Use 'phase_option' in fid_params instead"
@@ -788,22 +790,18 @@ def optimize_pulse_unitary(
         )
 
     if max_metric_corr is not None:
-        if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
-        else:
-            method_params = {"max_metric_corr": max_metric_corr}
+        method_params = _add_param(
+            method_params, "max_metric_corr", max_metric_corr
+        )
         _param_deprecation(
             "The 'max_metric_corr' parameter is deprecated. "
             "Use 'max_metric_corr' in method_params instead"
         )
 
     if accuracy_factor is not None:
-        if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
-        else:
-            method_params = {"accuracy_factor": accuracy_factor}
+        method_params = _add_param(
+            method_params, "accuracy_factor", accuracy_factor
+        )
         _param_deprecation(
             "The 'accuracy_factor' parameter is deprecated. "
             "Use 'accuracy_factor' in method_params instead"
@@ -824,11 +822,7 @@ def optimize_pulse_unitary(
     # phase_option is still valid for this method
     # pass it via the fid_params
     if phase_option is not None:
-        if fid_params is None:
-            fid_params = {"phase_option": phase_option}
-        else:
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+        fid_params = _add_param(fid_params, "phase_option", phase_option)
 
     return optimize_pulse(
         drift=H_d,
@@ -1120,13 +1114,12 @@ def opt_pulse_crab(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
-        if num_coeffs is not None and "num_coeffs" not in alg_params:
-            alg_params["num_coeffs"] = num_coeffs
-        if (
-            init_coeff_scaling is not None
-            and "init_coeff_scaling" not in alg_params
-        ):
-            alg_params["init_coeff_scaling"] = init_coeff_scaling
+        if num_coeffs is not None:
+            alg_params = _add_param(alg_params, "num_coeffs", num_coeffs)
+        if init_coeff_scaling is not None:
+            alg_params = _add_param(
+                alg_params, "init_coeff_scaling", init_coeff_scaling
+            )
 
     # Build the guess pulse options
     # Any options passed in the guess_pulse_params take precedence
@@ -1134,21 +1127,18 @@ def opt_pulse_crab(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
-        if (
-            guess_pulse_scaling is not None
-            and "scaling" not in guess_pulse_params
-        ):
-            guess_pulse_params["scaling"] = guess_pulse_scaling
-        if (
-            guess_pulse_offset is not None
-            and "offset" not in guess_pulse_params
-        ):
-            guess_pulse_params["offset"] = guess_pulse_offset
-        if (
-            guess_pulse_action is not None
-            and "pulse_action" not in guess_pulse_params
-        ):
-            guess_pulse_params["pulse_action"] = guess_pulse_action
+        if guess_pulse_scaling is not None:
+            guess_pulse_params = _add_param(
+                guess_pulse_params, "scaling", guess_pulse_scaling
+            )
+        if guess_pulse_offset is not None:
+            guess_pulse_params = _add_param(
+                guess_pulse_params, "offset", guess_pulse_offset
+            )
+        if guess_pulse_action is not None:
+            guess_pulse_params = _add_param(
+                guess_pulse_params, "pulse_action", guess_pulse_action
+            )
 
     return optimize_pulse(
         drift,
@@ -1433,13 +1423,12 @@ def opt_pulse_crab_unitary(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
-        if num_coeffs is not None and "num_coeffs" not in alg_params:
-            alg_params["num_coeffs"] = num_coeffs
-        if (
-            init_coeff_scaling is not None
-            and "init_coeff_scaling" not in alg_params
-        ):
-            alg_params["init_coeff_scaling"] = init_coeff_scaling
+        if num_coeffs is not None:
+            alg_params = _add_param(alg_params, "num_coeffs", num_coeffs)
+        if init_coeff_scaling is not None:
+            alg_params = _add_param(
+                alg_params, "init_coeff_scaling", init_coeff_scaling
+            )
 
     # Build the guess pulse options
     # Any options passed in the guess_pulse_params take precedence
@@ -1447,21 +1436,18 @@ def opt_pulse_crab_unitary(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
-        if (
-            guess_pulse_scaling is not None
-            and "scaling" not in guess_pulse_params
-        ):
-            guess_pulse_params["scaling"] = guess_pulse_scaling
-        if (
-            guess_pulse_offset is not None
-            and "offset" not in guess_pulse_params
-        ):
-            guess_pulse_params["offset"] = guess_pulse_offset
-        if (
-            guess_pulse_action is not None
-            and "pulse_action" not in guess_pulse_params
-        ):
-            guess_pulse_params["pulse_action"] = guess_pulse_action
+        if guess_pulse_scaling is not None:
+            guess_pulse_params = _add_param(
+                guess_pulse_params, "scaling", guess_pulse_scaling
+            )
+        if guess_pulse_offset is not None:
+            guess_pulse_params = _add_param(
+                guess_pulse_params, "offset", guess_pulse_offset
+            )
+        if guess_pulse_action is not None:
+            guess_pulse_params = _add_param(
+                guess_pulse_params, "pulse_action", guess_pulse_action
+            )
 
     return optimize_pulse_unitary(
         H_d,
@@ -1784,22 +1770,18 @@ def create_pulse_optimizer(
         )
 
     if max_metric_corr is not None:
-        if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
-        else:
-            method_params = {"max_metric_corr": max_metric_corr}
+        method_params = _add_param(
+            method_params, "max_metric_corr", max_metric_corr
+        )
         _param_deprecation(
             "The 'max_metric_corr' parameter is deprecated. "
             "Use 'max_metric_corr' in method_params instead"
         )
 
     if accuracy_factor is not None:
-        if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
-        else:
-            method_params = {"accuracy_factor": accuracy_factor}
+        method_params = _add_param(
+            method_params, "accuracy_factor", accuracy_factor
+        )
         _param_deprecation(
             "The 'accuracy_factor' parameter is deprecated. "
             "Use 'accuracy_factor' in method_params instead"
@@ -1807,11 +1789,7 @@ def create_pulse_optimizer(
 
     # phase_option
     if phase_option is not None:
-        if isinstance(fid_params, dict):
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
-        else:
-            fid_params = {"phase_option": phase_option}
+        fid_params = _add_param(fid_params, "phase_option", phase_option)
         _param_deprecation(
             "The 'phase_option' parameter is deprecated. "
             "Use 'phase_option' in fid_params instead"
-- 
2.43.0


From a9f1bdd8dac5d4a05eb88293ce6243a0acb8bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 44/67] fix: fid_err_scale_factor overrode the scale_factor in
 fid_params

---
 src/qutip_qtrl/pulseoptim.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 7d64202..0c8cdb4 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -418,11 +418,9 @@ def optimize_pulse(
 
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
-        if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
-        else:
-            fid_params = {"scale_factor": fid_err_scale_factor}
+        fid_params = _add_param(
+            fid_params, "scale_factor", fid_err_scale_factor
+        )
         _param_deprecation(
             "The 'fid_err_scale_factor' parameter is deprecated. "
             "Use 'scale_factor' in fid_params instead"
@@ -1797,11 +1795,9 @@ def create_pulse_optimizer(
 
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
-        if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
-        else:
-            fid_params = {"scale_factor": fid_err_scale_factor}
+        fid_params = _add_param(
+            fid_params, "scale_factor", fid_err_scale_factor
+        )
         _param_deprecation(
             "The 'fid_err_scale_factor' parameter is deprecated. "
             "Use 'scale_factor' in fid_params instead"
-- 
2.43.0


From a7b348c35aecf6bd513cfeca1b085b487254da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 45/67] fix: timeslot computer options were not passed on

---
 src/qutip_qtrl/pulseoptim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 0c8cdb4..cf464a5 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -463,6 +463,8 @@ def optimize_pulse(
         prop_params=prop_params,
         fid_type=fid_type,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
@@ -845,6 +847,8 @@ def optimize_pulse_unitary(
         dyn_params=dyn_params,
         prop_params=prop_params,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
-- 
2.43.0


From 5af253e16d6633460efe948727cea697602cad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 46/67] fix: scaling and offset in init_pulse_params were
 ignored by GRAPE

---
 src/qutip_qtrl/pulseoptim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index cf464a5..bce58c5 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2067,8 +2067,11 @@ def create_pulse_optimizer(
         pgen = pulsegen.create_pulse_gen(
             pulse_type=init_pulse_type, dyn=dyn, pulse_params=init_pulse_params
         )
-        pgen.scaling = pulse_scaling
-        pgen.offset = pulse_offset
+        # any options in init_pulse_params take precedence
+        if "scaling" not in (init_pulse_params or {}):
+            pgen.scaling = pulse_scaling
+        if "offset" not in (init_pulse_params or {}):
+            pgen.offset = pulse_offset
         pgen.lbound = _ctrl_bound(amp_lbound, 0)
         pgen.ubound = _ctrl_bound(amp_ubound, 0)
 
-- 
2.43.0


From beeda6233b9616219fcb16b46cfcad5bb79d6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 47/67] fix: documented fidelity type TD_APPROX was rejected

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index bce58c5..42645a9 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1898,7 +1898,7 @@ def create_pulse_optimizer(
     if fid_type_up == "DEF" or fid_type_up is None or fid_type_up == "":
         # None given, use the default for the Dynamics
         pass
-    elif fid_type_up == "TDAPPROX":
+    elif fid_type_up in ("TDAPPROX", "TD_APPROX"):
         if not isinstance(dyn.fid_computer, fidcomp.FidCompTraceDiffApprox):
             dyn.fid_computer = fidcomp.FidCompTraceDiffApprox(dyn)
     elif fid_type_up == "TRACEDIFF":
-- 
2.43.0


From 07d1b5df1ed3a03ef216dfffa5ba9d5196146cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 48/67] fix: drift and control lists that do not match the
 timeslots were not rejected

---
 src/qutip_qtrl/dynamics.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f321b29..5744191 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -751,6 +751,18 @@ class Dynamics(object):
 
         n_ts = self.num_tslots
         n_ctrls = self.num_ctrls
+        if n_ctrls == 0:
+            raise ValueError("No control dyn gen given")
+        if self.time_depend_drift and len(self.drift_dyn_gen) != n_ts:
+            raise ValueError(
+                "Number of drift dyn gen does not match the number of "
+                "timeslots ({})".format(n_ts)
+            )
+        if self.time_depend_ctrl_dyn_gen and len(self.ctrl_dyn_gen) != n_ts:
+            raise ValueError(
+                "Number of rows of control dyn gen does not match the "
+                "number of timeslots ({})".format(n_ts)
+            )
         if self.oper_dtype == Qobj:
             self._initial = self.initial
             self._target = self.target
@@ -1105,6 +1117,8 @@ class Dynamics(object):
         """Reset the dyn_shape, dyn_dims and time_depend_drift attribs"""
 
         if isinstance(self.drift_dyn_gen, (list, tuple)):
+            if len(self.drift_dyn_gen) == 0:
+                raise ValueError("The list of drift dyn gen is empty")
             d0 = self.drift_dyn_gen[0]
             self.time_depend_drift = True
         else:
-- 
2.43.0


From caf2ee2c8133e8cabae42be85816c3d2a46d4a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 49/67] fix: control lists with rows of different lengths were
 not rejected

---
 src/qutip_qtrl/dynamics.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 5744191..155bff6 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -60,15 +60,19 @@ def _check_ctrls_container(ctrls):
     raise type error if the container structure is invalid
     """
     if isinstance(ctrls, (list, tuple)):
+        if len(ctrls) == 0:
+            raise ValueError("No control dyn gen given")
         # Check to see if list of lists
-        try:
-            if isinstance(ctrls[0], (list, tuple)):
-                ctrls_ = np.empty((len(ctrls), len(ctrls[0])), dtype=object)
-                for i, ctrl in enumerate(ctrls):
-                    ctrls_[i, :] = ctrl
-                ctrls = ctrls_
-        except IndexError:
-            pass
+        if isinstance(ctrls[0], (list, tuple)):
+            ctrls_ = np.empty((len(ctrls), len(ctrls[0])), dtype=object)
+            for i, ctrl in enumerate(ctrls):
+                if len(ctrl) != len(ctrls[0]):
+                    raise ValueError(
+                        "All timeslots must have the same number of "
+                        "control dyn gen"
+                    )
+                ctrls_[i, :] = ctrl
+            ctrls = ctrls_
 
     if isinstance(ctrls, np.ndarray):
         if len(ctrls.shape) != 2:
-- 
2.43.0


From 6532d141d473d1a5341e07a4a152cadf212f05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 50/67] fix: one bad option dropped the rest of its section of
 a parameter file

---
 src/qutip_qtrl/loadparams.py | 90 +++++++++++-------------------------
 1 file changed, 28 insertions(+), 62 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 988278b..5e9b02b 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -45,69 +45,19 @@ def load_parameters(
         raise ValueError("Parameter file '{}' not found".format(file_name))
 
     if config is not None:
-        s = "optimconfig"
-        try:
-            attr_names = parser.options(s)
-            for a in attr_names:
-                set_param(parser, s, a, config, a)
-        except Exception as e:
-            logger.warn(
-                "Unable to load {} parameters:({}) {}".format(
-                    s, type(e).__name__, e
-                )
-            )
+        _load_section(parser, "optimconfig", config)
 
     if term_conds is not None:
-        s = "termconds"
-        try:
-            attr_names = parser.options(s)
-            for a in attr_names:
-                set_param(parser, s, a, term_conds, a)
-        except Exception as e:
-            logger.warn(
-                "Unable to load {} parameters:({}) {}".format(
-                    s, type(e).__name__, e
-                )
-            )
+        _load_section(parser, "termconds", term_conds)
 
     if dynamics is not None:
-        s = "dynamics"
-        try:
-            attr_names = parser.options(s)
-            for a in attr_names:
-                set_param(parser, s, a, dynamics, a)
-        except Exception as e:
-            logger.warn(
-                "Unable to load {} parameters:({}) {}".format(
-                    s, type(e).__name__, e
-                )
-            )
+        _load_section(parser, "dynamics", dynamics)
 
     if optim is not None:
-        s = "optimizer"
-        try:
-            attr_names = parser.options(s)
-            for a in attr_names:
-                set_param(parser, s, a, optim, a)
-        except Exception as e:
-            logger.warn(
-                "Unable to load {} parameters:({}) {}".format(
-                    s, type(e).__name__, e
-                )
-            )
+        _load_section(parser, "optimizer", optim)
 
     if pulsegen is not None:
-        s = "pulsegen"
-        try:
-            attr_names = parser.options(s)
-            for a in attr_names:
-                set_param(parser, s, a, pulsegen, a)
-        except Exception as e:
-            logger.warn(
-                "Unable to load {} parameters:({}) {}".format(
-                    s, type(e).__name__, e
-                )
-            )
+        _load_section(parser, "pulsegen", pulsegen)
 
     if obj is not None:
         if not isinstance(section, str):
@@ -115,15 +65,31 @@ def load_parameters(
                 "Section name must be given when loading "
                 "parameters of general object"
             )
-        s = section
+        _load_section(parser, section, obj)
+
+
+def _load_section(parser, section, obj):
+    """
+    Set the attributes of the object from the options in the section.
+    An option that cannot be loaded does not prevent the others from loading
+    """
+    try:
+        attr_names = parser.options(section)
+    except Exception as e:
+        logger.warning(
+            "Unable to load {} parameters:({}) {}".format(
+                section, type(e).__name__, e
+            )
+        )
+        return
+
+    for a in attr_names:
         try:
-            attr_names = parser.options(s)
-            for a in attr_names:
-                set_param(parser, s, a, obj, a)
+            set_param(parser, section, a, obj, a)
         except Exception as e:
-            logger.warn(
-                "Unable to load {} parameters:({}) {}".format(
-                    s, type(e).__name__, e
+            logger.warning(
+                "Unable to load parameter {}.{}:({}) {}".format(
+                    section, a, type(e).__name__, e
                 )
             )
 
-- 
2.43.0


From 30bb52debf1b341f6133df02f1e856b945019ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 51/67] fix: options of parameter files not converted to the
 type of the attribute

---
 src/qutip_qtrl/loadparams.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 5e9b02b..e2dddea 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -105,10 +105,8 @@ def set_param(parser, section, option, obj, attrib_name):
     """
     val = parser.get(section, attrib_name)
 
-    dtype = None
     if hasattr(obj, attrib_name):
         a = getattr(obj, attrib_name)
-        dtype = type(a)
     else:
         logger.warn(
             "Unable to load parameter {}.{}\n"
@@ -143,12 +141,12 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, l)
-    elif dtype == float:
+    elif isinstance(a, float):
         try:
             f = parser.getfloat(section, attrib_name)
         except:
             try:
-                f = eval(val)
+                f = float(eval(val))
             except:
                 raise ValueError(
                     "Value '{}' cannot be cast or evaluated as a "
@@ -157,7 +155,7 @@ def set_param(parser, section, option, obj, attrib_name):
                     )
                 )
         setattr(obj, attrib_name, f)
-    elif dtype == complex:
+    elif isinstance(a, complex):
         try:
             c = complex(val)
         except:
@@ -166,24 +164,26 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, c)
-    elif dtype == int:
+    elif isinstance(a, (bool, np.bool_)):
         try:
-            i = parser.getint(section, attrib_name)
+            b = parser.getboolean(section, attrib_name)
         except:
             raise ValueError(
-                "Value '{}' cannot be cast as an int"
+                "Value '{}' cannot be cast as a bool"
                 " in parameter file [{}].{}".format(val, section, option)
             )
-        setattr(obj, attrib_name, i)
-    elif dtype == bool:
+        setattr(obj, attrib_name, b)
+    elif isinstance(a, (int, np.integer)):
         try:
-            b = parser.getboolean(section, attrib_name)
+            i = parser.getint(section, attrib_name)
         except:
             raise ValueError(
-                "Value '{}' cannot be cast as a bool"
+                "Value '{}' cannot be cast as an int"
                 " in parameter file [{}].{}".format(val, section, option)
             )
-        setattr(obj, attrib_name, b)
+        setattr(obj, attrib_name, i)
+    elif isinstance(a, str):
+        setattr(obj, attrib_name, val)
     else:
         try:
             val = parser.getfloat(section, attrib_name)
-- 
2.43.0


From 31fc76123718e4eab8146e265441466e7a96fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 52/67] fix: GRAPE with limits failed for a starting pulse
 given as an array

---
 src/qutip_qtrl/grape.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 6c4b5e2..7aa5db2 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -157,16 +157,14 @@ def grape_unitary(
     if u_limits:
         warnings.warn("Caution: Using experimental feature u_limits")
 
-    if u_limits and u_start:
-        # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
-        u_start[u_start < u_limits[0]] = u_limits[0]
-        u_start[u_start > u_limits[1]] = u_limits[1]
-
     if u_start is not None:
         for idx, u0 in enumerate(u_start):
             u[0, idx, :] = u0
 
+    if u_limits:
+        # make sure that no values in u0 violates the u_limits conditions
+        u[0] = np.clip(u[0], u_limits[0], u_limits[1])
+
     if beta:
         warnings.warn("Causion: Using experimental feature time-penalty")
 
@@ -333,12 +331,6 @@ def cy_grape_unitary(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
-        # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
-        u_start[u_start < u_limits[0]] = u_limits[0]
-        u_start[u_start > u_limits[1]] = u_limits[1]
-
     if u_limits:
         use_u_limits = 1
         u_min = u_limits[0]
@@ -352,6 +344,10 @@ def cy_grape_unitary(
         for idx, u0 in enumerate(u_start):
             u[0, idx, :] = u0
 
+    if u_limits:
+        # make sure that no values in u0 violates the u_limits conditions
+        u[0] = np.clip(u[0], u_limits[0], u_limits[1])
+
     if beta:
         warnings.warn("Causion: Using experimental feature time-penalty")
 
@@ -523,17 +519,15 @@ def grape_unitary_adaptive(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
-        # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
-        u_start[u_start < u_limits[0]] = u_limits[0]
-        u_start[u_start > u_limits[1]] = u_limits[1]
-
     if u_start is not None:
         for idx, u0 in enumerate(u_start):
             for k in range(K):
                 u[0, idx, :, k] = u0
 
+    if u_limits:
+        # make sure that no values in u0 violates the u_limits conditions
+        u[0] = np.clip(u[0], u_limits[0], u_limits[1])
+
     if beta:
         warnings.warn("Causion: Using experimental feature time-penalty")
 
-- 
2.43.0


From 05c0a89d01c7ccfdb4fc5e6433d4a9cbc8a2e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 53/67] fix: time penalty failed in adaptive GRAPE and differed
 between the routines

---
 src/qutip_qtrl/grape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 7aa5db2..ae385d8 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -228,7 +228,7 @@ def grape_unitary(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * m * u[r, j, m] * dt
+                    du += -2 * beta * m**2 * u[r, j, m] * dt
 
                 u[r + 1, j, m] = u[r, j, m] + eps * du.real
 
@@ -625,7 +625,7 @@ def grape_unitary_adaptive(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * k**2 * u[r, j, k] * dt
+                    du += -2 * beta * m**2 * u[r, j, m, best_k] * dt
 
                 for k, eps_val in enumerate(eps_vec):
                     u[r + 1, j, m, k] = u[r, j, m, k] + eps_val * du.real
-- 
2.43.0


From 62379ad239753d11d32c970f48504c29e46702dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 54/67] fix: final unitary of GRAPE was that of the pulse
 before the final one

---
 src/qutip_qtrl/grape.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index ae385d8..86c4184 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -15,7 +15,7 @@ import time
 import numpy as np
 from scipy.interpolate import interp1d
 
-from qutip import Qobj, qeye
+from qutip import qeye
 from qutip.core import data as _data
 from qutip.ui.progressbar import BaseProgressBar
 from qutip_qtrl.cy_grape import cy_overlap, cy_grape_inner
@@ -93,6 +93,16 @@ def _overlap(A, B):
     return (A.dag() * B).tr() / A.shape[0]
 
 
+def _pulse_unitary(U, H0, H_ops, u, times):
+    # the unitary that is realized by the pulses u, an array [J, M]
+    dt = times[1] - times[0]
+    U_f = qeye(U.dims[0])
+    for m in range(len(times) - 1):
+        H = H0 + sum([u[j, m] * H_ops[j] for j in range(len(H_ops))])
+        U_f = (-1j * H * dt).expm() @ U_f
+    return U_f
+
+
 def grape_unitary(
     U,
     H0,
@@ -260,8 +270,8 @@ def grape_unitary(
 
     progress_bar.finished()
 
-    # return U_f_list[-1], H_td_func, u
-    return GRAPEResult(u=u, U_f=U_f_list[-1], H_t=H_td_func)
+    U_f = _pulse_unitary(U, H0, H_ops, u[-1], times)
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def cy_grape_unitary(
@@ -441,7 +451,8 @@ def cy_grape_unitary(
 
     progress_bar.finished()
 
-    return GRAPEResult(u=u, U_f=Qobj(U_f_list[-1], dims=U.dims), H_t=H_td_func)
+    U_f = _pulse_unitary(U, H0, H_ops, u[-1], times)
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def grape_unitary_adaptive(
-- 
2.43.0


From 6e69a72a275f71dd3855a378b9fe66ffdf5a224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 55/67] fix: adaptive GRAPE did not return the final pulse and
 mixed the pulses of its step sizes

---
 src/qutip_qtrl/grape.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 86c4184..898e7ec 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -553,13 +553,13 @@ def grape_unitary_adaptive(
             return abs(x) ** 2
 
     best_k = 1
-    _r = 0
+    _n_iter = 0
     _prev_overlap = 0
 
     for r in range(R - 1):
         progress_bar.update()
 
-        _r = r
+        _n_iter = r + 1
         eps_log[r] = eps_vec[best_k]
 
         logger.debug("eps_vec: {}".format(eps_vec))
@@ -666,15 +666,19 @@ def grape_unitary_adaptive(
                 cy_overlap(Uf[k].data, U.data)
             ).real
 
-        best_k = np.argmax(_k_overlap)
-        logger.debug("k_overlap: %s, %e", repr(_k_overlap), best_k)
+        _best_k = np.argmax(_k_overlap)
+        logger.debug("k_overlap: %s, %e", repr(_k_overlap), _best_k)
+        overlap_log[r] = _k_overlap[_best_k]
 
-        if _prev_overlap > _k_overlap[best_k]:
+        if _prev_overlap > _k_overlap[_best_k]:
             logger.debug("Regression, stepping back with smaller eps.")
 
             u[r + 1, :, :, :] = u[r, :, :, :]
             eps_vec /= 2
         else:
+            best_k = _best_k
+            # all the step sizes continue from the best of the pulses
+            u[r + 1, :, :, :] = u[r + 1, :, :, best_k, None]
             if best_k == 0:
                 eps_vec /= 2
 
@@ -683,24 +687,24 @@ def grape_unitary_adaptive(
 
             _prev_overlap = _k_overlap[best_k]
 
-        overlap_log[r] = _k_overlap[best_k]
-
         if overlap_terminate < 1.0:
-            if _k_overlap[best_k] > overlap_terminate:
+            if _prev_overlap > overlap_terminate:
                 logger.info("Reached target fidelity, terminating.")
                 break
 
         logger.debug("Time 4: %fs", time.time() - _t0)
         _t0 = time.time()
 
+    u_final = u[_n_iter, :, :, best_k]
+
     if use_interp:
         ip_funcs = [
             interp1d(
                 times,
-                u[_r, j, :, best_k],
+                u_final[j, :],
                 kind=interp_kind,
                 bounds_error=False,
-                fill_value=u[R - 1, j, -1],
+                fill_value=u_final[j, -1],
             )
             for j in range(J)
         ]
@@ -709,11 +713,14 @@ def grape_unitary_adaptive(
             [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
         ]
     else:
-        H_td_func = [H0] + [[H_ops[j], u[_r, j, :, best_k]] for j in range(J)]
+        H_td_func = [H0] + [[H_ops[j], u_final[j, :]] for j in range(J)]
 
     progress_bar.finished()
 
-    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf[best_k], H_t=H_td_func)
+    U_f = _pulse_unitary(U, H0, H_ops, u_final, times)
+    result = GRAPEResult(
+        u=u[: _n_iter + 1, :, :, best_k], U_f=U_f, H_t=H_td_func
+    )
 
     result.eps = eps_log
     result.overlap = overlap_log
-- 
2.43.0


From 89d47133e7ea31c302de8237a28dff6b0a3dc444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 56/67] fix: deprecated methods did not do what their
 replacements do

---
 src/qutip_qtrl/dynamics.py  | 2 +-
 src/qutip_qtrl/propcomp.py  | 2 +-
 src/qutip_qtrl/tslotcomp.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 155bff6..ac66ba9 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1235,7 +1235,7 @@ class Dynamics(object):
             "'combine_dyn_gen' has been replaced by " "'_combine_dyn_gen'"
         )
         self._combine_dyn_gen(k)
-        return self._dyn_gen(k)
+        return self._dyn_gen[k]
 
     def _combine_dyn_gen(self, k):
         """
diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index 0080814..374be6e 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -158,7 +158,7 @@ class PropagatorComputer:
         _func_deprecation(
             "'compute_prop_grad' has been replaced " "by '_compute_prop_grad'"
         )
-        return self._compute_prop_grad(self, k, j, compute_prop=compute_prop)
+        return self._compute_prop_grad(k, j, compute_prop=compute_prop)
 
     def _compute_prop_grad(self, k, j, compute_prop=True):
         """
diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index ed08374..ef799bf 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -359,7 +359,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
             "'get_timeslot_for_fidelity_calc' is deprecated. "
             "Use '_get_timeslot_for_fidelity_calc'"
         )
-        return self._get_timeslot_for_fidelity_calc
+        return self._get_timeslot_for_fidelity_calc()
 
     def _get_timeslot_for_fidelity_calc(self):
         """
-- 
2.43.0


From 468236d6bac1dcbc614772e6c00b7871a15c3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 57/67] fix: evolution stayed that of the old timeslots when
 their durations were changed

---
 src/qutip_qtrl/dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index ac66ba9..de9c39d 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -607,12 +607,16 @@ class Dynamics(object):
             self._num_tslots = len(self._tau)
             self._evo_time = np.sum(self._tau)
 
+        old_time = self.time
         self.time = np.zeros(self._num_tslots + 1, dtype=float)
         # set the cumulative time by summing the time intervals
         for t in range(self._num_tslots):
             self.time[t + 1] = self.time[t] + self._tau[t]
 
         self._timeslots_initialized = True
+        if self.evo_current and not np.array_equal(self.time, old_time):
+            # The evolution was computed for the previous timeslots
+            self.flag_system_changed()
 
     def _set_memory_optimizations(self):
         """
-- 
2.43.0


From 6582fb0e3b46c98c8baf4e099ee99d78f1953368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:20 +0000
Subject: [PATCH 58/67] fix: onto_evo_target stayed the old one for measures
 that do not use it

---
 src/qutip_qtrl/dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index de9c39d..89546fb 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -829,11 +829,13 @@ class Dynamics(object):
         if self.fid_computer.uses_onwd_evo:
             # Time evolution operator (onward propagation)
             self._onwd_evo = [object for x in range(self.num_tslots)]
+        # The target may have changed
+        self._onto_evo_target = None
+        self._onto_evo_target_qobj = None
         if self.fid_computer.uses_onto_evo:
             # Onward propagation overlap with inverse target
             self._onto_evo = [object for x in range(self.num_tslots + 1)]
             self._onto_evo[self.num_tslots] = self._get_onto_evo_target()
-            self._onto_evo_target_qobj = None
 
         if isinstance(self.prop_computer, propcomp.PropCompDiag):
             self._create_decomp_lists()
-- 
2.43.0


From 965e9ee9c98c96d94d2cfd06a352a9439463cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:15 +0000
Subject: [PATCH 59/67] fix: optimize_pulse failed when logging at INFO with
 controls given per timeslot

---
 src/qutip_qtrl/pulseoptim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 42645a9..27b9150 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -508,8 +508,12 @@ def optimize_pulse(
             msg += "Drift {}:\n".format(dg_name)
             msg += str(dyn.drift_dyn_gen)
         for j in range(dyn.num_ctrls):
-            msg += "\nControl {} {}:\n".format(j + 1, dg_name)
-            msg += str(dyn.ctrl_dyn_gen[j])
+            if dyn.time_depend_ctrl_dyn_gen:
+                msg += "\nInitial control {} {}:\n".format(j + 1, dg_name)
+                msg += str(dyn.ctrl_dyn_gen[0, j])
+            else:
+                msg += "\nControl {} {}:\n".format(j + 1, dg_name)
+                msg += str(dyn.ctrl_dyn_gen[j])
         msg += "\nInitial state / operator:\n"
         msg += str(dyn.initial)
         msg += "\nTarget state / operator:\n"
-- 
2.43.0


From b487a410a753a927b8d3d1a51a8c17d96f1e50f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:15 +0000
Subject: [PATCH 60/67] fix: amplitude bounds of zero in the configuration were
 ignored

---
 src/qutip_qtrl/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 7eee753..b17c00e 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -273,10 +273,10 @@ class Optimizer(object):
         # AJGP 2015-04-21:
         # These (copying from config) are here for backward compatibility
         if hasattr(self.config, "amp_lbound"):
-            if self.config.amp_lbound:
+            if self.config.amp_lbound is not None:
                 self.amp_lbound = self.config.amp_lbound
         if hasattr(self.config, "amp_ubound"):
-            if self.config.amp_ubound:
+            if self.config.amp_ubound is not None:
                 self.amp_ubound = self.config.amp_ubound
 
         self.apply_params()
-- 
2.43.0


From d89b20fbffbae9f6910b802a0498831fa1223f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 61/67] fix: phase_application was not 'preop' by default

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 89546fb..be02773 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -388,7 +388,7 @@ class Dynamics(object):
         self._ctrl_dyn_gen = None
         self._phased_ctrl_dyn_gen = None
         self._dyn_gen_phase = None
-        self._phase_application = None
+        self._phase_application = "preop"
         self._initial = None
         self._target = None
         self._onto_evo_target = None
-- 
2.43.0


From 563b4630e31977f1ef9ac6e701e42b9117dc11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 62/67] fix: check drift and control generators at every
 initialisation

Only the ones of the first initialisation were converted and checked.
---
 src/qutip_qtrl/dynamics.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index be02773..b134ef8 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -729,10 +729,9 @@ class Dynamics(object):
         Set the time slices and cumulative time
         """
         # check evolution operators
-        if not self._drift_dyn_gen_checked:
-            _check_drift_dyn_gen(self.drift_dyn_gen)
-        if not self._ctrl_dyn_gen_checked:
-            self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        # (they may have been replaced since they were checked last)
+        _check_drift_dyn_gen(self.drift_dyn_gen)
+        self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
         # Sets time_depend_ctrl_dyn_gen, which is needed below
         self._get_num_ctrls()
 
-- 
2.43.0


From 62364c1848690a3350610411a301ac31065ebe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 63/67] fix: take Hamiltonians that are set again

drift_ham and ctrl_ham of unitary dynamics were ignored once they had been
mapped to the generators.
---
 src/qutip_qtrl/dynamics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index b134ef8..0b7c84f 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1604,14 +1604,21 @@ class DynamicsUnitary(Dynamics):
         Dynamics.initialize_controls(self, amplitudes, init_tslots=init_tslots)
 
     def _map_dyn_gen_to_ham(self):
-        if self.drift_dyn_gen is None:
+        # Once mapped, the _ham attributes count if they have been replaced
+        if self.drift_dyn_gen is None or (
+            self._dyn_gen_mapped and self.drift_ham is not self._mapped_drift
+        ):
             self.drift_dyn_gen = self.drift_ham
         else:
             self.drift_ham = self.drift_dyn_gen
-        if self.ctrl_dyn_gen is None:
+        if self.ctrl_dyn_gen is None or (
+            self._dyn_gen_mapped and self.ctrl_ham is not self._mapped_ctrls
+        ):
             self.ctrl_dyn_gen = self.ctrl_ham
         else:
             self.ctrl_ham = self.ctrl_dyn_gen
+        self._mapped_drift = self.drift_ham
+        self._mapped_ctrls = self.ctrl_ham
         self._dyn_gen_mapped = True
 
     @property
-- 
2.43.0


From 5e182d9d7ace5013cd6d5b5e5c569d71f942a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 64/67] fix: a refused initialisation leaves controls
 uninitialised

A run was accepted after initialize_controls had failed, because an earlier
one had succeeded.
---
 src/qutip_qtrl/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 0b7c84f..d293426 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -982,6 +982,8 @@ class Dynamics(object):
         Note this must be called after the configuration is complete
         before any dynamics can be calculated
         """
+        # not initialised, should any of the following fail
+        self._ctrls_initialized = False
         if not isinstance(self.prop_computer, propcomp.PropagatorComputer):
             raise errors.UsageError(
                 "No prop_computer (propagator computer) "
-- 
2.43.0


From 5c7286d5609a737d89bcf2f0de582e575bd4b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 65/67] fix: refused phase options do not stick, accepted ones
 count at once

An invalid phase_option raised an error but was kept, and the fidelity
already computed for another option was still reported as current.
---
 src/qutip_qtrl/fidcomp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 91add13..dde4048 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -318,7 +318,6 @@ class FidCompUnitary(FidelityComputer):
         self._init_phase_option(value)
 
     def _init_phase_option(self, value):
-        self._phase_option = value
         if value == "PSU":
             self.fid_norm_func = self.normalize_PSU
             self.grad_norm_func = self.normalize_gradient_PSU
@@ -334,6 +333,9 @@ class FidCompUnitary(FidelityComputer):
             raise errors.UsageError(
                 "No option for phase_option '{}'".format(value)
             )
+        self._phase_option = value
+        # What was normalised for another option is no longer current
+        FidelityComputer.flag_system_changed(self)
 
     def init_comp(self):
         """
-- 
2.43.0


From 5c94a1a88ca72c7b3d28c6731acc1276a356f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 66/67] fix: recalculate the trace difference scale factor

The calculated scale factor of the first system was kept for a system of
another size.
---
 src/qutip_qtrl/fidcomp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index dde4048..df41351 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -571,6 +571,7 @@ class FidCompTraceDiff(FidelityComputer):
         FidelityComputer.reset(self)
         self.id_text = "TRACEDIFF"
         self.scale_factor = None
+        self._calc_scale_factor = None
         self.uses_onwd_evo = True
         if not self.parent.prop_computer.grad_exact:
             raise errors.UsageError(
@@ -584,8 +585,13 @@ class FidCompTraceDiff(FidelityComputer):
         initialises the computer based on the configuration of the Dynamics
         Calculates the scale_factor is not already set
         """
-        if self.scale_factor is None:
+        # one that was calculated may be that of a system of another size
+        if (
+            self.scale_factor is None
+            or self.scale_factor == self._calc_scale_factor
+        ):
             self.scale_factor = 1.0 / (2.0 * self.parent.get_drift_dim())
+            self._calc_scale_factor = self.scale_factor
             if self.log_level <= logging.DEBUG:
                 logger.debug(
                     "Scale factor calculated as {}".format(self.scale_factor)
@@ -743,6 +749,7 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
         self.id_text = "TDAPPROX"
         self.uses_onwd_evo = True
         self.scale_factor = None
+        self._calc_scale_factor = None
         self.epsilon = 0.001
         self.apply_params()
 
-- 
2.43.0


From db1ec9554986278ef7f76abf3e21ee1127b61442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 67/67] fix: symplectic phase follows system size and operator
 type

Omega was kept from the first initialisation. Also accept phase_application
in any case, as its setter does.
---
 src/qutip_qtrl/dynamics.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index d293426..24246ce 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1802,6 +1802,7 @@ class DynamicsSymplectic(Dynamics):
         self.id_text = "SYMPL"
         self._omega = None
         self._omega_qobj = None
+        self._calc_dyn_gen_phase = None
         self._phase_application = "postop"
         self.grad_exact = True
         self.apply_params()
@@ -1848,11 +1849,12 @@ class DynamicsSymplectic(Dynamics):
                 self._dyn_gen_phase = phase
 
     def _get_dyn_gen_phase(self):
-        if self._phase_application == "postop":
+        ph_app = self._phase_application.lower()
+        if ph_app == "postop":
             phase = -self._get_omega()
-        elif self._phase_application == "preop":
+        elif ph_app == "preop":
             phase = self._get_omega()
-        elif self._phase_application == "custom":
+        elif ph_app == "custom":
             phase = None
             # Assume phase set by user
         else:
@@ -1860,8 +1862,18 @@ class DynamicsSymplectic(Dynamics):
                 "No option for phase_application "
                 "'{}'".format(self._phase_application)
             )
+        self._calc_dyn_gen_phase = phase
         return phase
 
+    def _init_phase(self):
+        # Omega depends on the size of the system and the operator type,
+        # which may have changed
+        self._omega = None
+        self._omega_qobj = None
+        if self._dyn_gen_phase is self._calc_dyn_gen_phase:
+            self._dyn_gen_phase = None
+        Dynamics._init_phase(self)
+
     @property
     def dyn_gen_phase(self):
         r"""
-- 
2.43.0

