From 3ff89959fe4cca1d00d90324e9edf724ba8f4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 001/167] fix: TrialKey.sort must reorder the condition masks
 along their model/segment axes

---
 hyperion/utils/trial_key.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index e1aed9a..f5db874 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -73,11 +73,11 @@ class TrialKey(object):
         self.tar = self.tar[ix]
         self.non = self.non[ix]
         if self.model_cond is not None:
-            self.model_cond = self.model_cond[m_idx]
+            self.model_cond = self.model_cond[:, m_idx]
         if self.seg_cond is not None:
-            self.seg_cond = self.seg_cond[s_idx]
+            self.seg_cond = self.seg_cond[:, s_idx]
         if self.trial_cond is not None:
-            self.trial_cond = self.trial_cond[:, ix]
+            self.trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         
     def save(self, file_path):
-- 
2.43.0


From 1404096e34f5c7aebfad13af10f5df507f161d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 002/167] fix: TrialKey.filter and split must select trial
 conditions by model and segment

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index f5db874..9e14777 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -363,7 +363,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -403,7 +403,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx1]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
-- 
2.43.0


From 4a2ab78859055b0494c0795f363823d3fdcbaf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 003/167] fix: TrialKey.merge must place segment and trial
 conditions on the segment axis

---
 hyperion/utils/trial_key.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 9e14777..c547813 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -281,11 +281,11 @@ class TrialKey(object):
                 model_cond_1 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_1[:, mi_a] = model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_1 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_1[:, mi_a] = seg_cond[:, mi_b]
+                seg_cond_1 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_1[:, si_a] = seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_1 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_1[:, ix_a] = trial_cond[:, ix_b]
+                trial_cond_1 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_1[:, ix_a[0], ix_a[1]] = trial_cond[:, ix_b[0], ix_b[1]]
 
                 
             _, mi_a, mi_b = intersect(new_model_set, key_i.model_set,
@@ -302,11 +302,11 @@ class TrialKey(object):
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_2 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_2[:, mi_a] = key_i.seg_cond[:, mi_b]
+                seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_2 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_2[:, ix_a] = key_i.trial_cond[:, ix_b]
+                trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_2[:, ix_a[0], ix_a[1]] = key_i.trial_cond[:, ix_b[0], ix_b[1]]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -317,7 +317,7 @@ class TrialKey(object):
             if seg_cond is not None:
                 seg_cond = np.logical_or(seg_cond_1, seg_cond_2)
             if trial_cond is not None:
-                trial_cond = np.logical_or(trial_cond_1, seg_cond_2)
+                trial_cond = np.logical_or(trial_cond_1, trial_cond_2)
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
-- 
2.43.0


From 07a4c00d39129db86e337ced28bf876cf800c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 004/167] fix: TrialKey.__eq__ misspelled trial_cond

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index c547813..0b64df5 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -474,7 +474,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             eq = eq and np.all(self.seg_cond == other.seg_cond)
         if self.trial_cond is not None:
-            eq = eq and np.all(self.triall_cond == other.trial_cond)
+            eq = eq and np.all(self.trial_cond == other.trial_cond)
 
         eq = eq and (
             (self.model_cond_name is None) == (other.model_cond_name is None))
@@ -488,7 +488,7 @@ class TrialKey(object):
         if self.seg_cond_name is not None:
             eq = eq and np.all(self.seg_cond_name == other.seg_cond_name)
         if self.trial_cond_name is not None:
-            eq = eq and np.all(self.triall_cond_name == other.trial_cond_name) 
+            eq = eq and np.all(self.trial_cond_name == other.trial_cond_name) 
 
         return eq
 
-- 
2.43.0


From 4f840a4f67040e2b4f28e31ce4aed048856b8e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 005/167] fix: TrialScores.filter keep=False must exclude
 segments from the segment list

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 3cf58e8..60fc267 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -247,7 +247,7 @@ class TrialScores(object):
 
         if not(keep):
             model_set=np.setdiff1d(self.model_set, model_set)
-            seg_set=np.setdiff1d(self.model_set, seg_set)
+            seg_set=np.setdiff1d(self.seg_set, seg_set)
 
         f_mod, mod_idx = ismember(model_set, self.model_set)
         f_seg, seg_idx = ismember(seg_set, self.seg_set)
-- 
2.43.0


From b3a006f24f7c195865099a647961578aa937e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 006/167] fix: SCPList.validate must convert the range
 specifiers, not the offsets

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index f26a932..49e3348 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -52,7 +52,7 @@ class SCPList(object):
                 self.range_spec = None
             else:
                 if isinstance(self.range_spec, list):
-                    self.range_spec = np.array(self.offset, dtype=np.int64)
+                    self.range_spec = np.array(self.range_spec, dtype=np.int64)
                 assert len(self.key) == self.range_spec.shape[0]
                 assert self.range_spec.shape[1] == 2
 
-- 
2.43.0


From 7a4f2454468f5a92dace79cb658813f4afd8c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 007/167] fix: accumulating weighted statistics must not scale
 the caller's data

---
 hyperion/pdfs/core/exp_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index f252af2..87f0d1f 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -84,7 +84,7 @@ class ExpFamily(PDF):
         if sample_weight is None:
             N = u_x.shape[0]
         else:
-            u_x *= sample_weight[:, None]
+            u_x = u_x * sample_weight[:, None]
             N = np.sum(sample_weight)
         acc_u_x = np.sum(u_x, axis=0)
         return N, acc_u_x
-- 
2.43.0


From 0669d43af41d086d72be00bf13dacc3fa53f3ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 008/167] fix: add_suff_stats must add every entry and leave
 its inputs alone

---
 hyperion/pdfs/core/exp_family.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index 87f0d1f..bd04fee 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -111,11 +111,11 @@ class ExpFamily(PDF):
     
     def add_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
     
-- 
2.43.0


From da22b2df511505e87cc09fd473f8df2f0d1fcb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 009/167] fix: sum_suff_stats must add every entry and leave
 its inputs alone

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 72608bf..f50c1d3 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -407,11 +407,11 @@ class ExpFamilyMixture(PDF):
     
     def sum_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
 
-- 
2.43.0


From 9020e7a44b534e8f1ef7f859a5a1cbdf58e4273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 010/167] fix: GMM.norm_suff_stats second order statistics used
 undefined names and overwrote its input

---
 hyperion/pdfs/mixtures/gmm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d84b230..d6cf426 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -153,16 +153,17 @@ class GMM(ExpFamilyMixture):
     def norm_suff_stats(self, N, u_x, return_order2=False):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = F - N[:,None]*self.mu
+        S_norm = np.zeros_like(S)
         for k in xrange(self.num_comp):
             F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
             if return_order2:
-                SS = vec2symat(S[k])
-                Fmu = np.outer(self.F[k], self.mu[k])
-                SS = SS-Fmu-Fmu.T+N*np.outer(self.mu[k],self.mu[k])
+                SS = vec2symmat(S[k])
+                Fmu = np.outer(F[k], self.mu[k])
+                SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
                 SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
-                S[k] = symmat2vec(SS)
+                S_norm[k] = symmat2vec(SS)
         if return_order2:
-            return N, self.stack_suff_stats(F_norm, S)
+            return N, self.stack_suff_stats(F_norm, S_norm)
         return N, F_norm
 
     
-- 
2.43.0


From 7336118d333c4961abb6961706b50e4e9c98afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 011/167] fix: GMMDiagCov.Mstep removed components through
 undefined names and overwrote the statistics

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 266a95a..f49a409 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -162,9 +162,12 @@ class GMMDiagCov(ExpFamilyMixture):
         if self.update_pi:
             N0 = N < self.min_N
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                if self.update_mu:
+                    self.mu[N0] = 0
+                if self.update_Lambda:
+                    S[N0] = 1
+                    self.Lambda[N0] = 1
             self.pi = N/np.sum(N)
             
         self._compute_nat_params()
-- 
2.43.0


From 448cc2683dd8c02878070350ec575ab70274a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 012/167] fix: GMMTiedDiagCov.Mstep removed components through
 undefined names and overwrote the statistics

---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index a528c76..1d5d5b5 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -95,9 +95,9 @@ class GMMTiedDiagCov(GMMDiagCov):
         if self.update_pi:
             N0 = N < self.min_N
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                if self.update_mu:
+                    self.mu[N0] = 0
             self.pi = N/np.sum(N)
             
         self._compute_nat_params()
-- 
2.43.0


From 4214ad86c645b850c75bb0bd961a662790f62612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 013/167] fix: llr_NvsM_book must not centre the caller's
 statistics in place

---
 hyperion/pdfs/plda/plda.py  | 4 ++--
 hyperion/pdfs/plda/splda.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index dbda90f..93b49e4 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -474,8 +474,8 @@ class PLDA(PLDABase):
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index c37f3de..7b5bbea 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -328,8 +328,8 @@ class SPLDA(PLDABase):
         VV = np.dot(self.V, WV)
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
-- 
2.43.0


From c61f45e4c79f0a25ec8bddbcbf50f13ed979b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 014/167] fix: compute_stats_soft must not scale the caller's
 posteriors in place

---
 hyperion/pdfs/plda/plda_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 83a6449..fb29827 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -224,7 +224,7 @@ class PLDABase(PDF):
         if sample_weight is not None:
             p_theta = sample_weight[:, None]*p_theta
         if scal_factor is not None:
-            p_theta *= scal_factor
+            p_theta = scal_factor*p_theta
         N = np.sum(p_theta, axis=0)
         F = np.dot(p_theta.T, x)
         wx = np.sum(p_theta, axis=1, keepdims=True)*x
-- 
2.43.0


From 848bb35fb8a54c72e54072533111814a2c47895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 015/167] fix: score normalization with masks must not erase
 the caller's cohort scores

---
 hyperion/score_norm/adapt_s_norm.py | 4 ++--
 hyperion/score_norm/t_norm.py       | 2 +-
 hyperion/score_norm/z_norm.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index abf7351..494e435 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -34,9 +34,9 @@ class AdaptSNorm(ScoreNorm):
             nbest = self.nbest
 
         if mask_coh_test is not None:
-            scores_coh_test[mask_coh_test == False] = 0
+            scores_coh_test = np.where(mask_coh_test, scores_coh_test, 0)
         if mask_enr_coh is not None:
-            scores_enr_coh[mask_enr_coh == False] = 0
+            scores_enr_coh = np.where(mask_enr_coh, scores_enr_coh, 0)
             
         best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 11999e9..2299446 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -21,7 +21,7 @@ class TNorm(ScoreNorm):
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)
             s_t = np.std(scores_coh_test, axis=0, keepdims=True)
         else:
-            scores_coh_test[mask==False] = 0
+            scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
             s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b758268..9b968d8 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -22,7 +22,7 @@ class ZNorm(ScoreNorm):
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)
             s_z = np.std(scores_enr_coh, axis=1, keepdims=True)
         else:
-            scores_enr_coh[mask==False] = 0
+            scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
             s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
-- 
2.43.0


From 6729233aecb688e8faae3b95e22340b95fc5a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 016/167] fix: CentWhitenUP.predict must not overwrite the
 variances it is given

---
 hyperion/transforms/cent_whiten_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 855385b..1e2d3d0 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -28,7 +28,7 @@ class CentWhitenUP(CentWhiten):
     def predict(self, x):
         x_dim = int(x.shape[-1]/2)
         m_x = x[:,:x_dim]
-        s2_x = x[:,x_dim:]
+        s2_x = np.array(x[:,x_dim:])
         m_x = super(CentWhitenUP, self).predict(m_x)
         for i in xrange(x.shape[0]):
             s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
-- 
2.43.0


From 78ee78faa63b25569bed623fb8177c2c681d8357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 017/167] fix: compute_xlabel_confusion_matrix must not shift
 the caller's labels

---
 hyperion/metrics/confusion_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 8789d6b..f9ae146 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -74,7 +74,7 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
-        y_pred += num_classes_test
+        y_pred = y_pred + num_classes_test
     elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
     y_true.dtype.type, np.dtype('S')): 
         y_true = np.asarray(['TEST_' + s for s in y_true])
@@ -84,7 +84,7 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
 
     if issubclass(labels_train.dtype.type, np.integer):
-        labels_train += num_classes_test
+        labels_train = labels_train + num_classes_test
     elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
     labels_train.dtype.type, np.dtype('S')): 
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
-- 
2.43.0


From 5a001f28644e0ee1003f8dd142deedc1465e55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 018/167] fix: MFCC.compute must not write the energy into the
 spectrogram it is given

---
 hyperion/feats/mfcc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 2c74474..9b83a26 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -320,6 +320,7 @@ class MFCC(object):
             if self._output_step == MFCCSteps.LOGFB:
                 R = np.hstack((logE[:, None], R))
             else:
+                R = np.array(R)
                 R[:,0] = logE
 
         if not(return_fft or return_fft_mag or return_logfb):
-- 
2.43.0


From 18998ddd3d19786d6014b4ab91fc27da7498bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 019/167] fix: sliding-window statistics crashed for one window
 and for overlapping windows

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index f50c1d3..d9ac40a 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -299,8 +299,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         if u_x is None:
             u_x = self.compute_suff_stats(x)
@@ -335,8 +333,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
@@ -347,7 +343,7 @@ class ExpFamilyMixture(PDF):
         
         sw_i = None
         cur_segment=0
-        for i1 in xrange(0, x.shape[0], batch_shift):
+        for i1 in xrange(0, num_segments*frame_shift, batch_shift):
             i2 = np.minimum(i1+batch_size, x.shape[0])
             x_i = x[i1:i2,:]
             if sample_weight is not None:
-- 
2.43.0


From 505b40736812340ea4896514866a6d0ebf716cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 020/167] fix: LogisticRegression.fit must not rescale the
 caller's sample weights in place

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3283492..e95ff31 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -151,7 +151,7 @@ class LogisticRegression(HypModel):
         if sample_weight is None:
             sample_weight = class_weights[class_ids]
         else:
-            sample_weight *= class_weights[class_ids]
+            sample_weight = sample_weight * class_weights[class_ids]
             
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
-- 
2.43.0


From 6c32b43cf3ed12043964140e78cf0b1741d82ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 021/167] fix: loading a model whose optional parameters were
 not saved must give None

---
 hyperion/hyp_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 3082a3c..3063d32 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -124,7 +124,11 @@ class HypModel(object):
         param_dict = {}
         for k in params:
             p_name = prefix + k
-            param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
+            if p_name in f:
+                param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
+            else:
+                # parameters that were None are not saved
+                param_dict[k] = None
         return param_dict
 
     
-- 
2.43.0


From 54e075fda3411c26c8995b5e5eae41314749e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 022/167] fix: Normal load_params used an undefined name

---
 hyperion/pdfs/core/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 39342a5..110ce6e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -207,7 +207,7 @@ class Normal(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From 36bd631a282639d24a55e99cfeed6a389fde82a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 023/167] fix: NormalDiagCov load_params used an undefined name

---
 hyperion/pdfs/core/normal_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 6048f80..7575143 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -173,7 +173,7 @@ class NormalDiagCov(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From f658390e4e6599ff46384d06d939b09a17397527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 024/167] fix: GMMDiagCov.load_params used an undefined name

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index f49a409..d40c951 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -252,7 +252,7 @@ class GMMDiagCov(ExpFamilyMixture):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['pi', 'mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'], pi=params['pi'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From a7b55bac6d45eb25f96f04c3d0b9b45d5b4a54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 025/167] fix: GMM.get_config named a class that does not exist

---
 hyperion/pdfs/mixtures/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d6cf426..22a12fc 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -251,7 +251,7 @@ class GMM(ExpFamilyMixture):
         config = {'var_floor': self.var_floor,
                   'update_mu': self.update_mu,
                   'update_lambda': self.update_Lambda }
-        base_config = super(DiagGMM, self).get_config()
+        base_config = super(GMM, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
-- 
2.43.0


From 6a56797fe7e60b74269e9d972cb9dab9194106bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 026/167] fix: LDA.load_params must restore the update options

---
 hyperion/transforms/lda.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/lda.py b/hyperion/transforms/lda.py
index e7bb778..9bacfd8 100644
--- a/hyperion/transforms/lda.py
+++ b/hyperion/transforms/lda.py
@@ -86,7 +86,9 @@ class LDA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
         
     # @classmethod
-- 
2.43.0


From edb92508a7e78ca9b09681bd6ea4d14af430a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 027/167] fix: CentWhiten.load_params must restore the update
 options

---
 hyperion/transforms/cent_whiten.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5241cb0..0bbd3e5 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -89,7 +89,9 @@ class CentWhiten(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
     
     
-- 
2.43.0


From 58525d9b94d287a31100a03c1d015cc4cff3a2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 028/167] fix: PCA.load_params must restore the update options

---
 hyperion/transforms/pca.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index bd93077..7968a41 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -85,7 +85,9 @@ class PCA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
     
 
     
-- 
2.43.0


From 043901ac64d92cc3a209a751690782d3d9fd5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 029/167] fix: SbSw must keep the statistics it is given and
 load the saved ones

---
 hyperion/transforms/sb_sw.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 7507fcd..efd90a8 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -21,9 +21,9 @@ class SbSw(HypModel):
     """
     def __init__(self, Sb=None, Sw=None, mu=None, num_classes=0, **kwargs):
         super(SbSw, self).__init__(**kwargs)
-        self.Sb = None
-        self.Sw = None
-        self.mu = None
+        self.Sb = Sb
+        self.Sw = Sw
+        self.mu = mu
         self.num_classes = num_classes
 
         
@@ -82,13 +82,12 @@ class SbSw(HypModel):
 
         
     @classmethod
-    def load(cls, file_path):
-        with h5py.File(file_path,'r') as f:
-            config = self.load_config_from_json(f['config'])
-            param_list = ['mu', 'Sb', 'Sw', 'num_classes']
-            params = cls._load_params_to_dict(f, config['name'], param_list)
-            kwargs = dict(list(config.items()) + list(params.items()))
-            return cls(**kwargs)
+    def load_params(cls, f, config):
+        param_list = ['mu', 'Sb', 'Sw', 'num_classes']
+        params = cls._load_params_to_dict(f, config['name'], param_list)
+        params['num_classes'] = int(params['num_classes'])
+        kwargs = dict(list(config.items()) + list(params.items()))
+        return cls(**kwargs)
         
         
 
-- 
2.43.0


From 0937798f05576380907f4fb5bd2d2b8f5a76b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 030/167] fix: GaussCalibration.load_params must take sigma2
 from the parameters

---
 hyperion/calibration/gauss_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index f1d613f..70f083d 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -75,6 +75,6 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=config['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'], name=config['name'])
 
     
-- 
2.43.0


From 6344998966c52b3442d0085bf387ced2baf52950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 031/167] fix: loading a TransformList must not prefix the
 names of its members again

---
 hyperion/transforms/transform_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/transform_list.py b/hyperion/transforms/transform_list.py
index 8d4c0b0..af8d27f 100644
--- a/hyperion/transforms/transform_list.py
+++ b/hyperion/transforms/transform_list.py
@@ -82,5 +82,8 @@ class TransformList(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # the member names already contain the name of the list
+        transform_list = cls(transforms)
+        transform_list.name = config['name']
+        return transform_list
             
-- 
2.43.0


From 3188ac7901ac1c569eb283796ca538c34e65daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 032/167] fix: LinearSVMC must undo the bias scaling when it is
 built from parameters

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 06de3d4..7558168 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -51,7 +51,7 @@ class LinearSVMC(HypModel):
             self.svm.coef_ = A.T
 
         if b is not None:
-            self.svm.intercept_ = b
+            self.svm.intercept_ = b/self.bias_scaling
 
 
     @property
-- 
2.43.0


From e55a7c51a8e775569daff3c83f3619b4543fd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 033/167] fix: linear_gbe1: LinearGBE.fit used undefined r_w

---
 hyperion/classifiers/linear_gbe1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe1.py b/hyperion/classifiers/linear_gbe1.py
index 188cfef..3d9b650 100644
--- a/hyperion/classifiers/linear_gbe1.py
+++ b/hyperion/classifiers/linear_gbe1.py
@@ -132,7 +132,7 @@ class LinearGBE(HypModel):
             if self.balance_class_weight:
                 S /= self.num_classes
             else:
-                S /= (self.num_classes*r_w+np.sum(N))
+                S /= (self.num_classes*r_W+np.sum(N))
             
             self.W = invert_pdmat(S, return_inv=True)[-1]
 
-- 
2.43.0


From 5ded8b27429330c9559a9c9a9d41ceb9d14715cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 034/167] fix: AHC.compute_flat_clusters lacked self and
 relabelled with all rows

---
 hyperion/clustering/ahc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index e0fe037..5d7a165 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -87,7 +87,7 @@ class AHC(HypModel):
 
     
 
-    def compute_flat_clusters():
+    def compute_flat_clusters(self):
         N = self.Z.shape[0]+1
         flat_clusters = np.zeros((N,N), dtype=int)
         flat_clusters[0] = np.arange(N, dtype=int)
@@ -98,7 +98,7 @@ class AHC(HypModel):
             flat_clusters[i+1][segm_idx] = N + i
 
         for i in xrange(1,N):
-            _, flat_clusters[i] = np.unique(flat_clusters, return_inverse=True)
+            _, flat_clusters[i] = np.unique(flat_clusters[i], return_inverse=True)
         self.flat_clusters = flat_clusters
 
 
-- 
2.43.0


From 0c2f911d5be3868d663b16208a834d0c757c3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 035/167] fix: plda_factory: filter_train_args used undefined
 ne_args1

---
 hyperion/helpers/plda_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 2713f77..cae022f 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -65,7 +65,7 @@ class PLDAFactory(object):
         neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',
                       'update_B', 'update_W', 'update_D')
 
-        for a,b in zip(ne_args1, neg_args2):
+        for a,b in zip(neg_args1, neg_args2):
             d[b] = not d[a]
             del d[a]
 
-- 
2.43.0


From 937e6523bfcf563ed1b51f742ee41740d9d8529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 036/167] fix: SequentialArkFileDataReader.read indexed offsets
 with an undefined i

---
 hyperion/io/ark_data_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3385d20..f91087b 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -234,8 +234,8 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
                 self._eof = True
                 break
             
-            row_offset_i = row_offset[i] if row_offset_is_list else row_offset
-            num_rows_i = num_rows[i] if num_rows_is_list else num_rows
+            row_offset_i = row_offset[count] if row_offset_is_list else row_offset
+            num_rows_i = num_rows[count] if num_rows_is_list else num_rows
             
             binary = init_kaldi_input_stream(self.f)
             data_i = KaldiMatrix.read(
-- 
2.43.0


From 47aba54f75aeecf2e86ec3a0960b88dae0ee4f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 037/167] fix: AudioReader._read_segment error message used
 undefined names

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index acf1b27..5a6f116 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -131,7 +131,7 @@ class AudioReader(object):
         s_beg = int(t_beg * fs_i)
         if s_beg >= num_samples_i:
             raise Exception('segment %s tbeg=%.2f (num_sample=%d) longer that wav file %s (num_samples=%d)' % (
-                key, tbeg, sbeg, file_id, num_samples_i))
+                segment.name, t_beg, s_beg, file_id, num_samples_i))
 
         s_end = int(t_end * fs_i)
         if s_end > num_samples_i or t_end < 0:
-- 
2.43.0


From 35cd5d035098ee7f3d891c549319405cb3b3572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 038/167] fix: raise ValueError for malformed ascii matrices
 instead of undefined BadInputFormat

---
 hyperion/io/kaldi_data_reader.py | 2 +-
 hyperion/utils/kaldi_matrix.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index bc7c3d3..8e3dc1e 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -137,7 +137,7 @@ class KaldiDataReader(object):
             rows = []
             while 1:
                   line = f.readline()
-                  if (len(line) == 0) : raise BadInputFormat # eof, should not happen!
+                  if (len(line) == 0) : raise ValueError("EOF reading matrix") # eof, should not happen!
                   if len(line.strip()) == 0 : continue # skip empty line
                   arr = line.strip().split()
                   if arr[-1] != b']':
diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 04f20b9..84a58b0 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -126,7 +126,7 @@ class KaldiMatrix(object):
                     line = line.decode('ascii')
                     
                 if len(line) == 0 :
-                    raise BadInputFormat('EOF reading matrix') # eof, should not happen!
+                    raise ValueError('EOF reading matrix') # eof, should not happen!
                 if len(line.strip()) == 0 : continue # skip empty line
 
                 arr = line.strip().split()
-- 
2.43.0


From f04d918ed45adabf1296794cf2ab865f56d4dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 039/167] fix: confusion_matrix: sys was not imported

---
 hyperion/metrics/confusion_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index f9ae146..e234429 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -7,6 +7,7 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import sys
 import numpy as np
 import matplotlib.pyplot as plt
 from sklearn.metrics import confusion_matrix
-- 
2.43.0


From b51f32e1069b4cf70c7810c54a2878840f5847ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 040/167] fix: filter_roc returned an undefined name

---
 hyperion/metrics/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 80b6be9..0070e7b 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -181,7 +181,7 @@ def filter_roc(p_miss,p_fa):
     new_p_miss[out] = p_miss[-1]
     new_p_fa[out] = p_fa[-1]
     new_p_miss = new_p_miss[:out]
-    new_p_fa = new_fa[:out]
+    new_p_fa = new_p_fa[:out]
 
     return new_p_miss, new_p_fa
 
-- 
2.43.0


From 0936ac3317dc7ebaf64782139c8ce4415a6a043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 041/167] fix: Normal.norm_suff_stats used undefined vec2symat
 and self.F

---
 hyperion/pdfs/core/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 110ce6e..38b22cc 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -123,8 +123,8 @@ class Normal(ExpFamily):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
         if return_order2:
-            SS = vec2symat(S)
-            Fmu = np.outer(self.F, self.mu)
+            SS = vec2symmat(S)
+            Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
             SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
             S = symmat2vec(SS)
-- 
2.43.0


From 262eae0a7120248a85ba29883eac720741c332b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 042/167] fix: GMMDiagCov.norm_suff_stats used undefined
 acc_u_x

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index d40c951..2035c4c 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -132,7 +132,7 @@ class GMMDiagCov(ExpFamilyMixture):
 
     
     def norm_suff_stats(self, N, u_x, return_order2=False):
-        F, S = self.unstack_suff_stats(acc_u_x)
+        F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
             S=S-2*self.mu*F+N*self.mu**2
-- 
2.43.0


From 39a686928c098bfc6c324e387ae8c6957204ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 043/167] fix: TZNorm and ZTNorm constructors named undefined
 SNorm in super()

---
 hyperion/score_norm/tz_norm.py | 2 +-
 hyperion/score_norm/zt_norm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 89bca45..2afafb0 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(*kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index b0f9f9b..422da0b 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(*kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
-- 
2.43.0


From 444b7c4d44d3fee866b9ace2bc4367399d5d58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 044/167] fix: CentWhiten.predict used undefined T with
 diagonal transforms

---
 hyperion/transforms/cent_whiten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 0bbd3e5..5985827 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -32,7 +32,7 @@ class CentWhiten(HypModel):
             x = x - self.mu
         if self.T is not None:
             if self.T.ndim == 1:
-                x = x*T
+                x = x*self.T
             else:
                 x = np.dot(x, self.T)
         return x
-- 
2.43.0


From 87e2b91e0d91ee2417048df074705b974d69e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 045/167] fix: kaldi_matrix: wrong tokens were detected but the
 error was not raised

---
 hyperion/utils/kaldi_matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 84a58b0..82f0ffa 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -77,11 +77,11 @@ class KaldiMatrix(object):
             if token[0] == 'F' : dtype = 'float32'
             elif token[0] == 'D': dtype = 'float64'
             else:
-                ValueError('Wrong token %s ' % token)
+                raise ValueError('Wrong token %s ' % token)
             if token[1] == 'V' : ndim = 1
             elif token[1] == 'M': ndim = 2
             else:
-                ValueError('Wrong token %s ' % token)
+                raise ValueError('Wrong token %s ' % token)
 
             rows_left = 0
             if ndim == 2:
@@ -211,11 +211,11 @@ class KaldiMatrix(object):
             if token[0] == 'F' : dtype = 'float32'
             elif token[0] == 'D': dtype = 'float64'
             else:
-                ValueError('Wrong token %s ' % token)
+                raise ValueError('Wrong token %s ' % token)
             if token[1] == 'V' : ndim = 1
             elif token[1] == 'M': ndim = 2
             else:
-                ValueError('Wrong token %s ' % token)
+                raise ValueError('Wrong token %s ' % token)
 
             if ndim == 2:
                 num_rows = read_int32(f, binary)
-- 
2.43.0


From 2be34df395e0d70f61f5fb6147e1a053f4aec7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 046/167] fix: KaldiCompressedMatrix.read_shape used undefined
 row_offset

---
 hyperion/utils/kaldi_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 82f0ffa..4691524 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -804,7 +804,7 @@ class KaldiCompressedMatrix(object):
 
                 return (num_rows, num_cols)
             else:
-                matrix = KaldiMatrix.read(f, binary, row_offset, num_rows)
+                matrix = KaldiMatrix.read(f, binary)
                 return matrix.data.shape
 
         matrix = KaldiMatrix.read(f, binary)
-- 
2.43.0


From e0318aca943bfb4c7e7e5035dc9632228d8cadc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 047/167] fix: queues: missing imports of ThreadPool and random

---
 hyperion/io/queues.py    | 5 +++--
 hyperion/utils/queues.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 11d6c4b..c632a10 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -8,9 +8,11 @@ from __future__ import absolute_import
 import warnings
 import copy
 import time
+import random
 import numpy as np
 import multiprocessing
 import threading
+from multiprocessing.pool import ThreadPool
 import six
 from abc import abstractmethod
 
@@ -135,8 +137,7 @@ class OrderedQueue(SequenceQueue):
                 if self.stop_signal.is_set():
                     return
                 self.queue.put(
-                    self.executor.apply_async(get_index,
-                                              (self.sequence, i)), block=True)
+                    self.executor.apply_async(self.sequence.__getitem__, (i,)), block=True)
 
     def get(self):
         """Creates a generator to extract data from the queue.
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 11d6c4b..c632a10 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -8,9 +8,11 @@ from __future__ import absolute_import
 import warnings
 import copy
 import time
+import random
 import numpy as np
 import multiprocessing
 import threading
+from multiprocessing.pool import ThreadPool
 import six
 from abc import abstractmethod
 
@@ -135,8 +137,7 @@ class OrderedQueue(SequenceQueue):
                 if self.stop_signal.is_set():
                     return
                 self.queue.put(
-                    self.executor.apply_async(get_index,
-                                              (self.sequence, i)), block=True)
+                    self.executor.apply_async(self.sequence.__getitem__, (i,)), block=True)
 
     def get(self):
         """Creates a generator to extract data from the queue.
-- 
2.43.0


From b3052fb4b9506ef12ae8aef6a6061d981a48aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 048/167] fix: RTTM.filter called np.asrray

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3abbdb6..e769a6e 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -304,7 +304,7 @@ class RTTM(object):
     def filter(self, filter_key, keep=True):
         if not keep :
             filter_key = np.setdiff1d(
-                np.asrray(self.segments.index), filter_key)
+                np.asarray(self.segments.index), filter_key)
         df = self.segments.loc[filter_key]
         return RTTM(df, index_by_file=self.index_by_file)
     
-- 
2.43.0


From 8bb36cadac9484481f39e091d1ec18da3c9b9eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 049/167] fix: SegmentList: wrong pandas class name,
 frame_shift attribute

---
 hyperion/utils/segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 6819738..e2beef4 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -43,7 +43,7 @@ class SegmentList(object):
         
     @classmethod
     def create(cls, segment_id, file_id, tbeg, tend, index_by_file=True):
-        segments = pd.Dataframe({'segment_id': segment_id,
+        segments = pd.DataFrame({'segment_id': segment_id,
                                  'file_id': file_id,
                                  'tbeg': tbeg,
                                  'tend': tend})
@@ -301,7 +301,7 @@ class SegmentList(object):
             else:
                 file_id = self.segments.loc[key]['file_id']
                 sel_idx = self.segments['file_id'] == file_id
-                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/self.frame_shift))
+                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/frame_shift))
                 
         tend = np.minimum(num_frames-1, tend)                
         vad = np.zeros((num_frames,), dtype=int)
-- 
2.43.0


From 5665f54a813651363bd08f171f2889904b24cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 050/167] fix: trial lists: undefined names in __cmp__ and
 TrialScores.validate

---
 hyperion/utils/trial_key.py    | 2 +-
 hyperion/utils/trial_ndx.py    | 2 +-
 hyperion/utils/trial_scores.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 0b64df5..e2ec7f3 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -502,7 +502,7 @@ class TrialKey(object):
     
     def __cmp__(self, other):
         """Comparison operator"""
-        if self.__eq__(oher):
+        if self.__eq__(other):
             return 0
         return 1
 
diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index bf96196..faf4635 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -345,7 +345,7 @@ class TrialNdx(object):
     
     def __cmp__(self, other):
         """Comparison operator"""
-        if self.__eq__(oher):
+        if self.__eq__(other):
             return 0
         return 1
 
diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 60fc267..e488f2b 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -311,7 +311,7 @@ class TrialScores(object):
         assert(len(np.unique(self.model_set)) == len(self.model_set))
         assert(len(np.unique(self.seg_set)) == len(self.seg_set))
         if self.scores is None:
-            self.scores = np.zeros((len(model_set), len(seg_set)))
+            self.scores = np.zeros((len(self.model_set), len(self.seg_set)))
         else:
             assert(self.scores.shape ==
                    (len(self.model_set), len(self.seg_set)))
@@ -430,7 +430,7 @@ class TrialScores(object):
     
     def __cmp__(self, other):
         """Comparison operator"""
-        if self.__eq__(oher):
+        if self.__eq__(other):
             return 0
         return 1
 
-- 
2.43.0


From a1f660452ee77d500d2bac7517d65128cb05c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 051/167] fix: trial data readers split the TrialNdx class
 instead of the loaded ndx

---
 hyperion/helpers/classif_trial_data_reader.py    | 2 +-
 hyperion/helpers/multi_test_trial_data_reader.py | 2 +-
 hyperion/helpers/tracking_data_reader.py         | 2 +-
 hyperion/helpers/trial_data_reader.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/classif_trial_data_reader.py b/hyperion/helpers/classif_trial_data_reader.py
index 44e9b3b..b0c32a1 100644
--- a/hyperion/helpers/classif_trial_data_reader.py
+++ b/hyperion/helpers/classif_trial_data_reader.py
@@ -41,7 +41,7 @@ class ClassifTrialDataReader(object):
         ndx = TrialNdx(model_set, seg_set)
         logging.debug(num_seg_parts)
         if num_seg_parts > 1:
-            ndx = TrialNdx.split(1, 1, seg_idx, num_seg_parts)
+            ndx = ndx.split(1, 1, seg_idx, num_seg_parts)
 
         self.ndx = ndx
 
diff --git a/hyperion/helpers/multi_test_trial_data_reader.py b/hyperion/helpers/multi_test_trial_data_reader.py
index 71ac5a0..b8c7b3e 100644
--- a/hyperion/helpers/multi_test_trial_data_reader.py
+++ b/hyperion/helpers/multi_test_trial_data_reader.py
@@ -45,7 +45,7 @@ class MultiTestTrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             subseg2orig =subseg2orig.filter_info(ndx.seg_set)
 
diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 47db46f..620027e 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -38,7 +38,7 @@ class TrackingDataReader(object):
 
         segments = ExtSegmentList.load(segments_file)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             segments = segments.filter(ndx.seg_set)
         
diff --git a/hyperion/helpers/trial_data_reader.py b/hyperion/helpers/trial_data_reader.py
index 1fdbeea..9ce9dd8 100644
--- a/hyperion/helpers/trial_data_reader.py
+++ b/hyperion/helpers/trial_data_reader.py
@@ -43,7 +43,7 @@ class TrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
 
         self.enroll = enroll
-- 
2.43.0


From abfac4ff9fdcb02c006542ccb14cfdf0571fa6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 052/167] fix: TrialNdx.parse_eval_set read file_path of an
 Utt2Info

---
 hyperion/utils/trial_ndx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index faf4635..ea8bf2c 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -227,12 +227,12 @@ class TrialNdx(object):
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-            ndx = TrialNdx(ndx.model_set, test.file_path)
+            ndx = TrialNdx(ndx.model_set, test.key)
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'coh-test':
             ndx = TrialNdx(enroll.key, ndx.seg_set)
         if eval_set == 'coh-coh':
-            ndx = TrialNdx(enroll.key, test.file_path)
+            ndx = TrialNdx(enroll.key, test.key)
         return ndx, enroll
 
     
-- 
2.43.0


From 49cd7ed27e2a0f9b53ea19e1c2ec828c48f0f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 053/167] fix: SequenceBatchGeneratorV1 passed an argument
 Utt2Info.split does not have

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 5f2a28d..b72f93b 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -49,7 +49,7 @@ class SequenceBatchGeneratorV1(object):
         self.r = RF.create(rspecifier, path_prefix=path_prefix, transform=transform, scp_sep=scp_sep)
         self.u2c = Utt2Info.load(key_file, sep=scp_sep)
         if num_parts > 1:
-            self.u2c = self.u2c.split(part_idx, num_parts, group_by_key=False)
+            self.u2c = self.u2c.split(part_idx, num_parts)
         self.batch_size = batch_size
 
         self.cur_epoch = init_epoch
-- 
2.43.0


From 07ed57a1e16b9b13ec6ea7bdbfe7a899cae79689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 054/167] fix: RSpecifier.create error message used undefined
 wspecifier

---
 hyperion/io/rw_specifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 814cae5..8f6b475 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -360,7 +360,7 @@ class RSpecifier(object):
                        permissive, background)
         else:
             raise ValueError('Two many fields (%d>2) in wspecifier %s'
-                             % (len(fields), wspecifier))
+                             % (len(fields), rspecifier))
         
         
 
-- 
2.43.0


From 07ed181eb194c19eeb3a8b45e30fcfba9b8bedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 055/167] fix: TrackingDataReader passed and unpacked
 parse_eval_set in the wrong order

---
 hyperion/helpers/tracking_data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 620027e..df61373 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -72,7 +72,7 @@ class TrackingDataReader(object):
     def _read_single_utt(self, key):
         ndx = self.ndx.filter(self.ndx.model_set, [key])
         ndx_seg = ndx.apply_segmentation_to_test(self.segments)
-        enroll, ndx_seg = TrialNdx.parse_eval_set(self.enroll, ndx_seg)
+        ndx_seg, enroll = TrialNdx.parse_eval_set(ndx_seg, self.enroll)
         segments = self.segments.filter([key])
         return enroll, ndx_seg, segments
 
-- 
2.43.0


From e2f94fb5c9dced31b51f39cbc8163fcddcabb31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 056/167] fix: llr_NvsM_book: wrong attribute, tuple indices
 and no return value

---
 hyperion/pdfs/plda/plda.py  | 9 +++++----
 hyperion/pdfs/plda/splda.py | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 93b49e4..708cefb 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -470,7 +470,7 @@ class PLDA(PLDABase):
         N1, F1, _ = D1
         N2, F2, _ = D2
 
-        WV = self._WV
+        WV = self._VW
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
@@ -480,8 +480,8 @@ class PLDA(PLDABase):
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -519,9 +519,10 @@ class PLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 7b5bbea..66d7320 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -334,8 +334,8 @@ class SPLDA(PLDABase):
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -373,9 +373,10 @@ class SPLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
-- 
2.43.0


From 19922d09a73eba61ff652490eb8dd7f3ddf3acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 057/167] fix: SequenceBatchGeneratorV2.read used undefined
 self.num_utts

---
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 18806a9..3d882b3 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -244,7 +244,7 @@ class SequenceBatchGeneratorV2(object):
         if self.return_utt1hot:
             num_utts = int(np.ceil(self.batch_size/self.num_egs_per_utt))
             _, utt_ids = np.unique(utt_idx, return_inverse=True)
-            z = np.zeros((len(keys), self.num_utts), dtype=float_cpu())
+            z = np.zeros((len(keys), num_utts), dtype=float_cpu())
             for i,k in enumerate(utt_ids):
                 z[i,k] = 1
             r.append(z)
-- 
2.43.0


From a9c50666465ba2c4e217941c047f5ac2cfa951dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 058/167] fix: NAP.fit: undefined variables and misspelled
 numpy functions

---
 hyperion/transforms/nap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/transforms/nap.py b/hyperion/transforms/nap.py
index bbd54bf..af8711d 100644
--- a/hyperion/transforms/nap.py
+++ b/hyperion/transforms/nap.py
@@ -28,15 +28,15 @@ class NAP(HypModel):
     
     def fit(self, x, U_dim, class_ids):
         x_hat = np.zeros_like(x)
-        u_ids = np.uniqe(class_ids)
+        u_ids = np.unique(class_ids)
         M = np.sqrt(len(u_ids))
         for i in u_ids:
-            idx = np.nonzero(i==class_ids)
+            idx = np.nonzero(i==class_ids)[0]
             N = np.sqrt(len(idx))
             mu_i = np.mean(x[idx,:], axis=0)
-            xx[idx, :] = (x[idx, :] - mu_i)/N
-        xx /= M
-        _, s, Vt = np.svd(xx, full_matrices=False, overwrite_a=True)
+            x_hat[idx, :] = (x[idx, :] - mu_i)/N
+        x_hat /= M
+        _, s, Vt = la.svd(x_hat, full_matrices=False, overwrite_a=True)
         idx = (np.argsort(s)[::-1])[:U_dim]
         self.U = Vt[idx, :]
 
-- 
2.43.0


From 9f674c57f6e8cbdc67f7e0a986870f5a5ff99702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 059/167] fix: EnergyVAD: undefined str2bool and vad0, wrong
 context for short signals

---
 hyperion/feats/energy_vad.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 803541a..dee64f8 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -116,8 +116,11 @@ class EnergyVAD(object):
             return vad
  
         window = 2*context + 1
-        if len(vad0) < window:
-            context = int(len(vad0)-1/2)
+        if len(vad) < window:
+            context = int((len(vad)-1)/2)
+            window = 2*context + 1
+            if context == 0:
+                return vad
 
         h = np.ones((window,), dtype='float32')
         num_count = np.convolve(vad.astype('float32'), h, 'same')
-- 
2.43.0


From c22c92415fb9e01a976ce5cc134f9d1c3ed05020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 060/167] fix: ExpFamilyMixture: log_prob_nbest called the
 wrong method; Estep_generator used undefined names

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index d9ac40a..0019814 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -363,7 +363,7 @@ class ExpFamilyMixture(PDF):
 
     
     def Estep_generator(self, generator, num_steps, return_log_h,
-                        max_queue_size=10, workers=1, use_multiprocessin=False):
+                        max_queue_size=10, workers=1, use_multiprocessing=False):
         wait_time = 0.01 # in secs
         queue = None
         N = None
@@ -390,8 +390,8 @@ class ExpFamilyMixture(PDF):
                     N += N_i
                     acc_u_x += u_x_i
         finally:
-            if enqueuer is not None:
-                enqueuer.stop()
+            if queue is not None:
+                queue.stop()
                 
         if return_log_h:
             return N, acc_u_x, log_h
@@ -453,7 +453,7 @@ class ExpFamilyMixture(PDF):
             return self.log_prob_nbest_nat(
                 x, u_x, nbest_mode=nbest_mode, nbest=nbest)
         else:
-            return self.log_prob_std(
+            return self.log_prob_nbest_std(
                 x, nbest_mode=nbest_mode, nbest=nbest)
 
 
-- 
2.43.0


From 28b8de443636d0f8a2e47caf849167bb44197e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 061/167] fix: Framing did not compile and used undefined names

---
 hyperion/utils/framing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/framing.py b/hyperion/utils/framing.py
index 9dfa2b8..e9fe008 100644
--- a/hyperion/utils/framing.py
+++ b/hyperion/utils/framing.py
@@ -65,18 +65,18 @@ class Framing(object):
     """
     def __init__(self, frame_length, frame_shift=1,
                  pad_mode=None, pad_side='symmetric', **kwargs):
-        self.frame_length = frame_lenght
+        self.frame_length = frame_length
         self.frame_shift = frame_shift
         self.pad_mode = pad_mode
         self.pad_width = None
         if self.pad_mode is not None:
             self.pad_width = self.create_pad_width(
                 pad_side, frame_length, frame_shift)
-        self.pad_kwargs = **kwargs
+        self.pad_kwargs = kwargs
 
 
         
-    @static
+    @staticmethod
     def create_pad_width(pad_side, frame_length, frame_shift):
         """ Calculates the proper pad_with for left and rigth from the frame lengths and shift.
         
@@ -123,6 +123,8 @@ class Framing(object):
             num_samples=x.shape[0]
             in_dim=x.shape[1]
 
+        frame_length = self.frame_length
+        frame_shift = self.frame_shift
         num_out_frames=int(np.floor((num_samples-frame_length)/frame_shift+1))
         
         vec_x=x.ravel()
-- 
2.43.0


From 9e99ed29ac1ac983a33b35b23467476b4456bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 062/167] fix: Splicing did not compile and used undefined
 names

---
 hyperion/utils/splicing.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/splicing.py b/hyperion/utils/splicing.py
index ca8e5ca..0cf947b 100644
--- a/hyperion/utils/splicing.py
+++ b/hyperion/utils/splicing.py
@@ -16,7 +16,7 @@ class Splicing(object):
     Class to do splicing for DNN input
     """
     def __init__(self, left_context=0, right_context=0,
-                 frame_shift=1
+                 frame_shift=1,
                  splice_pattern=None,
                  pad_mode=None, **kwargs):
 
@@ -27,18 +27,19 @@ class Splicing(object):
         if splice_pattern is not None:
             self.left_context = - splice_pattern[0]
             self.right_context = splice_pattern[-1]
-            self.splice_pattern = splice_pattern + self.left_context
+            self.splice_pattern = np.asarray(splice_pattern) + self.left_context
         self.pad_mode = pad_mode
         self.pad_width = ((self.left_context, self.right_context), (0,0))
-        self.pad_kwargs = **kwargs
+        self.pad_kwargs = kwargs
 
         
     def splice(self, x):
         if self.pad_mode is not None:
-            x=np.pad(x, self.pad_width, **self.pad_kwargs)
+            x=np.pad(x, self.pad_width, mode=self.pad_mode, **self.pad_kwargs)
 
         num_in_frames = x.shape[0]
         in_dim = x.shape[1]
+        frame_shift = self.frame_shift
         frame_span = self.left_context+self.right_context+1
         num_out_frames = int(np.floor((num_in_frames-frame_span)/frame_shift+1))
 
@@ -52,9 +53,9 @@ class Splicing(object):
         start=0
         for i in xrange(num_out_frames):
             if self.splice_pattern is None:
-                X[i,:]=x[start:start+frame_shift,:].ravel()
+                X[i,:]=x[start:start+frame_span,:].ravel()
             else:
-                splice_pattern = self.splice_pattern + self.start
+                splice_pattern = self.splice_pattern + start
                 X[i,:]=x[splice_pattern,:].ravel()
             start+=frame_shift
             
-- 
2.43.0


From 0847ffb551859b4d120ab8a3140abae1f53517ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 063/167] fix: ExtSegmentList: undefined names and attributes

---
 hyperion/utils/ext_segment_list.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 0e0a19e..3be95dc 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -71,11 +71,11 @@ class ExtSegmentList(object):
                                  'ext_segment_id': ext_segment_id})
         
         if series_id is None:
-            u_file_id = self.segments['file_id'].unique()
+            u_file_id = segments['file_id'].unique()
             files = pd.DataFrame({'file_id': u_file_id, 'series_id': u_file_id})
         else:
-            file_id = [f for f in v for k,v in series_id.items()]
-            series_id = [k for f in v for k,v in series_id.items()]
+            file_id = [f for k,v in series_id.items() for f in v]
+            series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
         if isinstance(name, string_types):
@@ -113,8 +113,8 @@ class ExtSegmentList(object):
             u_file_id = segments['file_id'].unique()
             files = pd.DataFrame({'file_id': u_file_id, 'series_id': u_file_id})
         else:
-            file_id = [f for f in v for k,v in series_id.items()]
-            series_id = [k for f in v for k,v in series_id.items()]
+            file_id = [f for k,v in series_id.items() for f in v]
+            series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
         return cls(segments, ext_segments, files, index_column)
@@ -214,7 +214,7 @@ class ExtSegmentList(object):
     
     @property
     def uniq_file_id(self):
-        return np.asarry(self.files['file_id'])
+        return np.asarray(self.files['file_id'])
         # if self._uniq_file_id is None:
         #     self._uniq_file_id = np.asarray(self.segments['file_id'].unique())
             
@@ -225,7 +225,7 @@ class ExtSegmentList(object):
     @property
     def uniq_series_id(self):
         if self._uniq_series_id is None:
-            self._uniq_series_id = np.asarray(self.ext_segments['series_id'].unique())
+            self._uniq_series_id = np.asarray(self.files['series_id'].unique())
             
         return self._uniq_series_id
 
@@ -290,12 +290,12 @@ class ExtSegmentList(object):
                 raise StopIteration()
         elif self.index_column == 'ext_segment_id':
             if self.iter_idx < len(self.ext_segments):
-                r = self.__getitem__(self.ext_segment['ext_segment_id'].iloc[self.iter_idx])
+                r = self.__getitem__(self.ext_segments['ext_segment_id'].iloc[self.iter_idx])
             else:
                 raise StopIteration()
         else:
             if self.iter_idx < len(self.segments):
-                r = self.__getitem__(self.segments['segment_id'].iloc(self.iter_idx))
+                r = self.__getitem__(self.segments['segment_id'].iloc[self.iter_idx])
             else:
                 raise StopIteration()
 
@@ -402,7 +402,7 @@ class ExtSegmentList(object):
             
         ext_segments = pd.merge(self.ext_segments, segments,
                                 on='ext_segment_id', how='inner')[
-                                    ['ext_segment_id','name']]
+                                    ['ext_segment_id','name','score']]
 
         return ExtSegmentList(segments, ext_segments, files, self.index_column)
 
@@ -416,7 +416,7 @@ class ExtSegmentList(object):
         elif self.index_column == 'segment_id':
             key, _ = split_list(self.segment_id, idx, num_parts)
         elif self.index_column == 'ext_segment_id':
-            key, _ = split_list(self.uniq_ext_segment_id, idx, num_parts)
+            key, _ = split_list(self.uniq_segment_id, idx, num_parts)
 
         return self.filter(key)
 
@@ -430,7 +430,7 @@ class ExtSegmentList(object):
         for sl in segment_lists:
             segments.append(sl.segments)
             files.append(sl.files)
-            ext_segments.append(ext_segments)
+            ext_segments.append(sl.ext_segments)
             
         segments = pd.concat(segments).drop_duplicates()
         files = pd.concat(files).drop_duplicates()
@@ -443,7 +443,9 @@ class ExtSegmentList(object):
     def __eq__(self, other):
         """Equal operator"""
         eq = self.segments.equals(other.segments)
-        eq = eq and self.index_by_file == other.index_by_file
+        eq = eq and self.ext_segments.equals(other.ext_segments)
+        eq = eq and self.files.equals(other.files)
+        eq = eq and self.index_column == other.index_column
             
         return eq
 
-- 
2.43.0


From a596c5b9d07b5554afb18ccef171183591533e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 064/167] fix: EnergyVAD.add_argparse_args used str2bool
 without importing it

---
 hyperion/feats/energy_vad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index dee64f8..8048156 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -13,6 +13,7 @@ import numpy as np
 from scipy.signal import lfilter
 
 from ..hyp_defs import float_cpu
+from ..utils.misc import str2bool
 from .stft import st_logE
 
 
-- 
2.43.0


From 50314e8bf67c95d126e11814db19f0015ae05bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 065/167] fix: UnsupGaussCalibration imported a mixture module
 that does not exist

---
 hyperion/calibration/unsup_gauss_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/calibration/unsup_gauss_calibration.py b/hyperion/calibration/unsup_gauss_calibration.py
index 1c8ccac..9cb45c6 100644
--- a/hyperion/calibration/unsup_gauss_calibration.py
+++ b/hyperion/calibration/unsup_gauss_calibration.py
@@ -9,7 +9,7 @@ from six.moves import xrange
 import sys
 import numpy as np
 
-from ..pdfs.mixtures.diag_gmm_tiedcovs import DiagGMMTiedCovs as GMM
+from ..pdfs.mixtures.gmm_tied_diag_cov import GMMTiedDiagCov as GMM
 from .gauss_calibration import GaussCalibration
 
 class UnsupGaussCalibration(GaussCalibration):
@@ -34,7 +34,7 @@ class UnsupGaussCalibration(GaussCalibration):
         else:
             mu1 = np.max(x, axis=0, keepdims=True)
             mu2 = np.mean(x, axis=0, keepdims=True)
-            sigma2 = np.std(x, axis=0, keepdims=True)**2
+            sigma2 = np.std(x, axis=0)**2
             pi = np.array([self.init_prior, 1-self.init_prior])
 
         mu = np.vstack((mu1, mu2))
-- 
2.43.0


From 1d9bf01dfa3358a756e2788ec8d055b80efdb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 066/167] fix: command-line scripts: a second docstring before
 the __future__ imports kept them from compiling

---
 hyperion/bin/ark2hyp.py                              | 3 +--
 hyperion/bin/arkvad2nist.py                          | 3 +--
 hyperion/bin/compute-gmm-post.py                     | 3 +--
 hyperion/bin/eval-2class-performance.py              | 3 +--
 hyperion/bin/eval-cos-1vs1.py                        | 3 +--
 hyperion/bin/eval-elbo-ubm.py                        | 3 +--
 hyperion/bin/eval-linear-gbe-up.py                   | 3 +--
 hyperion/bin/eval-linear-gbe.py                      | 3 +--
 hyperion/bin/eval-linear-svmc.py                     | 3 +--
 hyperion/bin/eval-logistic-regression.py             | 3 +--
 hyperion/bin/eval-plda-1vs1.py                       | 3 +--
 hyperion/bin/eval-plda-nvs1.py                       | 3 +--
 hyperion/bin/eval-q-scoring-homo-gbe.py              | 3 +--
 hyperion/bin/eval-score-norm.py                      | 3 +--
 hyperion/bin/h5vad2nist.py                           | 3 +--
 hyperion/bin/init-ubm.py                             | 2 --
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 3 +--
 hyperion/bin/keras-adapt-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-eval-pdda-1vs1.py                 | 3 +--
 hyperion/bin/keras-eval-seq-embed.py                 | 3 +--
 hyperion/bin/keras-eval-seq-q-embed.py               | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector.py      | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector2.py     | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector3.py     | 3 +--
 hyperion/bin/keras-extract-seq-embed-deprec.py       | 3 +--
 hyperion/bin/keras-extract-seq-embed.py              | 3 +--
 hyperion/bin/keras-extract-seq-embed2.py             | 3 +--
 hyperion/bin/keras-extract-seq-embed5.py             | 3 +--
 hyperion/bin/keras-extract-seq-q-embed.py            | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector-pt.py       | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector.py          | 3 +--
 hyperion/bin/keras-extract-tied-vae-embed.py         | 3 +--
 hyperion/bin/keras-extract-tvae-ivector.py           | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-att.py        | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 3 +--
 hyperion/bin/keras-train-cat-seq-meta-embed.py       | 3 +--
 hyperion/bin/keras-train-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-train-cat-tied-dvae.py            | 3 +--
 hyperion/bin/keras-train-cat-tied-sup-vae.py         | 3 +--
 hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py    | 3 +--
 hyperion/bin/keras-train-gmm-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-pdda.py                     | 3 +--
 hyperion/bin/keras-train-sup-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-tcvae-ivector.py            | 3 +--
 hyperion/bin/merge-h5-files.py                       | 3 +--
 hyperion/bin/plot-vector-hist.py                     | 3 +--
 hyperion/bin/plot-vector-tsne.py                     | 3 +--
 hyperion/bin/train-cw-up.py                          | 3 +--
 hyperion/bin/train-cw.py                             | 3 +--
 hyperion/bin/train-gaussianizer.py                   | 3 +--
 hyperion/bin/train-lda.py                            | 3 +--
 hyperion/bin/train-linear-gbe-up.py                  | 3 +--
 hyperion/bin/train-linear-gbe.py                     | 3 +--
 hyperion/bin/train-linear-svmc.py                    | 3 +--
 hyperion/bin/train-logistic-regression.py            | 3 +--
 hyperion/bin/train-mvn.py                            | 3 +--
 hyperion/bin/train-nda.py                            | 3 +--
 hyperion/bin/train-pca.py                            | 3 +--
 hyperion/bin/train-plda.py                           | 3 +--
 hyperion/bin/train-q-scoring-homo-gbe.py             | 3 +--
 60 files changed, 59 insertions(+), 120 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index cca7a23..784d0f8 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to h5 format (deprecated, use copy-feats.py)
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 9a09582..2186efd 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 5a16bf5..1720b37 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Computes GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index f47c805..aea9ef6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals EER, DCF, DET
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-cos-1vs1.py b/hyperion/bin/eval-cos-1vs1.py
index c8a0217..36f0e76 100755
--- a/hyperion/bin/eval-cos-1vs1.py
+++ b/hyperion/bin/eval-cos-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals cosine scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-elbo-ubm.py b/hyperion/bin/eval-elbo-ubm.py
index 9a4e960..d5e7bc7 100755
--- a/hyperion/bin/eval-elbo-ubm.py
+++ b/hyperion/bin/eval-elbo-ubm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evaluate the likelihood of the ubm on some data
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe-up.py b/hyperion/bin/eval-linear-gbe-up.py
index 3aeec95..85a401a 100755
--- a/hyperion/bin/eval-linear-gbe-up.py
+++ b/hyperion/bin/eval-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE with uncertainty propagation.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe.py b/hyperion/bin/eval-linear-gbe.py
index 7fdcd7e..9ff4413 100755
--- a/hyperion/bin/eval-linear-gbe.py
+++ b/hyperion/bin/eval-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-svmc.py b/hyperion/bin/eval-linear-svmc.py
index a13a08f..7d4895e 100755
--- a/hyperion/bin/eval-linear-svmc.py
+++ b/hyperion/bin/eval-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals SVM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-logistic-regression.py b/hyperion/bin/eval-logistic-regression.py
index 28cb9a0..635ae85 100755
--- a/hyperion/bin/eval-logistic-regression.py
+++ b/hyperion/bin/eval-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals logistic regression
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-1vs1.py b/hyperion/bin/eval-plda-1vs1.py
index 35380da..4ead233 100755
--- a/hyperion/bin/eval-plda-1vs1.py
+++ b/hyperion/bin/eval-plda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index f12c13d..5da9200 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PLDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-q-scoring-homo-gbe.py b/hyperion/bin/eval-q-scoring-homo-gbe.py
index de1b70c..5d4b2ab 100755
--- a/hyperion/bin/eval-q-scoring-homo-gbe.py
+++ b/hyperion/bin/eval-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals Q-scoring back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 52d0076..c54ec4f 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Score Normalization
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 347fbff..f0e51cf 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index bbcf4be..5556315 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Initialize UBM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 6731b7c..89fb143 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-q-embed.py b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
index 80a32b8..1c061b5 100755
--- a/hyperion/bin/keras-adapt-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts q-embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-1vs1.py b/hyperion/bin/keras-eval-pdda-1vs1.py
index e7d0bc9..6246bce 100755
--- a/hyperion/bin/keras-eval-pdda-1vs1.py
+++ b/hyperion/bin/keras-eval-pdda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-embed.py b/hyperion/bin/keras-eval-seq-embed.py
index 6e2091e..142e813 100755
--- a/hyperion/bin/keras-eval-seq-embed.py
+++ b/hyperion/bin/keras-eval-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-q-embed.py b/hyperion/bin/keras-eval-seq-q-embed.py
index 4db30a0..52656ef 100755
--- a/hyperion/bin/keras-eval-seq-q-embed.py
+++ b/hyperion/bin/keras-eval-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
index e88b294..f8711ff 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
index 199d415..9ddc02b 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
index 4657c25..74decb5 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed-deprec.py b/hyperion/bin/keras-extract-seq-embed-deprec.py
index 606f419..08bb493 100755
--- a/hyperion/bin/keras-extract-seq-embed-deprec.py
+++ b/hyperion/bin/keras-extract-seq-embed-deprec.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed.py b/hyperion/bin/keras-extract-seq-embed.py
index 73300da..3ecce0f 100755
--- a/hyperion/bin/keras-extract-seq-embed.py
+++ b/hyperion/bin/keras-extract-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts x-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed2.py b/hyperion/bin/keras-extract-seq-embed2.py
index 0e7ffef..3b57040 100755
--- a/hyperion/bin/keras-extract-seq-embed2.py
+++ b/hyperion/bin/keras-extract-seq-embed2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed5.py b/hyperion/bin/keras-extract-seq-embed5.py
index dcc7320..626bab2 100755
--- a/hyperion/bin/keras-extract-seq-embed5.py
+++ b/hyperion/bin/keras-extract-seq-embed5.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index f8d7a08..5e0a2a6 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence Q embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector-pt.py b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
index 441007f..674134d 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector-pt.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector.py b/hyperion/bin/keras-extract-tcvae-ivector.py
index 1d54b49..3167f93 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index e793209..3b75603 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TVAE sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tvae-ivector.py b/hyperion/bin/keras-extract-tvae-ivector.py
index 0dac764..465f802 100755
--- a/hyperion/bin/keras-extract-tvae-ivector.py
+++ b/hyperion/bin/keras-extract-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-att.py b/hyperion/bin/keras-train-cat-seq-embed-att.py
index c7f1d67..3b035e9 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-att.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-att.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vectors with attention
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index e788db4..99b6f7e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vector with LDE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index 4263ed6..b62d153 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE ??
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9c993b3..9e116b9 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with q-scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 87d06a9..b1feefb 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with discriminative VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index bd0479b..c463522 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with supervised VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
index 8e61bfd..32e3332 100755
--- a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE with gmm posteriors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
index c897bb6..730beba 100755
--- a/hyperion/bin/keras-train-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE with GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-pdda.py b/hyperion/bin/keras-train-pdda.py
index f6cb09c..3aef7d8 100755
--- a/hyperion/bin/keras-train-pdda.py
+++ b/hyperion/bin/keras-train-pdda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PDDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-sup-tcvae-ivector.py b/hyperion/bin/keras-train-sup-tcvae-ivector.py
index dd1ca68..0ed93f0 100755
--- a/hyperion/bin/keras-train-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tcvae-ivector.py b/hyperion/bin/keras-train-tcvae-ivector.py
index e71911d..578d22a 100755
--- a/hyperion/bin/keras-train-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/merge-h5-files.py b/hyperion/bin/merge-h5-files.py
index 2a2b6c0..0a95940 100755
--- a/hyperion/bin/merge-h5-files.py
+++ b/hyperion/bin/merge-h5-files.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Merges multiple hdf5 files into one file
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 6af79db..981d315 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plot histogram of i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 9aea1ff..63bd0ab 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plots TSNE embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index a4e7592..d66976f 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening with uncertainty prop.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index b5d3a55..9128e20 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 40996f3..22323f0 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Gaussianization for i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index be34061..da53891 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains LDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe-up.py b/hyperion/bin/train-linear-gbe-up.py
index f381482..6758c34 100755
--- a/hyperion/bin/train-linear-gbe-up.py
+++ b/hyperion/bin/train-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear GBE with uncertainty propagation
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe.py b/hyperion/bin/train-linear-gbe.py
index 4f0aefb..2036930 100755
--- a/hyperion/bin/train-linear-gbe.py
+++ b/hyperion/bin/train-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear Gaussian back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index bb4353d..b849fd0 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear SVM classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 82985a4..61fecd4 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear logistic regression classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-mvn.py b/hyperion/bin/train-mvn.py
index a91863b..ca42e4f 100755
--- a/hyperion/bin/train-mvn.py
+++ b/hyperion/bin/train-mvn.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains global mean and variance normalization of i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index a8755fa..157e7f3 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains NDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-pca.py b/hyperion/bin/train-pca.py
index 2bdb27d..d657183 100755
--- a/hyperion/bin/train-pca.py
+++ b/hyperion/bin/train-pca.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PCA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-plda.py b/hyperion/bin/train-plda.py
index e5af64f..782818a 100755
--- a/hyperion/bin/train-plda.py
+++ b/hyperion/bin/train-plda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PLDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-q-scoring-homo-gbe.py b/hyperion/bin/train-q-scoring-homo-gbe.py
index 0ce739c..19d9def 100755
--- a/hyperion/bin/train-q-scoring-homo-gbe.py
+++ b/hyperion/bin/train-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Q-scoring back-end
 """
 from __future__ import absolute_import
-- 
2.43.0


From c4b08df8c1e4e8b6bc8c656e747e6d979939e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 067/167] fix: arkvad2nist.py used config_logger without
 importing it

---
 hyperion/bin/arkvad2nist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 2186efd..c51301b 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -18,6 +18,7 @@ import logging
 import numpy as np
 
 
+from hyperion.hyp_defs import config_logger
 from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
-- 
2.43.0


From 3b21e8f4b2924bf8e03263eb4174ce4c728120bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 068/167] fix: compute-energy-vad.py used EnergyVAD, vad and
 DRF without defining them

---
 hyperion/bin/compute-energy-vad.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hyperion/bin/compute-energy-vad.py b/hyperion/bin/compute-energy-vad.py
index 03a1c60..e9313db 100755
--- a/hyperion/bin/compute-energy-vad.py
+++ b/hyperion/bin/compute-energy-vad.py
@@ -17,14 +17,13 @@ from six.moves import xrange
 
 from hyperion.hyp_defs import config_logger
 from hyperion.io import SequentialAudioReader as AR
-#from hyperion.io import SequentialDataReaderFactory as DRF
 from hyperion.io import DataWriterFactory as DWF
-from hyperion.feats import energy_vad
+from hyperion.feats.energy_vad import EnergyVAD
 
 def compute_vad(input_path, output_path,  **kwargs):
 
-    mfcc_args = EnergyVAD.filter_args(**kwargs)
-    mfcc = EnergVAD(**mfcc_args)
+    vad_args = EnergyVAD.filter_args(**kwargs)
+    vad = EnergyVAD(**vad_args)
     
     input_args = AR.filter_args(**kwargs)
     reader = AR(input_path, **input_args)
@@ -56,7 +55,7 @@ if __name__ == "__main__":
     parser.add_argument('--input', dest='input_path', required=True)
     parser.add_argument('--output', dest='output_path', required=True)
 
-    DRF.add_argparse_args(parser)
+    AR.add_argparse_args(parser)
     EnergyVAD.add_argparse_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int,
                         help='Verbose level')
-- 
2.43.0


From 760cf952277ee6485c1810700e132633b19fa76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 069/167] fix: eval-plda-nvs1.py used plda_type without
 receiving it

---
 hyperion/bin/eval-plda-nvs1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index 5da9200..610ed7b 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -28,7 +28,7 @@ from hyperion.transforms import TransformList
 
 def eval_plda(iv_file, ndx_file, enroll_file, test_file,
               preproc_file,
-              model_file, score_file, pool_method, **kwargs):
+              plda_type, model_file, score_file, pool_method, **kwargs):
     
     if preproc_file is not None:
         preproc = TransformList.load(preproc_file)
-- 
2.43.0


From b90f55d9e481c929383e76f19844c390d2962ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 070/167] fix: eval-score-norm.py did not import, called an
 undefined function and read the score files after using them

---
 hyperion/bin/eval-score-norm.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index c54ec4f..5179909 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.score_norm import *
-from hyperion.utils.trial_scroes import TrialScores
+from hyperion.utils.trial_scores import TrialScores
 from hyperion.utils.trial_ndx import TrialNdx
 
 
@@ -33,43 +33,43 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
     scores_coh_coh = None
     
     if enr_coh_file is not None:
-        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = TrialScores.load(enr_coh_file)
+        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
 
     if coh_test_file is not None:
-        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = TrialScores.load(coh_test_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = scores_coh_test.align_with_ndx(ndx)
 
     if coh_coh_file is not None:
         assert scores_enr_coh is not None and scores_coh_test is not None
-        ndx = TrialNdx(scores_coh_test.model_set, scores_enr_coh.seg_set)
         scores_coh_coh = TrialScores.load(coh_coh_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores_enr_coh.seg_set)
         scores_coh_coh = scores_coh_coh.align_with_ndx(ndx)
 
     return scores, scores_enr_coh, scores_coh_test, scores_coh_coh
 
 
 
-def score_norm(score_file, ouput_file, norm_type,
-               enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
-               adapt_coh=None):
+def eval_score_norm(score_file, output_file, norm_type,
+                    enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
+                    adapt_coh=None):
 
     scores, scores_enr_coh, scores_coh_test, scores_coh_coh = load_scores(
         score_file, enr_coh_file, coh_test_file, coh_coh_file)
 
-    if norm_type == 't_norm':
+    if norm_type == 't-norm':
         assert scores_coh_test is not None
         norm = TNorm()
         scores_norm = norm.predict(scores.scores, scores_coh_test.scores)
 
-    if norm_type == 'z_norm':
+    if norm_type == 'z-norm':
         assert scores_enr_coh is not None
         norm = ZNorm()
         scores_norm = norm.predict(scores.scores, scores_enr_coh.scores)
 
-    if norm_type == 'zt_norm':
+    if norm_type == 'zt-norm':
         assert(scores_enr_coh is not None and scores_coh_test is not None
                and scores_coh_coh is not None)
         norm = ZTNorm()
@@ -78,17 +78,15 @@ def score_norm(score_file, ouput_file, norm_type,
                                    scores_enr_coh.scores,
                                    scores_coh_coh.scores)
 
-    if norm_type == 's_norm':
-        assert(scores_enr_coh is not None and scores_coh_test is not None
-               and scores_coh_coh is not None)
-        norm = SNorm()
+    if norm_type == 's-norm':
+        assert scores_enr_coh is not None and scores_coh_test is not None
+        norm = SNorm() if adapt_coh is None else AdaptSNorm(nbest=adapt_coh)
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
-                                   scores_enr_coh.scores,
-                                   scores_coh_coh.scores)
+                                   scores_enr_coh.scores)
 
     scores.scores = scores_norm
-    scores.save(ouput_file)
+    scores.save(output_file)
     
 
     
-- 
2.43.0


From 1beebffbde9513d399bb55c4578f54149942f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 071/167] fix: plot-vector-hist.py and plot-vector-tsne.py
 misspelled output_path and output_dim

---
 hyperion/bin/plot-vector-hist.py | 2 +-
 hyperion/bin/plot-vector-tsne.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 981d315..45e6746 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -42,7 +42,7 @@ def plot_vector_hist(iv_file, v_list, preproc_file, output_path, num_bins, norme
     t1 = time.time()
 
     if not os.path.exists(output_path):
-        os.makedirs(ouput_path)
+        os.makedirs(output_path)
 
     for i in xrange(x.shape[1]):
         
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 63bd0ab..8fb5a5a 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -56,7 +56,7 @@ def plot_vector_tsne(iv_file, v_list, preproc_file,
         x = pca.predict(x)
 
     if not os.path.exists(output_path):
-        os.makedirs(ouput_path)
+        os.makedirs(output_path)
 
     tsne_obj = lambda n: TSNE(
         n_components=n,
@@ -75,7 +75,7 @@ def plot_vector_tsne(iv_file, v_list, preproc_file,
         y = tsne.fit_transform(x)
 
         if save_embed:
-            h5_file = '%s/embed_%dd.h5' % (output_path, ouput_dim)
+            h5_file = '%s/embed_%dd.h5' % (output_path, output_dim)
             hw = DWF.create(h5_file)
             hw.write(vcr.u2c.key, y)
 
-- 
2.43.0


From f2759fa16e7e3a3d83fa86da8021ca9199e198c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 072/167] fix: train-gaussianizer.py looked up the transform
 with an undefined name

---
 hyperion/bin/train-gaussianizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 22323f0..51283ed 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -34,7 +34,7 @@ def load_model(input_path, **kwargs):
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
-            if tf.name == name:
+            if tf.name == kwargs['name']:
                 return tf
             
 
-- 
2.43.0


From c6732c981989edc7cd468a9474e51619706aef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 073/167] fix: train-nda.py imported NSbSw from a package that
 does not export it

---
 hyperion/bin/train-nda.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index 157e7f3..8cb7514 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -20,7 +20,8 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.helpers import VectorClassReader as VCR
-from hyperion.transforms import TransformList, NDA, NSbSw
+from hyperion.transforms import TransformList, NDA
+from hyperion.transforms.sb_sw import NSbSw
 
 
 def train_nda(iv_file, train_list, preproc_file,
-- 
2.43.0


From fbf75342d35a2fd38b1dcb3fd8e906965661ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 074/167] fix: compute-gmm-post.py called GMM and logging
 methods that do not exist

---
 hyperion/bin/compute-gmm-post.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 1720b37..b0e32f6 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -70,14 +70,14 @@ def compute_gmm_post(seq_file, file_list, model_file, preproc_file, output_path,
     for i in xrange(sr.num_seqs):
         x, key = sr.read_next_seq()
         logging.info('Extracting i-vector %d/%d for %s, num_frames: %d' % (i, sr.num_seqs, key, x.shape[0]))
-        r = gmm.compute_z(x)
+        r = gmm.compute_pz(x)
         r_s, index = to_sparse(r, num_comp)
         if i==0:
             r2 = to_dense(r_s, index, r.shape[1])
-            logging.degug(np.sort(r[0,:])[-12:])
-            logging.degug(np.sort(r2[0,:])[-12:])
-            logging.degug(np.argsort(r[0,:])[-12:])
-            logging.degug(np.argsort(r2[0,:])[-12:])
+            logging.debug(np.sort(r[0,:])[-12:])
+            logging.debug(np.sort(r2[0,:])[-12:])
+            logging.debug(np.argsort(r[0,:])[-12:])
+            logging.debug(np.argsort(r2[0,:])[-12:])
 
         hw.write([key], '.r', [r_s])
         hw.write([key], '.index', [index])
-- 
2.43.0


From e8644699043a1acc8a68586475c3c7148aa4789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 075/167] fix: MFCC.filter_args passed blackman_coeff to a
 constructor that does not take it

---
 hyperion/feats/mfcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 9b83a26..ad81436 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -356,7 +356,7 @@ class MFCC(object):
             p = prefix + '_'
         valid_args = ('fs', 'frame_length', 'frame_shift',
                       'fft_length', 'remove_dc_offset', 'preemph_coeff',
-                      'window_type', 'blackman_coeff', 'use_fft2', 'dither',
+                      'window_type', 'use_fft2', 'dither',
                       'fb_type', 'low_freq', 'high_freq', 'num_filters', 'norm_filters',
                       'num_ceps', 'snip_edges',
                       'energy_floor', 'raw_energy', 'use_energy', 'cepstral_lifter',
-- 
2.43.0


From dfe5d69fc08f2df131554a191e3d9ce6d7014020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 076/167] fix: BinaryLogisticRegression dropped lambda_reg and
 lr_seed on the way to its base class

---
 hyperion/classifiers/binary_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 2eb6045..b3735f7 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -21,11 +21,11 @@ class BinaryLogisticRegression(LogisticRegression):
         
         priors = {0:1-prior, 1:prior}
         super(BinaryLogisticRegression, self).__init__(
-            A=A, b=b, penalty=penalty, labmda_reg=lambda_reg,
+            A=A, b=b, penalty=penalty, lambda_reg=lambda_reg,
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-            multi_class='ovr', lr_seed=1024, **kwargs)
+            multi_class='ovr', lr_seed=lr_seed, **kwargs)
 
 
 
-- 
2.43.0


From d02942a5e831ec87b9919e4c104fa10d84116aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 077/167] fix: FrameSelector.filter_args iterated over the
 letters of tol_num_frames

---
 hyperion/feats/frame_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 24f3cae..77cea7f 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -66,7 +66,7 @@ class FrameSelector(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('tol_num_frames')
+        valid_args = ('tol_num_frames',)
 
         d = dict((k, kwargs[p+k])
                  for k in valid_args if p+k in kwargs)
-- 
2.43.0


From 4c13b834aaa74a33466601084c02603d78a5ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 078/167] fix: VectorReader.filter_args iterated over the
 letters of vlist_sep

---
 hyperion/helpers/vector_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_reader.py b/hyperion/helpers/vector_reader.py
index e19b913..7f9985a 100644
--- a/hyperion/helpers/vector_reader.py
+++ b/hyperion/helpers/vector_reader.py
@@ -45,7 +45,7 @@ class VectorReader(object):
         else:
             p = prefix + '_'
             
-        valid_args = ('vlist_sep')
+        valid_args = ('vlist_sep',)
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From ddd45ba3d4296e1513cf43dce3e5c6a5cf6cb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 079/167] fix: SequenceBatchGeneratorV2.filter_args passed
 seq_overlap, which its constructor does not take

---
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 3d882b3..5fb0cdd 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -312,7 +312,7 @@ class SequenceBatchGeneratorV2(object):
                       'num_egs_per_class', 'num_egs_per_utt',
                       'class_list', 'shuffle_seqs', 
                       'min_seq_length', 'max_seq_length',
-                      'seq_overlap', 'prune_min_length',
+                      'prune_min_length',
                       'class_weight', 
                       'init_epoch',
                       'sg_seed', 'part_idx', 'num_parts')
-- 
2.43.0


From b5b50d76680934694f6f06d2e50ea5dcb58a2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 080/167] fix: PLDA option --diag-W changed nothing and
 --md-epochs ignored the prefix

---
 hyperion/helpers/plda_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index cae022f..e5e79f3 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -95,7 +95,7 @@ class PLDAFactory(object):
                             help='num. of eigenchannels')
 
         parser.add_argument(p1+'diag-W', dest=(p2+'diag_W'),
-                            default=False, action='store_false',
+                            default=False, action='store_true',
                             help='use diagonal covariance W')
         parser.add_argument(p1+'no-update-mu', dest=(p2+'no_update_mu'),
                             default=False, action='store_true',
@@ -129,7 +129,7 @@ class PLDAFactory(object):
                             choices=['ml+md', 'ml', 'md'],
                             help=('optimization type'))
 
-        parser.add_argument('--md-epochs', dest='md_epochs', default=None,
+        parser.add_argument(p1+'md-epochs', dest=(p2+'md_epochs'), default=None,
                             type=int, nargs = '+',
                             help=('epochs in which we do MD, if None we do it in all the epochs'))
 
-- 
2.43.0


From 5766c04fa8def96b914a70990a093999440ad281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 081/167] fix: SequencePostReader registered --num-comp for
 evaluation only with a prefix

---
 hyperion/helpers/sequence_post_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index b8b3425..8c5ef86 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -302,9 +302,9 @@ class SequencePostReader(SequenceReader):
             p1 = '--' + prefix + '-'
             p2 = prefix + '_'
 
-            parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
-                                type=int,
-                                help=('number of GMM components'))
+        parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
+                            type=int,
+                            help=('number of GMM components'))
         
 
     
-- 
2.43.0


From 22fa523f85737381ba81d589b1c15cc5d8dcfc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 082/167] fix: SequenceReader ignored its subsample argument

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 99dae7d..eb313e8 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -43,7 +43,7 @@ class SequenceReader(object):
         self.field = seq_field
         self.batch_size = batch_size
         self.shuffle_seqs = shuffle_seqs
-        self.subsample = 100
+        self.subsample = subsample
         self.min_seq_length = min_seq_length
         self.max_seq_length = max_seq_length
         self.seq_split_mode = seq_split_mode
-- 
2.43.0


From 0ffbae93dac0a91153ada064ee3e36b5234b53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 083/167] fix: SequentialAudioReader.filter_args dropped
 wav_scale

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 5a6f116..590c4be 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -251,7 +251,7 @@ class SequentialAudioReader(AudioReader):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('part_idx', 'num_parts')
+        valid_args = ('part_idx', 'num_parts', 'wav_scale')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From c0ade6817cfff8a619914b8b411f52c23e3fd5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 084/167] fix: CopyFeats dropped its compression options and
 both writers ignored their prefix

---
 hyperion/io/copy_feats.py      | 7 ++++---
 hyperion/io/data_rw_factory.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperion/io/copy_feats.py b/hyperion/io/copy_feats.py
index d76369f..8e045e8 100644
--- a/hyperion/io/copy_feats.py
+++ b/hyperion/io/copy_feats.py
@@ -97,7 +97,8 @@ class CopyFeats(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts')
+        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts',
+                      'compress', 'compression_method')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
@@ -130,6 +131,6 @@ class CopyFeats(object):
         parser.add_argument(p1+'num-parts', dest=(p2+'num_parts'), type=int, default=1,
                             help=('splits the list of files in num-parts and process part_idx'))
 
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 0357249..805f8a2 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -80,8 +80,8 @@ class DataWriterFactory(object):
             
         parser.add_argument(p1+'scp-sep', dest=(p2+'scp_sep'), default=' ',
                             help=('scp file field separator'))
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
 
 
-- 
2.43.0


From e55d2cb82c0a4f362d44a560150d8f779a0778a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 085/167] fix: PCA and CentWhiten boolean options could not be
 set to False

---
 hyperion/transforms/cent_whiten.py | 5 +++--
 hyperion/transforms/pca.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5985827..d883e25 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -14,6 +14,7 @@ import scipy.linalg as la
 
 from ..hyp_model import HypModel
 from ..pdfs import Normal
+from ..utils.misc import str2bool
 
 class CentWhiten(HypModel):
     """Class to do centering and whitening of i-vectors.
@@ -134,11 +135,11 @@ class CentWhiten(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
 
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
 
         parser.add_argument('--name', dest='name', default='lnorm')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 7968a41..2cde522 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -14,6 +14,7 @@ import scipy.linalg as la
 
 from ..hyp_model import HypModel
 from ..pdfs import Normal
+from ..utils.misc import str2bool
 
 
 class PCA(HypModel):
@@ -129,10 +130,10 @@ class PCA(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
         parser.add_argument(p1+'pca-dim', dest=(p2+'pca_dim'), default=None,
                             type=int,
-- 
2.43.0


From dfe1a56091eb01c3801a445d8645c764d9cbf1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 086/167] fix: transform option --name ignored the prefix

---
 hyperion/transforms/cent_whiten.py  | 2 +-
 hyperion/transforms/gaussianizer.py | 2 +-
 hyperion/transforms/pca.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index d883e25..a9c9db1 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -142,4 +142,4 @@ class CentWhiten(HypModel):
                             type=str2bool,
                             help=('updates whitening parameter'))
 
-        parser.add_argument('--name', dest='name', default='lnorm')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='lnorm')
diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 3850d86..0673802 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -120,4 +120,4 @@ class Gaussianizer(HypModel):
                             type=int,
                             help=('maximum number of background vectors'))
 
-        parser.add_argument('--name', dest='name', default='gauss')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='gauss')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 2cde522..e368b6b 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -139,4 +139,4 @@ class PCA(HypModel):
                             type=int,
                             help=('output dimension of PCA'))
 
-        parser.add_argument('--name', dest='name', default='pca')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='pca')
-- 
2.43.0


From f7212d33a31070d6127e22dc9f5c7efbc8b79b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 087/167] fix: --num-comp was kept as a string and ignored by
 init-ubm.py

---
 hyperion/bin/compute-gmm-post.py | 2 +-
 hyperion/bin/init-ubm.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index b0e32f6..ab85468 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -98,7 +98,7 @@ if __name__ == "__main__":
     parser.add_argument('--preproc-file', dest='preproc_file', default=None)
     parser.add_argument('--model-file', dest='model_file', required=True)
     parser.add_argument('--output-path', dest='output_path', required=True)
-    parser.add_argument('--num-comp', dest='num_comp', default=10)
+    parser.add_argument('--num-comp', dest='num_comp', default=10, type=int)
 
     SR.add_argparse_eval_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index 5556315..0d3608a 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -48,7 +48,7 @@ def init_ubm(seq_file, train_list, x_dim, num_comp,
              output_path, **kwargs):
 
     if seq_file is None:
-        model = DiagGMM(x_dim=x_dim, num_comp=1)
+        model = DiagGMM(x_dim=x_dim, num_comp=num_comp)
         model.initialize()
         model.save(output_path)
 
@@ -68,7 +68,7 @@ if __name__ == "__main__":
     parser.add_argument('--seq-file', dest='seq_file', default=None)
     parser.add_argument('--train-list', dest='train_list', default=None)
     parser.add_argument('--x-dim', dest='x_dim', type=int, required=True)
-    parser.add_argument('--num-comp', dest='num_comp', default=1)
+    parser.add_argument('--num-comp', dest='num_comp', default=1, type=int)
     parser.add_argument('--output-path', dest='output_path', required=True)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
         
-- 
2.43.0


From 4dd8c69aecc0b6e6601453cfed76d4ac2b087ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 088/167] fix: train-lda.py read args.verbose without defining
 the option

---
 hyperion/bin/train-lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index da53891..9a4ebc0 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -82,6 +82,7 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='lda')
+    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
     args=parser.parse_args()
     config_logger(args.verbose)
     del args.verbose
-- 
2.43.0


From 97ba5bde68e0a620259491e49dee474416e0ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 089/167] fix: train-linear-svmc.py and
 train-logistic-regression.py registered --verbose twice

---
 hyperion/bin/train-linear-svmc.py         | 2 --
 hyperion/bin/train-logistic-regression.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index b849fd0..eb71f61 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -62,11 +62,9 @@ if __name__ == "__main__":
     SVM.add_argparse_train_args(parser)
 
     parser.add_argument('--output-path', dest='output_path', required=True)
-    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
 
     args=parser.parse_args()
     config_logger(args.verbose)
-    del args.verbose
     logging.debug(args)
 
     train_svm(**vars(args))
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 61fecd4..bbc11bf 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -62,11 +62,9 @@ if __name__ == "__main__":
     LR.add_argparse_train_args(parser)
 
     parser.add_argument('--output-path', dest='output_path', required=True)
-    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
     
     args=parser.parse_args()
     config_logger(args.verbose)
-    del args.verbose
     logging.debug(args)
     
     train_lr(**vars(args))
-- 
2.43.0


From a61ab702bafc4788f46c17bec39bf18972f1ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 090/167] fix: train-nda.py offered an option that nothing
 reads

---
 hyperion/bin/train-nda.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index 8cb7514..41025ab 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -92,7 +92,6 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='nda')
-    parser.add_argument('--vector-score-file', dest='vector_score_file', default=None)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
     
     args=parser.parse_args()
-- 
2.43.0


From 04e7acabf6b8c1d1986ee7b0dd1760b2ef27344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 091/167] fix: VectorClassReader offered a splitting mode that
 does not exist

---
 hyperion/helpers/vector_class_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 4c29374..0a41419 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -252,7 +252,7 @@ class VectorClassReader(object):
 
         parser.add_argument(p1+'csplit-mode', dest=(p2+'csplit_mode'), 
                             default='random', type=str.lower,
-                            choices = ['sequential', 'random', 'random_1subclass'],
+                            choices = ['sequential', 'random', 'random_1part'],
                             help=('class splitting mode'))
         parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
                             default=0, help=('overlap between subclasses'))
-- 
2.43.0


From 80896b9b1b1ad349975a96c6ca0ed212a032043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 092/167] fix: VectorClassReader splitting options had a
 default and a type the reader cannot use

---
 hyperion/helpers/vector_class_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 0a41419..957cd62 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -243,7 +243,7 @@ class VectorClassReader(object):
                             choices=['random', 'first', 'last'],
                             help=('vector pruning method when spc > max-spc'))
         parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum samples per class when doing class spliting'))
         parser.add_argument(p1+'csplit-max-spc', dest=(p2+'csplit_max_spc'), type=int,
                             default=None,
@@ -254,7 +254,7 @@ class VectorClassReader(object):
                             default='random', type=str.lower,
                             choices = ['sequential', 'random', 'random_1part'],
                             help=('class splitting mode'))
-        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
+        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=int,
                             default=0, help=('overlap between subclasses'))
         parser.add_argument(p1+'no-csplit-once', dest=(p2+'csplit_once'), 
                             default=True, action='store_false',
-- 
2.43.0


From 286ce4f05bcae7111bb1f199807e189d6f32121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 093/167] fix: SequenceReader --min-seq-length defaulted to
 None, which it cannot compare with

---
 hyperion/helpers/sequence_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index eb313e8..8fdf245 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -343,7 +343,7 @@ class SequenceReader(object):
                             help=('keeps SUBSAMPLE %% of frames of the seq'))
 
         parser.add_argument(p1+'min-seq-length', dest=(p2+'min_seq_length'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum number of frames '
                                   'when we doing sequence splitting'))
         parser.add_argument(p1+'max-seq-length', dest=(p2+'max_seq_length'), type=int,
@@ -357,7 +357,7 @@ class SequenceReader(object):
                                        'random_slice_1seq', 'random_samples_1seq'],
                             help=('seq splitting mode'))
         parser.add_argument(p1+'seq-split-overlap', dest=(p2+'seq_split_overlap'),
-                            type=float,
+                            type=int,
                             default=0, help=('overlap between subsequences'))
         parser.add_argument(p1+'seqr-seed', dest=(p2+'seqr_seed'), type=int,
                             default=1024, help=('seed for rng in sequence reader'))
-- 
2.43.0


From 2042b47d21a5db8a14222acd43dd54af5e52fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 094/167] fix: AdaptSequenceBatchGenerator passed its options
 to the base class one position off

---
 hyperion/generators/adapt_sequence_batch_generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/generators/adapt_sequence_batch_generator.py b/hyperion/generators/adapt_sequence_batch_generator.py
index dff9aad..72543a5 100644
--- a/hyperion/generators/adapt_sequence_batch_generator.py
+++ b/hyperion/generators/adapt_sequence_batch_generator.py
@@ -72,9 +72,10 @@ class AdaptSequenceBatchGenerator(SBG):
         super(AdaptSequenceBatchGenerator, self).__init__(
             rspecifier, key_file, class_list, path_prefix, batch_size,
             iters_per_epoch, gen_method, min_seq_length, max_seq_length, seq_overlap,
-            prune_min_length, return_class, class_weight, seq_weight,
-            shuffle_seqs, transform, init_epoch, sg_seed, reset_rng, scp_sep,
-            part_idx,num_parts)
+            prune_min_length, return_class, class_weight, seq_weight=seq_weight,
+            shuffle_seqs=shuffle_seqs, transform=transform, init_epoch=init_epoch,
+            sg_seed=sg_seed, reset_rng=reset_rng, scp_sep=scp_sep,
+            part_idx=part_idx, num_parts=num_parts)
 
 
 
-- 
2.43.0


From f58cc5ccc7b5ec0d441272213d304c5da411b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 095/167] fix: write kaldi matrices of other element types as
 the float64 their token announces

---
 hyperion/utils/kaldi_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 4691524..6c7534f 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -170,7 +170,8 @@ class KaldiMatrix(object):
             if self.data.ndim == 2:
                 write_int32(f, binary, self.num_rows)
             write_int32(f, binary, self.num_cols)
-            f.write(self.data.tobytes())
+            data = self.data if t1 == 'F' else self.data.astype(np.float64, copy=False)
+            f.write(data.tobytes())
         else:
             if self.num_cols == 0:
                 f.write(' [ ]\n')
-- 
2.43.0


From b540333f9dbbe27366d3069a0474fc763e1cc605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 096/167] fix: keep row ranges asked by the user inside the
 range of the scp file

---
 hyperion/io/data_reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index dbe384c..76403bc 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -124,13 +124,12 @@ class DataReader(object):
         if read_range is None:
             return row_offset, num_rows
 
+        if read_range[1] > 0:
+            if num_rows == 0:
+                num_rows = read_range[1] - row_offset
+            assert num_rows > 0 and row_offset + num_rows <= read_range[1]
+
         row_offset = row_offset + read_range[0]
-            
-        if num_rows == 0:
-            num_rows = read_range[1]
-        else:
-            if read_range[1] > 0:
-                assert read_range[1] >= num_rows
 
         return row_offset, num_rows
 
-- 
2.43.0


From ebb4ea31fafec0afe4763a04ff514b796954a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 097/167] fix: move the ark file to the position of the matrix
 also when it is 0 or not given

---
 hyperion/io/ark_data_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index f91087b..5420f0d 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -73,8 +73,7 @@ class SequentialArkDataReader(SequentialDataReader):
             self.cur_file = file_path
             self.f = open(file_path, 'rb')
 
-        if offset > 0:
-            self._seek(offset)
+        self._seek(0 if offset is None else offset)
         
 
             
@@ -480,7 +479,7 @@ class RandomAccessArkDataReader(RandomAccessDataReader):
             self.f[archive_idx] = open(self.archives[archive_idx], 'rb')
 
         f = self.f[archive_idx]
-        f.seek(offset, 0)
+        f.seek(0 if offset is None else offset, 0)
         return f
 
 
-- 
2.43.0


From 8657fbe0bedbe891cbc36cdbf56b7f981f4024f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 098/167] fix: read all the segments left when the audio reader
 has segments

---
 hyperion/io/audio_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 590c4be..191c2d2 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -220,7 +220,8 @@ class SequentialAudioReader(AudioReader):
           data: List of waveforms
         """
         if num_records == 0:
-            num_records = len(self.scp) - self.cur_item
+            num_items = len(self.segments) if self.with_segments else len(self.scp)
+            num_records = num_items - self.cur_item
 
         keys = []
         data = []
-- 
2.43.0


From d03bc7e4b8b08e40fceaab0e3d2a337194a5ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 099/167] fix: accept a SegmentList as segments in the audio
 readers

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 191c2d2..93d4f1a 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -44,7 +44,7 @@ class AudioReader(object):
             self.with_segments = False
         else:
             self.with_segments = True
-            if isinstance(file_path, SegmentList):
+            if isinstance(segments_path, SegmentList):
                 self.segments = segments_path
             else:
                 self.segments = SegmentList.load(segments_path, sep=' ', index_by_file=False)
-- 
2.43.0


From 7e49d161d5db5b2577aa984c5a900e8701a42f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 100/167] fix: write archives and scp files in the current
 directory

---
 hyperion/io/data_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_writer.py b/hyperion/io/data_writer.py
index 272b0b8..3fb4ea6 100644
--- a/hyperion/io/data_writer.py
+++ b/hyperion/io/data_writer.py
@@ -37,12 +37,12 @@ class DataWriter(object):
         self.scp_sep = scp_sep
         
         archive_dir = os.path.dirname(archive_path)
-        if not os.path.exists(archive_dir):
+        if archive_dir != '' and not os.path.exists(archive_dir):
             os.makedirs(archive_dir)
 
         if script_path is not None:
             script_dir = os.path.dirname(script_path)
-            if not os.path.exists(script_dir):
+            if script_dir != '' and not os.path.exists(script_dir):
                 os.makedirs(script_dir)
             
 
-- 
2.43.0


From 5c667b981e0c7053aafd25eb7cdb56b32f6c530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 101/167] fix: squeeze permissive reads when the first
 recording is missing

---
 hyperion/io/data_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index 76403bc..b702fb0 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -81,8 +81,9 @@ class DataReader(object):
           2D or 3D numpy array.
         """
 
-        ndim = data[0].ndim
-        shape = data[0].shape
+        ref = next((d for d in data if len(d) > 0), data[0])
+        ndim = ref.ndim
+        shape = ref.shape
         for i in xrange(len(data)):
             if len(data[i]) == 0:
                 if permissive:
-- 
2.43.0


From 48e69dd011bc06a7779e50e053b6223e54b0ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 102/167] fix: seed the generator of the new epoch after
 counting the epoch

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index b72f93b..9ecc3a6 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -292,8 +292,8 @@ class SequenceBatchGeneratorV1(object):
 
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 5fb0cdd..233dcc6 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -222,8 +222,8 @@ class SequenceBatchGeneratorV2(object):
         
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
-- 
2.43.0


From 83280cb9d535014541c984578633a9aeeb70dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 103/167] fix: draw the directions of split_comp from a seeded
 generator

---
 hyperion/pdfs/mixtures/gmm.py               | 6 ++++--
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 6 ++++--
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 22a12fc..dbcd8e8 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -193,7 +193,9 @@ class GMM(ExpFamilyMixture):
 
 
         
-    def split_comp(self, K=2):
+    def split_comp(self, K=2, rng=None, seed=1024):
+        if rng is None:
+            rng = np.random.RandomState(seed)
 
         num_comp = self.num_comp * K
         pi = np.repeat(self.pi, K)/K
@@ -209,7 +211,7 @@ class GMM(ExpFamilyMixture):
                 mu[2*g+1] -= std_dev
             else:
                 for k in xrange(K):
-                    factor = 2*(np.random.uniform(size=(v.shape[1],)) > 0.5) - 1
+                    factor = 2*(rng.uniform(size=(v.shape[1],)) > 0.5) - 1
                     std_dev = np.sum(v*factor, axis=1)
                     mu[K*g+k] += std_dev
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 2035c4c..7aafb81 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -174,7 +174,9 @@ class GMMDiagCov(ExpFamilyMixture):
         
 
         
-    def split_comp(self, K=2):
+    def split_comp(self, K=2, rng=None, seed=1024):
+        if rng is None:
+            rng = np.random.RandomState(seed)
 
         std_dev = 1/self.cholLambda
 
@@ -188,7 +190,7 @@ class GMMDiagCov(ExpFamilyMixture):
             mu[1::2] -= std_dev
         else:
             for k in xrange(K):
-                factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
+                factor = 2*(rng.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
         config = self.get_config()
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 1d5d5b5..04a7897 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -104,7 +104,9 @@ class GMMTiedDiagCov(GMMDiagCov):
         
 
         
-    def split_comp(self, K=2):
+    def split_comp(self, K=2, rng=None, seed=1024):
+        if rng is None:
+            rng = np.random.RandomState(seed)
 
         std_dev = 1/self.cholLambda
 
@@ -117,7 +119,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             mu[1::2] -= std_dev
         else:
             for k in xrange(K):
-                factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
+                factor = 2*(rng.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
         config = self.get_config()
-- 
2.43.0


From a2f743d29669cfc46a9939b9d71e1fe411f8c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 104/167] fix: ZTNorm masks the cohort-cohort scores with their
 own mask, not with the enrollment one

---
 hyperion/score_norm/zt_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index 422da0b..e4c09d3 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -30,7 +30,7 @@ class ZTNorm(ScoreNorm):
         scores_z_norm = self.z_norm.predict(
             scores, scores_enr_coh, mask_enr_coh)
         scores_coh_test_z_norm = self.z_norm.predict(
-            scores_coh_test, scores_coh_coh, mask_enr_coh)
+            scores_coh_test, scores_coh_coh, mask_coh_coh)
         scores_zt_norm = self.t_norm.predict(
             scores_z_norm, scores_coh_test_z_norm, mask_coh_test)
         
-- 
2.43.0


From 0653572d8d9f510a4bee08663c4351f7698dbe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 105/167] fix: AdaptSNorm floors the standard deviation like
 the other normalisations do

---
 hyperion/score_norm/adapt_s_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 494e435..53f860d 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -56,6 +56,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
                                       axis=1, keepdims=True)/norm - mu_z**2)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
@@ -77,6 +78,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
                                       axis=0, keepdims=True)/norm - mu_z**2)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
         
-- 
2.43.0


From 72b6add5ec806081f686a90fec29d5b0b971a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 106/167] fix: score normalisers hand their keyword options to
 the base class as keywords

---
 hyperion/score_norm/adapt_s_norm.py | 2 +-
 hyperion/score_norm/s_norm.py       | 2 +-
 hyperion/score_norm/score_norm.py   | 2 +-
 hyperion/score_norm/tz_norm.py      | 2 +-
 hyperion/score_norm/zt_norm.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 53f860d..9d65b7b 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -18,7 +18,7 @@ class AdaptSNorm(ScoreNorm):
     """Class for adaptive S-Norm
     """
     def __init__(self, nbest=100, nbest_discard=0, **kwargs):
-        super(AdaptSNorm, self).__init__(*kwargs)
+        super(AdaptSNorm, self).__init__(**kwargs)
         self.nbest = nbest
         self.nbest_discard = nbest_discard
 
diff --git a/hyperion/score_norm/s_norm.py b/hyperion/score_norm/s_norm.py
index deae2a8..f93a320 100644
--- a/hyperion/score_norm/s_norm.py
+++ b/hyperion/score_norm/s_norm.py
@@ -18,7 +18,7 @@ class SNorm(ScoreNorm):
     """ Class for S-Norm, symmetric score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(SNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/score_norm.py b/hyperion/score_norm/score_norm.py
index f81d99a..19e573d 100644
--- a/hyperion/score_norm/score_norm.py
+++ b/hyperion/score_norm/score_norm.py
@@ -16,7 +16,7 @@ class ScoreNorm(HypModel):
     Base class for score normalization
     """
     def __init__(self, std_floor=1e-5, **kwargs):
-        super(ScoreNorm, self).__init__(*kwargs)
+        super(ScoreNorm, self).__init__(**kwargs)
         self.std_floor = std_floor
 
     
diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 2afafb0..164f5c8 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(TZNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index e4c09d3..9906b47 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(ZTNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
-- 
2.43.0


From 9c4a2c45f973ba7f9efdffef0649de2468a429bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 107/167] fix: normalised sufficient statistics are whitened
 with the factor of the precision used by the density

---
 hyperion/pdfs/core/normal.py  | 4 ++--
 hyperion/pdfs/mixtures/gmm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 38b22cc..072441e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -121,12 +121,12 @@ class Normal(ExpFamily):
         assert self.is_init
         
         F, S = self.unstack_suff_stats(u_x)
-        F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
+        F_norm = np.dot(F-N*self.mu, self.cholLambda)
         if return_order2:
             SS = vec2symmat(S)
             Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
-            SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
+            SS = np.dot(self.cholLambda.T, np.dot(SS, self.cholLambda))
             S = symmat2vec(SS)
             return N, self.stack_suff_stats(F_norm, S)
         return N, F_norm
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index dbcd8e8..c9fcbb6 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -155,12 +155,12 @@ class GMM(ExpFamilyMixture):
         F_norm = F - N[:,None]*self.mu
         S_norm = np.zeros_like(S)
         for k in xrange(self.num_comp):
-            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
+            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k])
             if return_order2:
                 SS = vec2symmat(S[k])
                 Fmu = np.outer(F[k], self.mu[k])
                 SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
-                SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
+                SS = np.dot(self.cholLambda[k].T, np.dot(SS, self.cholLambda[k]))
                 S_norm[k] = symmat2vec(SS)
         if return_order2:
             return N, self.stack_suff_stats(F_norm, S_norm)
-- 
2.43.0


From 755514268b68342e5279a60b8d11d2603a45663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 108/167] fix: the mixture weights learnt in the M-step are
 used by the likelihoods (cached log weights are renewed, and the
 full-covariance mixture learns its weights)

---
 hyperion/pdfs/mixtures/gmm.py               | 4 ++++
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 1 +
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 1 +
 3 files changed, 6 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index c9fcbb6..5ec5f04 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -189,6 +189,10 @@ class GMM(ExpFamilyMixture):
             self._logLambda = None
             self._cholLambda = None
 
+        if self.update_pi:
+            self.pi = N/np.sum(N)
+            self._log_pi = None
+
         self._compute_nat_params()
 
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 7aafb81..5334959 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -169,6 +169,7 @@ class GMMDiagCov(ExpFamilyMixture):
                     S[N0] = 1
                     self.Lambda[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 04a7897..3df499d 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -99,6 +99,7 @@ class GMMTiedDiagCov(GMMDiagCov):
                 if self.update_mu:
                     self.mu[N0] = 0
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
-- 
2.43.0


From 57e53af6a8979233835be6e05fc5a863b59ffec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 109/167] fix: second order normalised statistics of the
 diagonal mixture weight each component by its own count

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 5334959..d3c13a6 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -135,7 +135,7 @@ class GMMDiagCov(ExpFamilyMixture):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
-            S=S-2*self.mu*F+N*self.mu**2
+            S=S-2*self.mu*F+N[:,None]*self.mu**2
             S *= self.Lambda
             return N, self.stack_suff_stats(F_norm, S)    
 
-- 
2.43.0


From 9eb14bc67a8abd51873916f178bfee5329cfe9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 110/167] fix: component splitting of the full-covariance
 mixture moves the means along the scaled principal axes

---
 hyperion/pdfs/mixtures/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 5ec5f04..db2e090 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -208,7 +208,7 @@ class GMM(ExpFamilyMixture):
         
         for g in xrange(self.num_comp):
             w, v = la.eigh(self.Sigma[g])
-            v *= np.sqrt(v)
+            v *= np.sqrt(w)
             if K==2:
                 std_dev = np.sum(v, axis=1)
                 mu[2*g] += std_dev
-- 
2.43.0


From 4a15f058a547becd7086a11e8f820bd3bd06d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 111/167] fix: n-best likelihood picks the best components of
 each frame

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 0019814..b01707f 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -466,8 +466,8 @@ class ExpFamilyMixture(PDF):
         if nbest_mode == 'master':
             assert(isinstance(nbest, int))
             llk_k = np.dot(u_x, self.eta.T) - self.A + self.log_pi
-            nbest = np.argsort(llk_k)[:-(nbest+1):-1]
-            llk_k = llk_k[nbest]
+            nbest = np.argsort(llk_k, axis=-1)[:,:-(nbest+1):-1]
+            llk_k = np.take_along_axis(llk_k, nbest, axis=-1)
         else:
             llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A + self.log_pi
         llk = logsumexp(llk_k)
-- 
2.43.0


From 1a6ed62bda97a170172977851f1ea000f91ad9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 112/167] fix: the class posterior centres the class statistics
 with the count of each class

---
 hyperion/pdfs/plda/plda.py  | 2 +-
 hyperion/pdfs/plda/splda.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 708cefb..1b42d41 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -118,7 +118,7 @@ class PLDA(PLDABase):
         assert self.is_init
         
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:, None]*self.mu
         
         M=F.shape[0]
         y_dim = self.y_dim
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 66d7320..d66026e 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -78,7 +78,7 @@ class SPLDA(PLDABase):
     def compute_py_g_x(self, D, return_cov=False, return_logpy_0=False,
                        return_acc=False):
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:, None]*self.mu
         
         M = F.shape[0]
         y_dim = self.y_dim
-- 
2.43.0


From e039f59c5f57c475eaa42d94fc7f46ec97444728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 113/167] fix: the full-rank PLDA within-class update includes
 the posterior covariance of the class variable

---
 hyperion/pdfs/plda/frplda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 49aa4c7..be027c0 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -147,6 +147,7 @@ class FRPLDA(PLDABase):
                 
             if return_acc:
                 Py += M_i*iL
+                Ry += N_i*M_i*iL
 
         if not return_tuple:
             return y
-- 
2.43.0


From c441190d10e62419765650fdaeb12f7460aa7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 114/167] fix: the full-rank PLDA between-class covariance
 stays symmetric when the mean is not updated

---
 hyperion/pdfs/plda/frplda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index be027c0..97e98f2 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -222,7 +222,7 @@ class FRPLDA(PLDABase):
                 iB = Py/M - np.outer(self.mu, self.mu)
             else:
                 muybar = np.outer(self.mu, ybar)
-                iB = Py/M - muybar - muybar + np.outer(self.mu, self.mu)
+                iB = Py/M - muybar - muybar.T + np.outer(self.mu, self.mu)
             self.B = invert_pdmat(iB, return_inv=True)[-1]
         if self.update_W:
             iW = (S - Cy - Cy.T + Ry)/N
-- 
2.43.0


From 960f2d7a26b213454bc05eb833e5f8d8fa95bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 115/167] fix: the channel statistics of PLDA subtract the mean
 from the second order statistics as an outer product

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1b42d41..9cdef5e 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -211,7 +211,7 @@ class PLDA(PLDABase):
         Cy = np.dot(F.T, y)
         
         #Cz
-        A = np.dot(S - np.dot(F_tot.T,self.mu), self._DU.T)-np.dot(Cy, self._J)
+        A = np.dot(S - np.outer(F_tot, self.mu), self._DU.T)-np.dot(Cy, self._J)
         Cz = self._mult_iLz(A)
         
         #Ry Ry1, Py
-- 
2.43.0


From 2f26a76f2d1b3f06b6bace00c643561b8f3849de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 116/167] fix: the PLDA updates of mean and one factor matrix
 solve the right equations

---
 hyperion/pdfs/plda/plda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 9cdef5e..c08fb85 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -298,25 +298,25 @@ class PLDA(PLDABase):
             b = np.hstack((Rz1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
-            a = Cz.T - np.outer(Ryz, self.V)
-            b = F[:,None] - np.outer(Ry1, self.V)
+            a = Cz.T - np.dot(Ryz.T, self.V)
+            b = F - np.dot(Ry1, self.V)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.U = Vtilde[:-1]
             self.mu = Vtilde[-1]
         
 
-        if not self.update_mu and self.update_V and not self.update_U:
+        if self.update_mu and self.update_V and not self.update_U:
             a = np.hstack((Ry, Ry1[:,None]))
             b = np.hstack((Ry1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
             a = Cy.T - np.dot(Ryz, self.U)
-            b = F[:,None] - np.dot(Rz1, self.U)
+            b = F - np.dot(Rz1, self.U)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.V = Vtilde[:-1]
-            self.U = Vtilde[-1]
+            self.mu = Vtilde[-1]
 
         a = np.hstack((Ry, Ryz, Ry1[:, None]))
         b = np.hstack((Ryz.T, Rz, Rz1[:, None]))
-- 
2.43.0


From 92c4b28b2c5dcde7e7dd5fd73b790ac4d46e3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 117/167] fix: PLDA sampling draws the residual with the
 standard deviation of the model

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index c08fb85..0f47e73 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -534,7 +534,7 @@ class PLDA(PLDABase):
         x_dim = self.mu.shape[0]
 
         z1 = rng.normal(size=(num_classes*num_samples_per_class, x_dim)).astype(dtype=float_cpu(), copy=False)
-        z1 /= self.D
+        z1 /= np.sqrt(self.D)
         
         z2 = rng.normal(size=(num_classes*num_samples_per_class, self.z_dim)).astype(dtype=float_cpu(), copy=False)
         z2 = np.dot(z2, self.U)
-- 
2.43.0


From 4d6310f168ef0be0c073597d3fc3051f31608752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 118/167] fix: adapting a PLDA model by averaging renews its
 derived matrices

---
 hyperion/pdfs/plda/plda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 0f47e73..2d13ed3 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -573,6 +573,8 @@ class PLDA(PLDABase):
             iD[iD<self.floor_iD] = self.floor_iD
             self.D = 1/iD
 
+        self.compute_aux()
+
         # if w_W > 0:
         #     Sw0 = np.dot(self.U.T, self.U)
         #     Sw = np.dot(U.T, U)
-- 
2.43.0


From 999d1bce1926866ef3c333f1045a4bc229c3247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 119/167] fix: a simplified PLDA with diagonal within-class
 precision starts from a matrix

---
 hyperion/pdfs/plda/splda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index d66026e..85fc586 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -68,7 +68,7 @@ class SPLDA(PLDABase):
         if self.fullcov_W:
             W = invert_pdmat(C, return_inv=True)[-1]
         else:
-            W = 1/np.diag(C)
+            W = np.diag(1/np.diag(C))
         
         self.mu = mu
         self.V = V
-- 
2.43.0


From 66a13a1457df3425293db2c6c4b7060a937a9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 120/167] fix: the class-conditional log-likelihood of PLDA
 multiplies the rows of its input by the inverse covariance

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 2d13ed3..87014be 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -402,7 +402,7 @@ class PLDA(PLDABase):
     
     def log_probx_g_y(self, x, y):
         iW = np.diag(1/self.D) + np.dot(self.U.T, self.U)
-        mult_W, _, logiW = invert_pdmat(iW, return_logdet=True)
+        mult_W, _, logiW = invert_pdmat(iW, right_inv=True, return_logdet=True)
         delta = x - self.mu - np.dot(y, self.V)
         logp = - x.shape[-1]*np.log(2*np.pi) - logiW - np.sum(
             mult_W(delta)*delta, axis=-1)
-- 
2.43.0


From 4909f66d7c2bd0186e79001f16d15e130204b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 121/167] fix: the variance update around a mean that is kept
 uses that mean, not the mean of the statistics

---
 hyperion/pdfs/core/normal.py                | 3 ++-
 hyperion/pdfs/core/normal_diag_cov.py       | 2 +-
 hyperion/pdfs/mixtures/gmm.py               | 3 ++-
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 072441e..dc5c80d 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -142,7 +142,8 @@ class Normal(ExpFamily):
 
         if self.update_Lambda:
             S = vec2symmat(S/N)
-            S -= np.outer(self.mu,self.mu)
+            Fmu = np.outer(F/N,self.mu)
+            S += np.outer(self.mu,self.mu)-Fmu-Fmu.T
             # S = fullcov_varfloor(S, self.var_floor)
             self.Lambda = invert_pdmat(S, return_inv=True)[-1]
             self._Sigma = None
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 7575143..7a71389 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -119,7 +119,7 @@ class NormalDiagCov(ExpFamily):
             self.mu = F/N
 
         if self.update_Lambda:
-            S = S/N-self.mu**2
+            S = S/N-self.mu*(2*F/N-self.mu)
             S[S<self.var_floor] = self.var_floor
             self.Lambda=1/S
             self._Sigma = S
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index db2e090..d3e8aeb 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -179,7 +179,8 @@ class GMM(ExpFamilyMixture):
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
                 C[k] = vec2symmat(S[k]/N[k])
-                C[k] -= np.outer(self.mu[k],self.mu[k])
+                Fmu = np.outer(F[k]/N[k],self.mu[k])
+                C[k] += np.outer(self.mu[k],self.mu[k])-Fmu-Fmu.T
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
             for k in xrange(self.num_comp):
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index d3c13a6..ab03bab 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -151,7 +151,7 @@ class GMMDiagCov(ExpFamilyMixture):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - self.mu*(2*F/N[:,None] - self.mu)
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             self.Lambda=1/S
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 3df499d..a19c3c8 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -83,7 +83,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - self.mu*(2*F/N[:,None] - self.mu)
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
-- 
2.43.0


From 81ed3976cb454dc255b36bbe834b05a35896a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 122/167] fix: non-target side of Cllr uses the negated score

---
 hyperion/metrics/cllr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/cllr.py b/hyperion/metrics/cllr.py
index fd9ce0e..1c1b9b2 100644
--- a/hyperion/metrics/cllr.py
+++ b/hyperion/metrics/cllr.py
@@ -25,7 +25,7 @@ def compute_cllr(tar, non):
 
     """
     c1 = np.mean(neglogsigmoid(tar))/np.log(2)
-    c2 = np.mean(neglogsigmoid(non))/np.log(2)
+    c2 = np.mean(neglogsigmoid(-non))/np.log(2)
 
     return (c1 + c2)/2
 
-- 
2.43.0


From d570b0f706762d19f80f71294e8e7a9a5e310fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 123/167] fix: area under the ROC convex hull uses the
 trapezoid between consecutive vertices

---
 hyperion/metrics/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 0070e7b..7b35c27 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -204,7 +204,7 @@ def compute_area_under_rocch(p_miss, p_fa):
     
     auc = 0
     for i in xrange(1, len(p_miss)):
-        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i+1])
+        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i-1])
 
     return auc
 
-- 
2.43.0


From d77d67473aa1d36a4537e9ae6ca5efd6c39806e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 124/167] fix: confusion matrices with string labels and
 disjoint integer train/test labels

---
 hyperion/metrics/confusion_matrix.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index e234429..047d798 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -30,7 +30,7 @@ def compute_confusion_matrix(y_true, y_pred, labels=None,
     Returns:
       Confusion matrix (num_classes x num_classes)
     """
-    C = confusion_matrix(y_true, y_pred, labels, sample_weight)
+    C = confusion_matrix(y_true, y_pred, labels=labels, sample_weight=sample_weight)
     if normalize:
         C = C/np.sum(C, axis=1, keepdims=True)
     return C
@@ -68,16 +68,16 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     else:
         labels_test = list2ndarray(labels_test)
 
-    assert y_true.dtype == y_pred.dtype, 'y_true and y_pred labels does not have the same type'
-    assert labels_train.dtype == labels_test.dtype, 'Train and test labels does not have the same type'
-    assert labels_train.dtype == y_pred.dtype, 'Labels, y_true and y_pred does not have the same type'
+    assert y_true.dtype.kind == y_pred.dtype.kind, 'y_true and y_pred labels does not have the same type'
+    assert labels_train.dtype.kind == labels_test.dtype.kind, 'Train and test labels does not have the same type'
+    assert labels_train.dtype.kind == y_pred.dtype.kind, 'Labels, y_true and y_pred does not have the same type'
 
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
-        y_pred = y_pred + num_classes_test
-    elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
-    y_true.dtype.type, np.dtype('S')): 
+        label_shift = np.max(labels_test) - np.min(labels_train) + 1
+        y_pred = y_pred + label_shift
+    elif y_true.dtype.kind == 'U':
         y_true = np.asarray(['TEST_' + s for s in y_true])
         y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
     else:
@@ -85,16 +85,15 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
 
     if issubclass(labels_train.dtype.type, np.integer):
-        labels_train = labels_train + num_classes_test
-    elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
-    labels_train.dtype.type, np.dtype('S')): 
+        labels_train = labels_train + label_shift
+    elif labels_train.dtype.kind == 'U':
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
         labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
     else:
         raise Exception()
 
     labels = np.concatenate((labels_test, labels_train))
-    C = confusion_matrix(y_true, y_pred, labels, sample_weight)
+    C = confusion_matrix(y_true, y_pred, labels=labels, sample_weight=sample_weight)
     C = C[:num_classes_test, num_classes_test:]
     if normalize:
         C = C/np.sum(C, axis=1, keepdims=True)
-- 
2.43.0


From e87e61348eb1120ec8245c897c65732f2470fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 125/167] fix: scale of the Student-t predictive distribution
 of LinearGBE

---
 hyperion/classifiers/linear_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index cfd642a..8ef2652 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -115,7 +115,7 @@ class LinearGBE(HypModel):
 
         # 0.5*log|L| = 0.5*log|K| + 0.5*d*log(c r) 
         logK = logdet_pdmat(K)
-        logL_div_2 = 0.5*logK + 0.5*self.x_dim*r 
+        logL_div_2 = 0.5*logK + 0.5*self.x_dim*np.log(c*r)
         
         # delta2_0 = (x-mu)^T W (x-mu)
         delta2_0 = np.sum(np.dot(x, self.W)*x, axis=1, keepdims=True) - 2*(
-- 
2.43.0


From 1eadbb812042bf4768fdd84a86155b583ca16af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 126/167] fix: integer split of mean and covariance features in
 LinearGBEUP

---
 hyperion/classifiers/linear_gbe_up.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 5b5d005..edf67c8 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -42,12 +42,12 @@ class LinearGBEUP(LinearGBE):
     
 
     def eval_linear(self, x):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         try:
             S = invert_pdmat(self.W, return_inv=True)[-1]
         except:
-#            self.W += np.mean(np.diag(self.W))/1000*np.eye(x.shape[-1]/2)
+#            self.W += np.mean(np.diag(self.W))/1000*np.eye(x.shape[-1]//2)
             S = invert_pdmat(self.W, return_inv=True)[-1]
             
         logp = np.zeros((len(x), self.num_classes), dtype=float_cpu())
@@ -103,8 +103,8 @@ class LinearGBEUP(LinearGBE):
 
     
     def fit(self, x, class_ids=None, p_theta=None, sample_weight=None):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         x = x_m
         assert class_ids is not None or p_theta is not None
 
-- 
2.43.0


From b2ce1f101d8675464c807b2106ae7c530680fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 127/167] fix: QScoringHomoGBE rescales the prior precision,
 not its own, and keeps post_N in the config

---
 hyperion/classifiers/q_scoring_homo_gbe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 304127f..3a632c7 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -52,7 +52,8 @@ class QScoringHomoGBE(HypModel):
     
     def get_config(self):
         config = { 'balance_class_weight': self.balance_class_weight,
-                   'prior_N': self.prior_N }
+                   'prior_N': self.prior_N,
+                   'post_N': self.post_N }
         
         base_config = super(QScoringHomoGBE, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
@@ -64,7 +65,7 @@ class QScoringHomoGBE(HypModel):
             self.prior = QScoringHomoGBE.load(self.prior)
         num_classes = self.prior.mu.shape[0]
         if self.prior_N is not None:
-            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.W-1)
+            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.prior.W-1)
             self.prior.N = self.prior_N*np.ones((num_classes,), dtype=float_cpu())
 
 
-- 
2.43.0


From c678b8856e61a01ab91a7c66f57caa07f66f56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 128/167] fix: sign of the binary log-posterior and class axis
 of the posteriors of LinearSVMC

---
 hyperion/classifiers/linear_svmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 7558168..2024b4d 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -77,13 +77,13 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return np.log(1+np.exp(-s))
+            return -np.log(1+np.exp(-s))
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
-            return softmax(s)
+            return softmax(s, axis=1)
         if eval_type == 'cat-logpost':
-            return np.log(softmax(s))
+            return np.log(softmax(s, axis=1))
         
         return s
         
-- 
2.43.0


From 296833bf9a18a67fe6b2be4f5446bc391d940904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 129/167] fix: LogisticRegression without priors or with a
 dictionary of priors

---
 hyperion/classifiers/logistic_regression.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index e95ff31..3f8ece7 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -84,6 +84,8 @@ class LogisticRegression(HypModel):
 
         self.use_bias = use_bias
         self.bias_scaling = bias_scaling
+        if isinstance(priors, dict):
+            priors = dict((int(k), v) for k, v in priors.items())
         self.priors = priors
         self.lambda_reg = lambda_reg
         self.multi_class = multi_class
@@ -120,6 +122,13 @@ class LogisticRegression(HypModel):
 
 
     
+    def _get_priors(self, num_classes):
+        if self.priors is None:
+            return 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
+        return np.array([self.priors[i] for i in xrange(num_classes)], dtype=float_cpu())
+
+
+
     def predict(self, x, eval_type='logit'):
         if x.ndim == 1:
             x = x[:, None]
@@ -127,9 +136,9 @@ class LogisticRegression(HypModel):
         y = np.dot(x, self.A) + self.b
 
         if eval_type == 'log-post':
-            y = np.log(softmax(y + np.log(self.priors), axis=1)+1e-10)
+            y = np.log(softmax(y + np.log(self._get_priors(y.shape[1])), axis=1)+1e-10)
         if eval_type == 'post':
-            y = softmax(y + np.log(self.priors))
+            y = softmax(y + np.log(self._get_priors(y.shape[1])), axis=1)
         
         return y
         
@@ -142,10 +151,7 @@ class LogisticRegression(HypModel):
         counts = np.bincount(class_ids)
         assert num_classes == len(counts)
         
-        if self.priors is None:
-            priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
-        else:
-            priors = [self.priors[i] for i in xrange(num_classes)]
+        priors = self._get_priors(num_classes)
         class_weights = priors/counts
         
         if sample_weight is None:
@@ -158,11 +164,11 @@ class LogisticRegression(HypModel):
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
-                priors = self.priors[1]
+                priors = priors[1]
             self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors)/self.bias_scaling
 
 
             
-- 
2.43.0


From af4f3625809a6e50c6f00c08f0fdcbaa809a62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 130/167] fix: sample weights of the accuracy by keyword

---
 hyperion/metrics/acc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/acc.py b/hyperion/metrics/acc.py
index 132a64e..8de8e3d 100644
--- a/hyperion/metrics/acc.py
+++ b/hyperion/metrics/acc.py
@@ -27,7 +27,7 @@ def compute_accuracy(y_true, y_pred, normalize=True, sample_weight=None):
     Returns:
       Accuracy or number of correctly classified samples.
     """
-    return accuracy_score(y_true, y_pred, normalize, sample_weight)
+    return accuracy_score(y_true, y_pred, normalize=normalize, sample_weight=sample_weight)
 
 
 
-- 
2.43.0


From 3133abec9dfb31856e20bc61d1c060535e16f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 131/167] fix: filter_roc keeps the last point and has room for
 curves without straight sections

---
 hyperion/metrics/roc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 7b35c27..0ef54b4 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -164,8 +164,8 @@ def filter_roc(p_miss,p_fa):
                             input vectors.  
     """
     out = 0
-    new_p_miss = np.copy(p_miss)
-    new_p_fa = np.copy(p_fa)
+    new_p_miss = np.append(p_miss, p_miss[-1:])
+    new_p_fa = np.append(p_fa, p_fa[-1:])
 
     for i in xrange(1,len(p_miss)):
         if p_miss[i] == new_p_miss[out] or p_fa[i] == new_p_fa[out]:
@@ -180,8 +180,8 @@ def filter_roc(p_miss,p_fa):
     out = out+1
     new_p_miss[out] = p_miss[-1]
     new_p_fa[out] = p_fa[-1]
-    new_p_miss = new_p_miss[:out]
-    new_p_fa = new_p_fa[:out]
+    new_p_miss = new_p_miss[:out+1]
+    new_p_fa = new_p_fa[:out+1]
 
     return new_p_miss, new_p_fa
 
-- 
2.43.0


From d56a72f8af870f86e9187e3973544cee1b20b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 132/167] fix: tied scores get the same optimal log-likelihood
 ratio

---
 hyperion/metrics/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 00053a2..9408dd7 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -149,7 +149,8 @@ def opt_loglr(tar, non, method='laplace'):
     post_log_odds = np.log(p_opt) - np.log(1-p_opt)
     prior_log_odds = np.log(ntar/nnon)
     llr = post_log_odds - prior_log_odds
-    llr += 1e-6 * np.arange(n)/n
+    sorted_scores = scores[sort_idx]
+    llr += 1e-6 * np.searchsorted(sorted_scores, sorted_scores)/n
 
     llr[sort_idx] = llr
     tar_llr = llr[:ntar]
-- 
2.43.0


From f0a32bd37a6e7feebe7f78575d58127361724471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 133/167] fix: actual DCF when the same prior is given twice

---
 hyperion/metrics/dcf.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/hyperion/metrics/dcf.py b/hyperion/metrics/dcf.py
index d6dd9c5..de1f7f9 100644
--- a/hyperion/metrics/dcf.py
+++ b/hyperion/metrics/dcf.py
@@ -92,28 +92,15 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     else:
         prior = prior[None]
         
-    num_priors = len(prior)
-
     ntar = len(tar)
     nnon = len(non)
     
     #thresholds
     t = - np.log(prior) + np.log(1-prior)
 
-    ttar = np.concatenate((t, tar))
-    ii = np.argsort(ttar, kind='mergesort')
-    r = np.zeros((num_priors + ntar), dtype='int32')
-    r[ii] = np.arange(1, num_priors + ntar + 1)
-    r = r[:num_priors]
-    n_miss = r - np.arange(num_priors, 0, -1)
-
-    
-    tnon = np.concatenate((t, non))
-    ii = np.argsort(tnon, kind='mergesort')
-    r = np.zeros((num_priors + nnon), dtype='int32')
-    r[ii] = np.arange(1, num_priors + nnon + 1)
-    r = r[:num_priors]
-    n_fa = nnon - r + np.arange(num_priors, 0, -1)
+    # number of targets below each threshold and of non-targets not below it
+    n_miss = np.searchsorted(np.sort(tar), t, side='left')
+    n_fa = nnon - np.searchsorted(np.sort(non), t, side='left')
 
     # n_miss2 = np.zeros((num_priors,), dtype='int32')
     # n_fa2 = np.zeros((num_priors,), dtype='int32')
-- 
2.43.0


From 1d16045a63c36aa7b56054e905441a1073e628a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 134/167] fix: MFCC: continue from log filter banks without an
 energy column

---
 hyperion/feats/mfcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index ad81436..17ff5af 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -238,6 +238,8 @@ class MFCC(object):
             if self.use_energy:
                 B = x[:,1:]
                 logE = x[:,0]
+            else:
+                B = x
 
         if self._input_step == MFCCSteps.WAVE:
             if self.snip_edges:
-- 
2.43.0


From 2b05cd3468bf48af53d4bfbaccc3d70e05d18391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 135/167] fix: MFCC: take the signed log-energy from the fft
 input, not its magnitude

---
 hyperion/feats/mfcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 17ff5af..7fbedf1 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -225,7 +225,7 @@ class MFCC(object):
             X = x
             F = np.abs(X)
             if self.use_energy:
-                logE = F[:,0]
+                logE = X[:,0].real
         elif self._input_step == MFCCSteps.FFT_MAG:
             F = x
             if self.use_energy:
-- 
2.43.0


From 31d41e957ca7f9a71cbb578920e99082dc1e9d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 136/167] fix: Framing: create_pad_width returns the widths it
 computes

---
 hyperion/utils/framing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/framing.py b/hyperion/utils/framing.py
index e9fe008..b7353e2 100644
--- a/hyperion/utils/framing.py
+++ b/hyperion/utils/framing.py
@@ -98,7 +98,7 @@ class Framing(object):
             pad_width=(0, int(overlap))
         else:
             raise Exception('Unknown pad_side=%s' % pad_side)
-        
+        return pad_width
 
         
     def create_frames(self, x):
-- 
2.43.0


From 259add67f1383c56e55db6476e526af983a3929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 137/167] fix: TrialNdx.save writes the format that load reads
 for every extension

---
 hyperion/utils/trial_ndx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index ea8bf2c..28fa1d4 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -61,10 +61,10 @@ class TrialNdx(object):
           file_path: File to write the list.
         """
         file_base, file_ext = path.splitext(file_path)
-        if file_ext == '.txt' :
-            self.save_txt(file_path)
-        else:
+        if file_ext == '.h5' or file_ext == '.hdf5' :
             self.save_h5(file_path)
+        else:
+            self.save_txt(file_path)
 
             
     def save_h5(self, file_path):
-- 
2.43.0


From 1e82df6dad36c90d00563231e91d013a58c095cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 138/167] fix: FoldList.save does not overwrite its file handle

---
 hyperion/utils/fold_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 71b6750..7e46068 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -150,8 +150,8 @@ class FoldList(object):
           sep: Separator between fold field and key field
         """
         with open(file_path, 'w') as f:
-            for f,k in zip(self.fold, self.key):
-                f.write('%s%s%s\n' % (f,sep,k))
+            for fold,k in zip(self.fold, self.key):
+                f.write('%s%s%s\n' % (fold,sep,k))
 
 
     @classmethod
-- 
2.43.0


From d9ee3e648eec8f099fbdb86eb9b0e441a00a034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 139/167] fix: TrainValEvalList saves and loads the names of
 the parts

---
 hyperion/utils/train_val_eval_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index eba6f55..51e5867 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -163,7 +163,7 @@ class TrainValEvalList(object):
                 if self.part_names is None:
                     f.write('%s%s%d\n' % (k,sep,p))
                 else:
-                    f.write('%s%s%d%s\n' % (k,sep,p,self.part_names[p]))
+                    f.write('%s%s%d%s%s\n' % (k,sep,p,sep,self.part_names[p]))
 
 
                     
@@ -186,7 +186,7 @@ class TrainValEvalList(object):
         if len(fields[0]) == 2:
             part_names = None
         else:
-            part_names = np.asarray([f[2] for f in fields], dtype=int)
+            part_names = np.asarray([f[2] for f in fields])
             _, part_idx = np.unique(part, return_index=True)
             part_names = part_names[part_idx]
             
-- 
2.43.0


From f9193cc189b351c8d471f74a9afc0a7cf74cf907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 140/167] fix: SegmentList.load keeps ids as text

---
 hyperion/utils/segment_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index e2beef4..fc10e06 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -244,7 +244,9 @@ class SegmentList(object):
           SegmentList object.
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
-                         names=['segment_id','file_id','tbeg','tend'])
+                         names=['segment_id','file_id','tbeg','tend'],
+                         dtype={'segment_id': str, 'file_id': str},
+                         keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From 14b0a82543daf8dcfbfaa3318baed543ec5dfe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 141/167] fix: RTTM.load keeps the text fields as text

---
 hyperion/utils/rttm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index e769a6e..3eb5d40 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -296,7 +296,10 @@ class RTTM(object):
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
                          names=['segment_type','file_id','chnl','tbeg','tdur',
-                                'ortho','stype','name','conf','slat'])
+                                'ortho','stype','name','conf','slat'],
+                         dtype={'segment_type': str, 'file_id': str, 'ortho': str,
+                                'stype': str, 'name': str, 'slat': str},
+                         keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From ed408ac7cef47baf839f60faa2fde75081bd8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 142/167] fix: RTTM.create without durations

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3eb5d40..76ddb85 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -52,7 +52,7 @@ class RTTM(object):
         if tbeg is None:
             tbeg = nans
         if tdur is None:
-            tend = nans
+            tdur = nans
         if ortho is None:
             ortho = nans
         if stype is None:
-- 
2.43.0


From bbb6d258b8cd16bcfc6f2573e7a5166faba7d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 143/167] fix: ExtSegmentList.load keeps ids and names as text

---
 hyperion/utils/ext_segment_list.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 3be95dc..6580ac2 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -366,16 +366,23 @@ class ExtSegmentList(object):
           SegmentList object.
         """
         segments = pd.read_csv(file_path + '.segments', sep=sep, header=None,
-                               names=['segment_id','file_id','tbeg','tend', 'ext_segment_id'])
+                               names=['segment_id','file_id','tbeg','tend', 'ext_segment_id'],
+                               dtype={'segment_id': str, 'file_id': str, 'ext_segment_id': str},
+                               keep_default_na=False)
         if path.isfile(file_path + '.ext_segments'):
             ext_segments = pd.read_csv(file_path + '.ext_segments', sep=sep, header=None,
-                                       names=['ext_segment_id', 'name', 'score'], na_values='NA')
+                                       names=['ext_segment_id', 'name', 'score'],
+                                       dtype={'ext_segment_id': str, 'name': str},
+                                       na_values={'name': ['NA'], 'score': ['NA']},
+                                       keep_default_na=False)
         else:
             ext_segments = None
             
         if path.isfile(file_path + '.files'):
             files = pd.read_csv(file_path + '.files', sep=sep, header=None,
-                                names=['file_id', 'series_id'])
+                                names=['file_id', 'series_id'],
+                                dtype={'file_id': str, 'series_id': str},
+                                keep_default_na=False)
         else:
             files = None
             
-- 
2.43.0


From 3bfef05465ddf3ad80e110717eb0c64bd197d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 144/167] fix: Utt2Info.load keeps keys and labels such as NA

---
 hyperion/utils/utt2info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 4bd1adc..b9005f2 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -175,7 +175,8 @@ class Utt2Info(object):
         Returns:
           Utt2Info object
         """
-        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype)
+        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype,
+                         keep_default_na=False)
         df = df.rename(index=str, columns={0:'key'})
         return cls(df)
 
-- 
2.43.0


From 5a4fa1b69852f1718ecd437b4da157a3ceb89f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 145/167] fix: RTTM missing times survive saving and loading

---
 hyperion/utils/rttm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 76ddb85..4cf5395 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -279,7 +279,7 @@ class RTTM(object):
                        'tbeg','tdur','ortho', 'stype',
                        'name', 'conf', 'slat']].to_csv(
                            file_path, sep=sep, float_format='%.3f',
-                           index=False, header=False)
+                           index=False, header=False, na_rep='<NA>')
 
 
         
@@ -299,6 +299,7 @@ class RTTM(object):
                                 'ortho','stype','name','conf','slat'],
                          dtype={'segment_type': str, 'file_id': str, 'ortho': str,
                                 'stype': str, 'name': str, 'slat': str},
+                         na_values={'tbeg': ['<NA>'], 'tdur': ['<NA>']},
                          keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
-- 
2.43.0


From 9d86c20916b50af04a7f166d321b1f27c90dd0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:49 +0000
Subject: [PATCH 146/167] fix: the indexes of ExtSegmentList have no name, so
 that its tables can be joined

---
 hyperion/utils/ext_segment_list.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 6580ac2..ccd0083 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -146,19 +146,19 @@ class ExtSegmentList(object):
     def index_column(self, value):
 
         self._index_column = value
-        self.ext_segments.index = self.ext_segments.ext_segment_id
+        self.ext_segments.index = self.ext_segments.ext_segment_id.values
         if value == 'file_id':
-            self.segments.index = self.segments.file_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.file_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'segment_id':
-            self.segments.index = self.segments.segment_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.segment_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'ext_segment_id':
-            self.segments.index = self.segments.ext_segment_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.ext_segment_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'series_id':
-            self.segments.index = self.segments.file_id
-            self.files.index = self.files.series_id
+            self.segments.index = self.segments.file_id.values
+            self.files.index = self.files.series_id.values
 
 
             
-- 
2.43.0


From 7c86a74219f76f30e12e10f7a5e5536acc326123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:49 +0000
Subject: [PATCH 147/167] fix: ExtSegmentList.filter keeps one row of each file
 and extended segment

---
 hyperion/utils/ext_segment_list.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index ccd0083..ab5e007 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -404,12 +404,10 @@ class ExtSegmentList(object):
                 filter_key = np.setdiff1d(
                     np.asarray(self.segments.index), filter_key)
             segments = self.segments.loc[filter_key]
-            files = pd.merge(self.files, segments, on='file_id', how='inner')[
-                ['file_id', 'series_id']]
+            files = self.files.loc[self.files.file_id.isin(segments.file_id).values]
             
-        ext_segments = pd.merge(self.ext_segments, segments,
-                                on='ext_segment_id', how='inner')[
-                                    ['ext_segment_id','name','score']]
+        ext_segments = self.ext_segments.loc[
+            self.ext_segments.ext_segment_id.isin(segments.ext_segment_id).values]
 
         return ExtSegmentList(segments, ext_segments, files, self.index_column)
 
-- 
2.43.0


From 220afd3cc352a539c637be410a677724eb34fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:49 +0000
Subject: [PATCH 148/167] fix: membership in segment lists and RTTM

---
 hyperion/utils/ext_segment_list.py | 2 +-
 hyperion/utils/rttm.py             | 2 +-
 hyperion/utils/segment_list.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index ab5e007..af289d2 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -312,7 +312,7 @@ class ExtSegmentList(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.segment_id.values
 
 
     
diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 4cf5395..6ab0a5e 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -243,7 +243,7 @@ class RTTM(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.index
 
 
     
diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index fc10e06..5b1b8bd 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -146,7 +146,7 @@ class SegmentList(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.segment_id.values
 
 
     
-- 
2.43.0


From c465a7c1d1f00646c92c8c933dac6f89a051fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:49 +0000
Subject: [PATCH 149/167] fix: SegmentList item by index returns that file

---
 hyperion/utils/segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 5b1b8bd..ccd627f 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -184,7 +184,7 @@ class SegmentList(object):
         """
         if self.index_by_file:
             if index < len(self.uniq_file_id):
-                return self.getitem_by_key(self.uniq_file_id[self.iter_idx])
+                return self.getitem_by_key(self.uniq_file_id[index])
             else:
                 raise Exception('SegmentList error index>=num_files (%d,%d)' % (index,len(self.uniq_file_id)))
         else:
-- 
2.43.0


From a6ee4168f284f5e18015d5a7c28efe4974fff41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:49 +0000
Subject: [PATCH 150/167] fix: files with only one segment in segment lists and
 RTTM

---
 hyperion/utils/rttm.py         | 2 +-
 hyperion/utils/segment_list.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 6ab0a5e..86791c5 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -261,7 +261,7 @@ class RTTM(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return RTTM(df, index_by_file=False)
         else:
             return self.segments.iloc[key]
diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index ccd627f..bf02b94 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -163,7 +163,7 @@ class SegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return SegmentList(df, index_by_file=False)
         else:
             return self.segments.loc[key]
-- 
2.43.0


From 41530ea3ef746e2465680632b2693991d6aa415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:49 +0000
Subject: [PATCH 151/167] fix: RTTM split and index_by_file setter

---
 hyperion/utils/rttm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 86791c5..903581f 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -151,9 +151,9 @@ class RTTM(object):
     def index_by_file(self, value):
         self._index_by_file = value
         if self._index_by_file:
-            self.segments.index = self.segments.file_key
+            self.segments.index = self.segments.file_id
         else:
-            self.segments.index = self.segments.segment
+            self.segments.index = [i for i in xrange(len(self.segments))]
         
     
             
@@ -315,7 +315,10 @@ class RTTM(object):
 
     
     def split(self, idx, num_parts):
-        key, _ = split_list(self.index, idx, num_parts)
+        if self.index_by_file:
+            key, _ = split_list(self.unique_file_id, idx, num_parts)
+        else:
+            key, _ = split_list(self.segments.index, idx, num_parts)
         df = self.segments.loc[key]
         return RTTM(df, index_by_file=self.index_by_file)
 
-- 
2.43.0


From 7901a3e1a605a8cc882ac09e1fa2a5ddd7038b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:49 +0000
Subject: [PATCH 152/167] fix: length of a FoldList

---
 hyperion/utils/fold_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 7e46068..10e1ace 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -59,7 +59,7 @@ class FoldList(object):
     def __len__(self):
         """Returns number of folds.
         """
-        return self.num_folds()
+        return self.num_folds
 
 
     @property
-- 
2.43.0


From 28e4f8a064905c81be30bc416a702bd451574f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:49 +0000
Subject: [PATCH 153/167] fix: TrainValEvalList.get_part returns the keys of
 the part

---
 hyperion/utils/train_val_eval_list.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 51e5867..459d80a 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -127,12 +127,11 @@ class TrainValEvalList(object):
           part: Part number to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements of the part
         """
 
-        train_idx, test_idx = self.get_part_idx(part)
-        return self.key[train_idx], self.key[test_idx]
+        idx = self.get_part_idx(part)
+        return self.key[idx]
 
 
     
@@ -143,8 +142,7 @@ class TrainValEvalList(object):
           part: Part number to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements of the part
         """
 
         return self.get_part(part)
-- 
2.43.0


From f13a6e70fb892f790df12ad4152c59cf94eb2b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 154/167] fix: AHC.fit drops the flat clusters of the tree
 before

---
 hyperion/clustering/ahc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 5d7a165..4d6c644 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -30,6 +30,7 @@ class AHC(HypModel):
         
     def fit(self, x, mask=None):
 
+        self.flat_clusters = None
         if mask is not None:
             x = copy(x)
             x[mask==False] = -1e10
-- 
2.43.0


From c12d9e91ba47cfeabb1ffe126f8c353ab44b6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 155/167] fix: AHC.fit with a distance metric puts masked pairs
 far apart

---
 hyperion/clustering/ahc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 4d6c644..a5fe86c 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -33,7 +33,7 @@ class AHC(HypModel):
         self.flat_clusters = None
         if mask is not None:
             x = copy(x)
-            x[mask==False] = -1e10
+            x[mask==False] = -1e10 if self.metric in ('llr', 'prob') else 1e10
 
         idx = np.triu(np.ones_like(x, dtype=bool), k=1)
         scores = x[idx]
-- 
2.43.0


From 50945b7c1629490edc13bab4081d8fcb5e54dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 156/167] fix: SegmentList.to_bin_vad is as long as the latest
 end of the file

---
 hyperion/utils/segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index bf02b94..f4553ee 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -299,7 +299,7 @@ class SegmentList(object):
 
         if num_frames is None:
             if self.index_by_file:
-                num_frames=tend[-1]
+                num_frames=np.max(tend)
             else:
                 file_id = self.segments.loc[key]['file_id']
                 sel_idx = self.segments['file_id'] == file_id
-- 
2.43.0


From 470d5381bab59c0e9fef1a1d40102049626f12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 157/167] fix: RTTM.to_matrix writes every segment of the file
 and returns the matrix

---
 hyperion/utils/rttm.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 903581f..6f0b779 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -489,19 +489,18 @@ class RTTM(object):
 
     
     def to_matrix(self, file_id, frame_shift=0.001):
-        if self.index_by_file:
-            segments = self.segments[file_id]
-        else:
-            segments = self.segments[self.segments['file_id'] == file_id]
+        segments = self.segments[self.segments['file_id'] == file_id]
 
         u_names, name_ids = np.unique(segments['name'], return_inverse=True)
-        tbeg = np.round(segments['tbeg']/frame_shift).astype(dtype=int)
-        tend = np.round((segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
+        tbeg = np.round(segments['tbeg'].values/frame_shift).astype(dtype=int)
+        tend = np.round((segments['tbeg']+segments['tdur']).values/frame_shift).astype(dtype=int)
 
-        M = np.zeros((tend[-1], len(u_names)), dtype=int)
-        for i in xrange(len(u_names)):
+        M = np.zeros((np.max(tend), len(u_names)), dtype=int)
+        for i in xrange(len(segments)):
             M[tbeg[i]:tend[i], name_ids[i]] = 1
 
+        return M
+
 
             
     def compute_stats(self, nbins_dur=None):
-- 
2.43.0


From 508d2cd8c134761f0c8ff7793300fa28c1af2aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 158/167] fix: RTTM.merge_adjacent_segments keeps the span of
 nested segments

---
 hyperion/utils/rttm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 6f0b779..70ff1c1 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -349,7 +349,8 @@ class RTTM(object):
         for i in xrange(len(self.segments)-1, 0, -1):
             if index.iloc[i]:
                 tbeg = segm.iloc[i-1].tbeg
-                tend = segm.iloc[i].tbeg + segm.iloc[i].tdur
+                tend = max(segm.iloc[i-1].tbeg + segm.iloc[i-1].tdur,
+                           segm.iloc[i].tbeg + segm.iloc[i].tdur)
                 self.segments.iloc[i-1, self.segments.columns.get_loc('tdur')] = tend - tbeg
                 self.segments.iloc[i, self.segments.columns.get_loc('segment_type')] = 'DROP'
         #logging.debug(self.segments[ix])
-- 
2.43.0


From 1a90d8b9ab439a3fd93cbaa053b6b45eb101277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 159/167] fix: RTTM.compute_stats default number of bins

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 70ff1c1..d5dc055 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -517,7 +517,7 @@ class RTTM(object):
                              index=['mean','std','median','model','min','max'])
 
         if nbins_dur is None:
-            nbins_dur = np.max(5, np.min(100, len(self.segments)/10))
+            nbins_dur = max(5, min(100, len(self.segments)//10))
         hist_dur = np.histogram(self.segments['tdur'], nbins_dur)
 
         
-- 
2.43.0


From 7a723d04c3d974b1af0021cfcf23b9ad9bbd2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 160/167] fix: RTTM.eliminate_overlaps gives durations to both
 segments of an overlap

---
 hyperion/utils/rttm.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index d5dc055..e466ead 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -467,24 +467,17 @@ class RTTM(object):
     def eliminate_overlaps(self):
         segm = self.segments
         segm_1 = self.segments.shift(1)
-        tend_1 = segm_1.tbeg + segm_1.tdur
-        tbeg = segm.tbeg
-        tend = segm.tbeg + segm.tdur
-        tavg = (tbeg + tend_1)/2
-        index = ((segm.file_id == segm_1.file_id) &
-                 (segm.segment_type == segm_1.segment_type) &
+        tend_1 = (segm_1.tbeg + segm_1.tdur).values
+        tbeg = np.array(segm.tbeg, dtype=float)
+        tend = np.array(segm.tbeg + segm.tdur, dtype=float)
+        tavg = (tbeg + np.minimum(tend, tend_1))/2
+        index = ((segm.file_id == segm_1.file_id).values &
+                 (segm.segment_type == segm_1.segment_type).values &
                  (tbeg < tend_1))
-        # logging.debug(index)
-        # logging.debug(self.segments.loc[index])
-        # logging.debug(self.segments.loc[index])
-        self.segments.loc[index, 'tbeg'] = tavg[index]
-        # logging.debug(self.segments.loc[index])
-        index_1 = index.shift(-1)
-        index_1[index_1.isnull()] = False
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index_1, 'tdur'] = tavg[index] - tbeg[index_1]
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index, 'tdur'] = tend[index] - tavg[index]
+        tbeg[index] = tavg[index]
+        tend[np.nonzero(index)[0]-1] = tavg[index]
+        self.segments['tbeg'] = tbeg
+        self.segments['tdur'] = tend - tbeg
 
 
 
-- 
2.43.0


From f14911f8f990848e3b8a3fd2a1e810e81de3d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:33 +0000
Subject: [PATCH 161/167] fix: segments and rttm to VAD scripts work without
 the numbers of frames

---
 hyperion/bin/rttm-to-bin-vad.py     | 4 ++--
 hyperion/bin/segments-to-bin-vad.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index d3191c6..0d7eb03 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -41,10 +41,10 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
-        if part_idx == 1:
+        if part_idx == 1 and num_frames_file is not None:
             for file_id in utt2num_frames.index:
                 if not(file_id in segments_orig.uniq_file_id):
                     logging.warning('not speeech detected in %s, putting all to 1' % (file_id))
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 73e89d5..47a7d23 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -39,7 +39,7 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
             
-- 
2.43.0


From fed464f0e387c4f7363d4d1cd6c02acfe941f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:33 +0000
Subject: [PATCH 162/167] fix: scores2lre_format with --add-ext and no test
 list

---
 hyperion/bin/scores2lre_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/scores2lre_format.py b/hyperion/bin/scores2lre_format.py
index 386afde..73cf392 100755
--- a/hyperion/bin/scores2lre_format.py
+++ b/hyperion/bin/scores2lre_format.py
@@ -44,7 +44,7 @@ def convert(input_file, output_file, test_list, class_file, add_ext):
     ndx = TrialNdx(model_set, seg_set)
     scores = scores.set_missing_to_value(ndx, -100)
 
-    if add_ext:
+    if add_ext and test_list is not None:
         scores.seg_set = [seg+ext for seg, ext in zip(scores.seg_set, exts)]
             
     with open(output_file, 'w') as f:
-- 
2.43.0


From 9321b74119d6e7b513ca39995b74eb42647687b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:56 +0000
Subject: [PATCH 163/167] fix: PLDABase.fit_adapt without prior data

---
 hyperion/pdfs/plda/plda_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index fb29827..e9fe778 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -199,7 +199,8 @@ class PLDABase(PDF):
         for epoch in xrange(epochs):
             
             stats = self.Estep(D)
-            stats0 = self.Estep(D0)
+            if x0 is not None:
+                stats0 = self.Estep(D0)
             elbo[epoch]=self.elbo(stats)
             if x_val is not None:
                 stats_val=self.Estep(D_val)
-- 
2.43.0


From a181cba18c10e574649e06ab18c00c8e442d1e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:07 +0000
Subject: [PATCH 164/167] fix: ExtSegmentList[segment id] returns the row of
 the segment

---
 hyperion/utils/ext_segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index af289d2..6eaeb98 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -330,7 +330,7 @@ class ExtSegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_column == 'segment_id':
-            return pd.merge(self.segments.loc[key], self.ext_segments,
+            return pd.merge(self.segments.loc[[key]], self.ext_segments,
                             sort=False, how='inner')
         else:
             return self.filter([key])
-- 
2.43.0


From 71c6ce5f86875ebd3eb3d5058f1d54bc2be576e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:07 +0000
Subject: [PATCH 165/167] fix: ExtSegmentList.create lists each extended
 segment once

---
 hyperion/utils/ext_segment_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 6eaeb98..4ecd4d2 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -78,7 +78,8 @@ class ExtSegmentList(object):
             series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
-        if isinstance(name, string_types):
+        if isinstance(name, string_types) or (
+                np.isscalar(name) and (np.isscalar(score) or isinstance(score, dict))):
             ext_segment_id = segments['ext_segment_id'].unique()
         elif isinstance(name, dict):
             ext_segment_id = [k for k,v in name.items()]
-- 
2.43.0


From eb2fafa2050831f410022c13a153bd15a3f53540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:07 +0000
Subject: [PATCH 166/167] fix: Utt2Info.info with several fields returns the
 fields of all rows

---
 hyperion/utils/utt2info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index b9005f2..36d69ed 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -70,7 +70,7 @@ class Utt2Info(object):
     @property
     def info(self):
         if self.utt_info.shape[1] > 2:
-            return np.asarray(self.utt_info[1:])
+            return np.asarray(self.utt_info.iloc[:, 1:])
         else:
             return np.asarray(self.utt_info[1])
 
-- 
2.43.0


From 47de99b256b0673163d7352325bcf2f0bfb0e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:55 +0000
Subject: [PATCH 167/167] fix: opt_loglr puts the ratios back in order without
 overwriting those still to be moved

---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 9408dd7..7174f01 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -152,7 +152,7 @@ def opt_loglr(tar, non, method='laplace'):
     sorted_scores = scores[sort_idx]
     llr += 1e-6 * np.searchsorted(sorted_scores, sorted_scores)/n
 
-    llr[sort_idx] = llr
+    llr[sort_idx] = llr.copy()
     tar_llr = llr[:ntar]
     non_llr = llr[ntar:]
     
-- 
2.43.0

