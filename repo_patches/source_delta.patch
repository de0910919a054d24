From 1ae9e8a5f4d9b780eabb272af59d427bc3b74460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 01/37] fix: PQ/LPQ start every repetition and refit from the
 data-based start value

---
 doubleml/irm/lpq.py | 3 +++
 doubleml/irm/pq.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 56a9796..daf915e 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -278,6 +278,9 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
     def _nuisance_est(self, smpls, n_jobs_cv, external_predictions, return_models=False):
         x, y = check_X_y(self._dml_data.x, self._dml_data.y, force_all_finite=False)
         x, d = check_X_y(x, self._dml_data.d, force_all_finite=False)
+
+        # always start from the data, not from the preliminary estimate of a previous repetition or fit
+        self._coef_start_val = np.quantile(y[d == self.treatment], self.quantile)
         x, z = check_X_y(x, np.ravel(self._dml_data.z), force_all_finite=False)
 
         m_z = external_predictions["ml_m_z"] is not None
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 4cdcd74..22e2e85 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -255,6 +255,9 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         x, y = check_X_y(self._dml_data.x, self._dml_data.y, force_all_finite=False)
         x, d = check_X_y(x, self._dml_data.d, force_all_finite=False)
 
+        # always start from the data, not from the preliminary estimate of a previous repetition or fit
+        self._coef_start_val = np.quantile(y[d == self.treatment], self.quantile)
+
         g_external = external_predictions["ml_g"] is not None
         m_external = external_predictions["ml_m"] is not None
 
-- 
2.43.0


From 67716470134ed2a1384f03bda3c51c7f70fd9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 02/37] fix: a refit starts from new result arrays instead of
 overwriting the previous results

---
 doubleml/double_ml.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1b88c8e..1112727 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -997,7 +997,29 @@ class DoubleML(ABC):
         elif not self._external_predictions_implemented and external_predictions is not None:
             raise NotImplementedError(f"External predictions not implemented for {self.__class__.__name__}.")
 
+    def _reset_fit_results(self):
+        # allocate new result arrays, such that no result of a previous fit is kept (or modified in place)
+        self._framework = None
+        (
+            self._psi,
+            self._psi_deriv,
+            self._psi_elements,
+            self._var_scaling_factors,
+            self._coef,
+            self._se,
+            self._all_coef,
+            self._all_se,
+        ) = self._initialize_arrays()
+        self._predictions = None
+        self._nuisance_targets = None
+        self._nuisance_loss = None
+        self._models = None
+        self._sensitivity_elements = None
+
     def _initalize_fit(self, store_predictions, store_models):
+        # drop all results of a previous fit
+        self._reset_fit_results()
+
         # initialize loss arrays for nuisance functions evaluation
         self._initialize_nuisance_loss()
 
-- 
2.43.0


From d8999fb40cc07cdfdf5f5c4d85d42f3495c9ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 03/37] fix: set_sample_splitting drops the results of a fit on
 the previous sample splitting

---
 doubleml/double_ml.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1112727..2b67fe1 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1317,16 +1317,7 @@ class DoubleML(ABC):
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
-        (
-            self._psi,
-            self._psi_deriv,
-            self._psi_elements,
-            self._var_scaling_factors,
-            self._coef,
-            self._se,
-            self._all_coef,
-            self._all_se,
-        ) = self._initialize_arrays()
+        self._reset_fit_results()
         self._initialize_ml_nuisance_params()
 
         return self
-- 
2.43.0


From 29c5f05103845ee30eb124ab80ac74bc9d71c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 04/37] fix: set_sample_splitting updates the number of folds
 per cluster

---
 doubleml/double_ml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 2b67fe1..4743cbf 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1317,6 +1317,10 @@ class DoubleML(ABC):
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
+        if self._is_cluster_data:
+            # total number of folds is n_folds_per_cluster ** n_cluster_vars
+            self._n_folds_per_cluster = int(round(self._n_folds ** (1 / self._dml_data.n_cluster_vars)))
+
         self._reset_fit_results()
         self._initialize_ml_nuisance_params()
 
-- 
2.43.0


From d66f14eb383d78a0fbefab67c2451f8a3791ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 05/37] fix: DoubleMLAPOS accepts external predictions for a
 subset of the treatment levels

---
 doubleml/irm/apos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index e9b160c..eae7a86 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -860,7 +860,7 @@ class DoubleMLAPOS:
     def _rename_external_predictions(self, external_predictions):
         d_col = self._dml_data.d_cols[0]
         ext_pred_dict = {treatment_level: {d_col: {}} for treatment_level in self.treatment_levels}
-        for treatment_level in self.treatment_levels:
+        for treatment_level in external_predictions.keys():
             if "ml_g_d_lvl1" in external_predictions[treatment_level]:
                 ext_pred_dict[treatment_level][d_col]["ml_g_d_lvl1"] = external_predictions[treatment_level]["ml_g_d_lvl1"]
             if "ml_m" in external_predictions[treatment_level]:
-- 
2.43.0


From 94b9b78d06831b9fb6094012c81e0b37a86bbb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 06/37] fix: DoubleMLAPOS.draw_sample_splitting passes the new
 sample splitting on to its models

---
 doubleml/irm/apos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index eae7a86..f2f5c37 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -640,6 +640,8 @@ class DoubleMLAPOS:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # initialize all models
+        self._modellist = self._initialize_models()
 
         return self
 
-- 
2.43.0


From 4364d7c0d97150d3feb83837640be4210be92131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 07/37] fix: DoubleMLQTE and DoubleMLAPOS do not report
 outdated results after a failed refit or a new sample splitting

---
 doubleml/irm/apos.py | 7 +++++++
 doubleml/irm/qte.py  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index f2f5c37..4a51b05 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -389,6 +389,9 @@ class DoubleMLAPOS:
         else:
             ext_pred_dict = None
 
+        # drop the results of a previous fit
+        self._framework = None
+
         # parallel estimation of the models
         parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs")
         fitted_models = parallel(
@@ -642,6 +645,8 @@ class DoubleMLAPOS:
         self._smpls = obj_dml_resampling.split_samples()
         # initialize all models
         self._modellist = self._initialize_models()
+        # the results belong to the previous sample splitting
+        self._framework = None
 
         return self
 
@@ -700,6 +705,8 @@ class DoubleMLAPOS:
         )
 
         self._modellist = self._initialize_models()
+        # the results belong to the previous sample splitting
+        self._framework = None
 
         return self
 
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index f05269a..260e8b9 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -396,6 +396,9 @@ class DoubleMLQTE:
         if external_predictions is not None:
             raise NotImplementedError(f"External predictions not implemented for {self.__class__.__name__}.")
 
+        # drop the results of a previous fit
+        self._framework = None
+
         # parallel estimation of the quantiles
         parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs")
         fitted_models = parallel(
@@ -459,6 +462,8 @@ class DoubleMLQTE:
         self._smpls = obj_dml_resampling.split_samples()
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
+        # the results belong to the previous sample splitting
+        self._framework = None
 
         return self
 
@@ -526,6 +531,8 @@ class DoubleMLQTE:
 
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
+        # the results belong to the previous sample splitting
+        self._framework = None
 
         return self
 
-- 
2.43.0


From fe3cb3249903dc470a7888bb234174c4c3bb9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 08/37] fix: models fitted in worker processes keep sharing the
 data object

---
 doubleml/irm/apos.py | 2 ++
 doubleml/irm/qte.py  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 4a51b05..0863649 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -404,6 +404,8 @@ class DoubleMLAPOS:
 
         for i_level in range(self.n_treatment_levels):
             self._modellist[i_level] = fitted_models[i_level]
+            # models fitted in worker processes are copies, which hold their own copy of the data
+            self._modellist[i_level]._dml_data = self._dml_data
             framework_list[i_level] = self._modellist[i_level].framework
 
         # aggregate all frameworks
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index 260e8b9..2ff667c 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -413,6 +413,9 @@ class DoubleMLQTE:
             # save the parallel fitted models in the right list
             self._modellist_0[i_quant] = fitted_models[i_quant][0]
             self._modellist_1[i_quant] = fitted_models[i_quant][1]
+            # models fitted in worker processes are copies, which hold their own copy of the data
+            self._modellist_0[i_quant]._dml_data = self._dml_data
+            self._modellist_1[i_quant]._dml_data = self._dml_data
 
             # set up the framework
             framework_list[i_quant] = self._modellist_1[i_quant].framework - self._modellist_0[i_quant].framework
-- 
2.43.0


From b3204d5b049bb44489f9b6ed18a7bd2205e823d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 09/37] fix: tune on folds returns the tuning results of every
 treatment and repetition

---
 doubleml/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 4743cbf..50951cf 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -807,7 +807,7 @@ class DoubleML(ABC):
             raise TypeError(f"return_tune_res must be True or False. Got {str(return_tune_res)}.")
 
         if tune_on_folds:
-            tuning_res = [[None] * self.n_rep] * self._dml_data.n_treat
+            tuning_res = [[None] * self.n_rep for _ in range(self._dml_data.n_treat)]
         else:
             tuning_res = [None] * self._dml_data.n_treat
 
@@ -833,7 +833,7 @@ class DoubleML(ABC):
                         n_iter_randomized_search,
                     )
 
-                    tuning_res[i_rep][i_d] = res
+                    tuning_res[i_d][i_rep] = res
                     nuisance_params.append(res["params"])
 
                 if set_as_params:
-- 
2.43.0


From 14804e7e30d74d50c253b882fcb9f8ce918305f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 10/37] fix: tune does not modify the passed scoring_methods

---
 doubleml/double_ml.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 50951cf..8da9141 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -763,9 +763,7 @@ class DoubleML(ABC):
                 )
             if not all(k in scoring_methods for k in self.learner_names):
                 # if there are learners for which no scoring_method was set, we fall back to None, i.e., default scoring
-                for learner in self.learner_names:
-                    if learner not in scoring_methods:
-                        scoring_methods[learner] = None
+                scoring_methods = {learner: scoring_methods.get(learner) for learner in self.learner_names}
 
         if not isinstance(tune_on_folds, bool):
             raise TypeError(f"tune_on_folds must be True or False. Got {str(tune_on_folds)}.")
-- 
2.43.0


From dbab48e8f65f1ddadf9bc6afecbeabc0e46000d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 11/37] fix: an interrupted bootstrap keeps the previous
 bootstrap results

---
 doubleml/double_ml_framework.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6078602..927846e 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -698,15 +698,16 @@ class DoubleMLFramework:
         if self._is_cluster_data:
             raise NotImplementedError("bootstrap not yet implemented with clustering.")
 
-        self._n_rep_boot = n_rep_boot
-        self._boot_method = method
         # initialize bootstrap distribution array
-        self._boot_t_stat = np.full((n_rep_boot, self.n_thetas, self._n_rep), np.nan)
+        boot_t_stat = np.full((n_rep_boot, self.n_thetas, self._n_rep), np.nan)
         var_scaling = self._var_scaling_factors.reshape(-1, 1) * self._all_ses
         for i_rep in range(self.n_rep):
             weights = _draw_weights(method, n_rep_boot, self._n_obs)
             bootstraped_scaled_psi = np.matmul(weights, np.divide(self._scaled_psi[:, :, i_rep], var_scaling[:, i_rep]))
-            self._boot_t_stat[:, :, i_rep] = bootstraped_scaled_psi
+            boot_t_stat[:, :, i_rep] = bootstraped_scaled_psi
+
+        # only set after all repetitions are finished
+        self._n_rep_boot, self._boot_method, self._boot_t_stat = n_rep_boot, method, boot_t_stat
 
         return self
 
-- 
2.43.0


From 8b3008ff1ce272589018635e9ff3ac32ab65710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 12/37] fix: RDFlex does not truncate the predictions for
 outcomes or treatments of integer type

---
 doubleml/rdd/rdd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 858ae5e..4943a18 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -425,7 +425,8 @@ class RDFlex:
         ZX_left = np.column_stack((Z_left, X))
         ZX_right = np.column_stack((Z_right, X))
 
-        mu_left, mu_right = np.full_like(outcome, fill_value=np.nan), np.full_like(outcome, fill_value=np.nan)
+        mu_left = np.full_like(outcome, fill_value=np.nan, dtype="float64")
+        mu_right = np.full_like(outcome, fill_value=np.nan, dtype="float64")
 
         for train_index, test_index in smpls:
             estimator = clone(self._learner[estimator_name])
-- 
2.43.0


From 69d000951496ff80d90066362b6fb01e28d1cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 13/37] fix: RDFlex does not mix the results of an interrupted
 refit with the previous results

---
 doubleml/rdd/rdd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 4943a18..5520e0b 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -162,7 +162,7 @@ class RDFlex:
         self._i_rep = None
 
     def __str__(self):
-        if np.any(~np.isnan(self._M_Y[:, 0])):
+        if self.coef is not None:
             method_names = ["Conventional", "Robust"]
             lines = [
                 "Method             Coef.     S.E.     t-stat       P>|t|           95% CI",
@@ -331,6 +331,10 @@ class RDFlex:
 
         self._check_iterations(n_iterations)
 
+        # drop all results of a previous fit
+        self._M_Y, self._M_D, self._h, self._rdd_obj, self._all_coef, self._all_se, self._all_ci = self._initialize_arrays()
+        self._coef, self._se, self._ci, self._N_h, self._final_h = None, None, None, None, None
+
         # set variables for readablitity
         Y = self._dml_data.y
         D = self._dml_data.d
-- 
2.43.0


From 34134c2d04f05e13648b995e5a3b68b583c8f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 14/37] fix: tuning of ml_g in PLR and PLIV does not truncate
 the predictions for data of integer type

---
 doubleml/plm/pliv.py | 6 +++---
 doubleml/plm/plr.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index dc0fbd2..d5b43c2 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -594,9 +594,9 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
             # an ML model for g is obtained for the IV-type score and callable scores
             if "ml_g" in self._learner:
                 # construct an initial theta estimate from the tuned models using the partialling out score
-                l_hat = np.full_like(y, np.nan)
-                m_hat = np.full_like(z, np.nan)
-                r_hat = np.full_like(d, np.nan)
+                l_hat = np.full_like(y, np.nan, dtype="float64")
+                m_hat = np.full_like(z, np.nan, dtype="float64")
+                r_hat = np.full_like(d, np.nan, dtype="float64")
                 for idx, (train_index, _) in enumerate(smpls):
                     l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                     m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 1b45d86..a36f970 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -324,8 +324,8 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
         # an ML model for g is obtained for the IV-type score and callable scores
         if "ml_g" in self._learner:
             # construct an initial theta estimate from the tuned models using the partialling out score
-            l_hat = np.full_like(y, np.nan)
-            m_hat = np.full_like(d, np.nan)
+            l_hat = np.full_like(y, np.nan, dtype="float64")
+            m_hat = np.full_like(d, np.nan, dtype="float64")
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                 m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
-- 
2.43.0


From be4008db7c1e67fcbee796fcd5b9fbb56a6e56d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 15/37] fix: PQ uses the external propensity predictions of the
 observations in the preliminary sample

---
 doubleml/irm/pq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 22e2e85..342be7d 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -327,7 +327,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
                 else:
-                    m_hat_prelim = m_hat["preds"][np.concatenate([test for _, test in smpls_prelim])]
+                    m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
                     m_hat_prelim = _normalize_ipw(m_hat_prelim, d_train_1)
-- 
2.43.0


From 17af3142cd85c3d3e1f098bdaf49ff680546f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 16/37] fix: PQ with external predictions can be fitted with
 store_models=True

---
 doubleml/irm/pq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 342be7d..8056315 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -369,8 +369,8 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         g_hat["targets"] = _cond_targets(g_hat["targets"], cond_sample=(d == self.treatment))
 
         if return_models:
-            g_hat["models"] = fitted_models["ml_g"]
-            m_hat["models"] = fitted_models["ml_m"]
+            g_hat["models"] = fitted_models.get("ml_g")
+            m_hat["models"] = fitted_models.get("ml_m")
 
         # clip propensities and normalize ipw weights
         m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
-- 
2.43.0


From 2aea8c752b78b01295fbef985a02033adec229ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 17/37] fix: multiplying a framework by a negative number does
 not give negative standard errors

---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 927846e..9cb225b 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -398,8 +398,8 @@ class DoubleMLFramework:
             all_thetas = np.multiply(other, self._all_thetas)
 
             var_scaling_factors = self._var_scaling_factors
-            ses = np.multiply(other, self._ses)
-            all_ses = np.multiply(other, self._all_ses)
+            ses = np.multiply(abs(other), self._ses)
+            all_ses = np.multiply(abs(other), self._all_ses)
             scaled_psi = np.multiply(other, self._scaled_psi)
 
             doubleml_dict = {
-- 
2.43.0


From cde3036f80d9d75a8536ef2a75de88caf7d23b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 18/37] fix: sums and differences of frameworks of clustered
 data have cluster-robust standard errors

---
 doubleml/double_ml_framework.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 9cb225b..f23535a 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -308,8 +308,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._est_all_ses(scaled_psi, var_scaling_factors)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -356,8 +355,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._est_all_ses(scaled_psi, var_scaling_factors)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -440,6 +438,25 @@ class DoubleMLFramework:
     def __rmul__(self, other):
         return self.__mul__(other)
 
+    def _est_all_ses(self, scaled_psi, var_scaling_factors):
+        if not self._is_cluster_data:
+            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
+        else:
+            sigma2_hat = np.full((self._n_thetas, self._n_rep), np.nan)
+            for i_rep in range(self._n_rep):
+                for i_theta in range(self._n_thetas):
+                    psi = scaled_psi[:, i_theta, i_rep]
+                    sigma2_hat[i_theta, i_rep], _ = _var_est(
+                        psi=psi,
+                        psi_deriv=np.ones_like(psi),
+                        smpls=self._cluster_dict["smpls"][i_rep],
+                        is_cluster_data=True,
+                        cluster_vars=self._cluster_dict["cluster_vars"],
+                        smpls_cluster=self._cluster_dict["smpls_cluster"][i_rep],
+                        n_folds_per_cluster=self._cluster_dict["n_folds_per_cluster"],
+                    )
+        return np.sqrt(sigma2_hat)
+
     def _calc_sensitivity_analysis(self, cf_y, cf_d, rho, level):
         if not self._sensitivity_implemented:
             raise NotImplementedError("Sensitivity analysis is not implemented for this model.")
-- 
2.43.0


From 77fa6db90ae43691cf01cba125063c54261f0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 19/37] fix: LPQ with external predictions can be fitted with
 store_models=True

---
 doubleml/irm/lpq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index daf915e..c3f2923 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -496,7 +496,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         m_d_z0_hat["targets"] = _cond_targets(d, cond_sample=(z == 0))
         m_d_z1_hat["targets"] = _cond_targets(d, cond_sample=(z == 1))
 
-        if return_models:
+        if return_models and not all(ext_preds):
             m_z_hat["models"] = fitted_models["ml_m_z"]
             m_d_z0_hat["models"] = fitted_models["ml_m_d_z0"]
             m_d_z1_hat["models"] = fitted_models["ml_m_d_z1"]
-- 
2.43.0


From a7318dbc81a228a10a8cf6df1d33426f3afe2325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 20/37] fix: QTE and APOS models accept a sample splitting
 without cross-fitting

---
 doubleml/irm/apos.py | 4 ++--
 doubleml/irm/qte.py  | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 0863649..4bc3f35 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -909,8 +909,8 @@ class DoubleMLAPOS:
             # initialize models for all levels
             model = DoubleMLAPO(treatment_level=self._treatment_levels[i_level], **kwargs)
 
-            # synchronize the sample splitting
-            model.set_sample_splitting(all_smpls=self.smpls)
+            # synchronize the sample splitting (no sample splitting is only a valid input without repetitions)
+            model.set_sample_splitting(all_smpls=self.smpls if self.n_folds > 1 else self.smpls[0])
             modellist[i_level] = model
 
         return modellist
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index 2ff667c..6e6c13f 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -641,9 +641,10 @@ class DoubleMLQTE:
                 model_0 = DoubleMLCVAR(quantile=self._quantiles[i_quant], treatment=0, **kwargs)
                 model_1 = DoubleMLCVAR(quantile=self._quantiles[i_quant], treatment=1, **kwargs)
 
-            # synchronize the sample splitting
-            model_0.set_sample_splitting(all_smpls=self.smpls)
-            model_1.set_sample_splitting(all_smpls=self.smpls)
+            # synchronize the sample splitting (no sample splitting is only a valid input without repetitions)
+            all_smpls = self.smpls if self.n_folds > 1 else self.smpls[0]
+            model_0.set_sample_splitting(all_smpls=all_smpls)
+            model_1.set_sample_splitting(all_smpls=all_smpls)
 
             modellist_0[i_quant] = model_0
             modellist_1[i_quant] = model_1
-- 
2.43.0


From ef3857dc4546f2fad61d5d14e456b43f572900af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 21/37] fix: external predictions for only some of the
 treatments are accepted

---
 doubleml/utils/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 25e6262..8309182 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -333,7 +333,7 @@ def _set_external_predictions(external_predictions, learners, treatment, i_rep):
     for learner in learners:
         if external_predictions is None:
             ext_prediction_dict[learner] = None
-        elif learner in external_predictions[treatment].keys():
+        elif learner in external_predictions.get(treatment, {}).keys():
             if isinstance(external_predictions[treatment][learner], np.ndarray):
                 ext_prediction_dict[learner] = external_predictions[treatment][learner][:, i_rep]
             else:
-- 
2.43.0


From 11b041012e452b7abacf013ddc58535a59b39bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 22/37] fix: a refused change of a column role leaves the data
 object as it was

---
 doubleml/double_ml_data.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 3ebf2f7..130cf29 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -1,3 +1,4 @@
+import functools
 import io
 from abc import ABC, abstractmethod
 
@@ -11,6 +12,21 @@ from .utils._checks import _check_set
 from .utils._estimation import _assure_2d_array
 
 
+def _restore_if_refused(setter):
+    """A change of a column role which is refused leaves the data object as it was before."""
+
+    @functools.wraps(setter)
+    def wrapper(self, value):
+        previous = self.__dict__.copy()
+        try:
+            setter(self, value)
+        except BaseException:
+            self.__dict__ = previous
+            raise
+
+    return wrapper
+
+
 class DoubleMLBaseData(ABC):
     """Base Class Double machine learning data-backends"""
 
@@ -415,6 +431,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._x_cols
 
     @x_cols.setter
+    @_restore_if_refused
     def x_cols(self, value):
         reset_value = hasattr(self, "_x_cols")
         if value is not None:
@@ -452,6 +469,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._d_cols
 
     @d_cols.setter
+    @_restore_if_refused
     def d_cols(self, value):
         reset_value = hasattr(self, "_d_cols")
         if isinstance(value, str):
@@ -479,6 +497,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._y_col
 
     @y_col.setter
+    @_restore_if_refused
     def y_col(self, value):
         reset_value = hasattr(self, "_y_col")
         if not isinstance(value, str):
@@ -500,6 +519,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._z_cols
 
     @z_cols.setter
+    @_restore_if_refused
     def z_cols(self, value):
         reset_value = hasattr(self, "_z_cols")
         if value is not None:
@@ -531,6 +551,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._t_col
 
     @t_col.setter
+    @_restore_if_refused
     def t_col(self, value):
         reset_value = hasattr(self, "_t_col")
         if value is not None:
@@ -556,6 +577,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._s_col
 
     @s_col.setter
+    @_restore_if_refused
     def s_col(self, value):
         reset_value = hasattr(self, "_s_col")
         if value is not None:
@@ -581,6 +603,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._use_other_treat_as_covariate
 
     @use_other_treat_as_covariate.setter
+    @_restore_if_refused
     def use_other_treat_as_covariate(self, value):
         reset_value = hasattr(self, "_use_other_treat_as_covariate")
         if not isinstance(value, bool):
@@ -971,6 +994,7 @@ class DoubleMLClusterData(DoubleMLData):
         return self._cluster_cols
 
     @cluster_cols.setter
+    @_restore_if_refused
     def cluster_cols(self, value):
         reset_value = hasattr(self, "_cluster_cols")
         if isinstance(value, str):
@@ -1004,6 +1028,7 @@ class DoubleMLClusterData(DoubleMLData):
         return self._cluster_vars.values
 
     @DoubleMLData.x_cols.setter
+    @_restore_if_refused
     def x_cols(self, value):
         if value is not None:
             # this call might become much easier with https://github.com/python/cpython/pull/26194
-- 
2.43.0


From 4b015c104c93fc8d7be8bf9149fb0f50a7b0de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 23/37] fix: binary_treats and binary_outcome follow changes of
 d_cols and y_col

---
 doubleml/double_ml_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 130cf29..fd08669 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -486,6 +486,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._d_cols = value
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_treats = self._check_binary_treats()
             # by default, we initialize to the first treatment variable
             self.set_x_d(self.d_cols[0])
 
@@ -509,6 +510,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._y_col = value
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_outcome = self._check_binary_outcome()
             self._set_y_z_t_s()
 
     @property
-- 
2.43.0


From 1c4403935d2c7ec593ce253508b4977a3d8b5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 24/37] fix: all folds and repetitions of a cluster sample
 splitting are checked

---
 doubleml/utils/_checks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 90833de..49491d5 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -429,10 +429,11 @@ def _check_cluster_sample_splitting(all_smpls_cluster, dml_data, n_rep, n_folds)
         for i_cluster in range(dml_data.n_cluster_vars):
             this_cluster_var = dml_data.cluster_vars[:, i_cluster]
             clusters = np.unique(this_cluster_var)
-            cluster_partition = [all_smpls_cluster[0][0][0][i_cluster], all_smpls_cluster[0][0][1][i_cluster]]
-            is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
-            if not is_cluster_partition:
-                raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
+            for train_clusters, test_clusters in all_smpls_cluster[i_rep]:
+                cluster_partition = [train_clusters[i_cluster], test_clusters[i_cluster]]
+                is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
+                if not is_cluster_partition:
+                    raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
 
     smpls_cluster = all_smpls_cluster
     return smpls_cluster
-- 
2.43.0


From 19558e4196ead5534c315419f3bdf97ec0262db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 25/37] fix: summary, confint and p_adjust label coefficients
 with the treatments they were estimated for

A later change of the treatment columns of the (possibly shared) data object relabelled or broke the
summary of models that had been fitted before.
---
 doubleml/double_ml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 8da9141..b576c32 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -441,7 +441,7 @@ class DoubleML(ABC):
             df_summary = pd.DataFrame(columns=col_names)
         else:
             summary_stats = np.transpose(np.vstack([self.coef, self.se, self.t_stat, self.pval]))
-            df_summary = pd.DataFrame(summary_stats, columns=col_names, index=self._dml_data.d_cols)
+            df_summary = pd.DataFrame(summary_stats, columns=col_names, index=self.framework.treatment_names)
             ci = self.confint()
             df_summary = df_summary.join(ci)
         return df_summary
@@ -645,7 +645,7 @@ class DoubleML(ABC):
             raise ValueError("Apply fit() before confint().")
 
         df_ci = self.framework.confint(joint=joint, level=level)
-        df_ci.set_index(pd.Index(self._dml_data.d_cols), inplace=True)
+        df_ci.set_index(pd.Index(self.framework.treatment_names), inplace=True)
 
         return df_ci
 
@@ -671,7 +671,7 @@ class DoubleML(ABC):
             raise ValueError("Apply fit() before p_adjust().")
 
         p_val, _ = self.framework.p_adjust(method=method)
-        p_val.set_index(pd.Index(self._dml_data.d_cols), inplace=True)
+        p_val.set_index(pd.Index(self.framework.treatment_names), inplace=True)
 
         return p_val
 
-- 
2.43.0


From ecd4c6e19d7becacc12584c07b42d6c84023531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:12 +0000
Subject: [PATCH 26/37] fix: nonignorable sample selection uses predicted
 probabilities of a classifier for the outcome

DoubleMLSSM with score='nonignorable' and a classifier ml_g (binary outcome) used predict(), i.e. class
labels, where the missing-at-random score and the declared predict method use predict_proba().
---
 doubleml/irm/ssm.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 5a6458c..d6406d5 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -305,6 +305,14 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
             # create strata for splitting
             strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.s.reshape(-1, 1)
 
+            # a classifier for a binary outcome predicts probabilities
+            if self._predict_method["ml_g"] == "predict_proba":
+                predict_g = _predict_zero_one_propensity
+            else:
+
+                def predict_g(learner, X):
+                    return learner.predict(X)
+
             # calculate nuisance functions over different folds - nested cross-fitting
             for i_fold in range(self.n_folds):
                 train_inds = smpls[i_fold][0]
@@ -348,7 +356,7 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d1"][i_fold].fit(xpi_s1_d1_train_2, y_s1_d1_train_2)
 
                 # predict conditional outcome
-                g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
+                g_hat_d1["preds"][test_inds] = predict_g(fitted_models["ml_g_d1"][i_fold], xpi_test)
                 g_hat_d1["targets"][test_inds] = y[test_inds]
 
                 # estimate conditional outcome on second training sample - control
@@ -359,7 +367,7 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d0"][i_fold].fit(xpi_s1_d0_train_2, y_s1_d0_train_2)
 
                 # predict conditional outcome
-                g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
+                g_hat_d0["preds"][test_inds] = predict_g(fitted_models["ml_g_d0"][i_fold], xpi_test)
                 g_hat_d0["targets"][test_inds] = y[test_inds]
 
                 if return_models:
-- 
2.43.0


From 4950fa55fedfc0fbab9887851982ab1e97873928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:12 +0000
Subject: [PATCH 27/37] fix: PLR tuning uses predicted probabilities of a
 classifier ml_m for the initial estimate

With the IV-type score and a classifier ml_m the initial theta of the search for ml_g was computed from
class labels (and not defined when all of them are right).
---
 doubleml/plm/plr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index a36f970..fc6b335 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -9,7 +9,7 @@ from ..double_ml import DoubleML
 from ..double_ml_data import DoubleMLData
 from ..double_ml_score_mixins import LinearScoreMixin
 from ..utils._checks import _check_binary_predictions, _check_finite_predictions, _check_is_propensity, _check_score
-from ..utils._estimation import _dml_cv_predict, _dml_tune
+from ..utils._estimation import _dml_cv_predict, _dml_tune, _predict_zero_one_propensity
 from ..utils.blp import DoubleMLBLP
 
 
@@ -328,7 +328,10 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
             m_hat = np.full_like(d, np.nan, dtype="float64")
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
-                m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
+                if self._predict_method["ml_m"] == "predict_proba":
+                    m_hat[train_index] = _predict_zero_one_propensity(m_tune_res[idx], x[train_index, :])
+                else:
+                    m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
             psi_a = -np.multiply(d - m_hat, d - m_hat)
             psi_b = np.multiply(d - m_hat, y - l_hat)
             theta_initial = -np.nanmean(psi_b) / np.nanmean(psi_a)
-- 
2.43.0


From f602caa8a08be7feb603f429a64d2369190dae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:12 +0000
Subject: [PATCH 28/37] fix: storing models does not fail when a training part
 has only one class

Without stored models or fold-specific parameters cross_val_predict gives the missing class probability
zero; collecting the predictions fold by fold raised an IndexError for the same data.
---
 doubleml/utils/_estimation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 8309182..388412f 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -119,7 +119,12 @@ def _dml_cv_predict(
             assert idx == fitted_models[idx][1]
             pred_fun = getattr(fitted_models[idx][0], method)
             if method == "predict_proba":
-                preds[test_index] = pred_fun(x[test_index, :])[:, 1]
+                pred_proba = pred_fun(x[test_index, :])
+                if pred_proba.shape[1] == 1:
+                    # only one class in the training sample, the other one gets probability zero (as in cross_val_predict)
+                    preds[test_index] = pred_proba[:, 0] * (fitted_models[idx][0].classes_[0] == 1)
+                else:
+                    preds[test_index] = pred_proba[:, 1]
             else:
                 preds[test_index] = pred_fun(x[test_index, :])
 
-- 
2.43.0


From 52cf6b555b78246ac8ec134d046d59901ac6bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:12 +0000
Subject: [PATCH 29/37] fix: predictions are double precision whether or not
 models are stored

Learners that predict in single precision gave slightly different estimates with store_models=True or
fold-specific parameters, and when a fit was repeated from its stored predictions.
---
 doubleml/utils/_estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 388412f..11b552e 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -66,9 +66,9 @@ def _dml_cv_predict(
             # warnings.warn("Using the same (hyper-)parameters for all folds")
             preds = cross_val_predict(clone(estimator).set_params(**est_params), x, y, cv=smpls, n_jobs=n_jobs, method=method)
         if method == "predict_proba":
-            res["preds"] = preds[:, 1]
-        else:
-            res["preds"] = preds
+            preds = preds[:, 1]
+        # double precision for every learner (as for predictions collected fold by fold)
+        res["preds"] = preds.astype("float64")
         res["targets"] = np.copy(y)
     else:
         if not smpls_is_partition:
-- 
2.43.0


From c9da6dc21ca421aada2212ec4449642288bf23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 30/37] fix: data objects keep their own lists of column roles

The lists passed as x_cols, d_cols, z_cols or cluster_cols were kept by reference: changing such a list later
changed the roles of the data object without updating its arrays and flags.
---
 doubleml/double_ml_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index fd08669..06f8012 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -447,7 +447,7 @@ class DoubleMLData(DoubleMLBaseData):
             if not set(value).issubset(set(self.all_variables)):
                 raise ValueError("Invalid covariates x_cols. At least one covariate is no data column.")
             assert set(value).issubset(set(self.all_variables))
-            self._x_cols = value
+            self._x_cols = list(value)
         else:
             excluded_cols = set.union({self.y_col}, set(self.d_cols))
             if self.z_cols is not None:
@@ -483,7 +483,7 @@ class DoubleMLData(DoubleMLBaseData):
             raise ValueError("Invalid treatment variable(s) d_cols: Contains duplicate values.")
         if not set(value).issubset(set(self.all_variables)):
             raise ValueError("Invalid treatment variable(s) d_cols. At least one treatment variable is no data column.")
-        self._d_cols = value
+        self._d_cols = list(value)
         if reset_value:
             self._check_disjoint_sets()
             self._binary_treats = self._check_binary_treats()
@@ -538,7 +538,7 @@ class DoubleMLData(DoubleMLBaseData):
                 raise ValueError(
                     "Invalid instrumental variable(s) z_cols. At least one instrumental variable is no data column."
                 )
-            self._z_cols = value
+            self._z_cols = list(value)
         else:
             self._z_cols = None
         if reset_value:
@@ -1010,7 +1010,7 @@ class DoubleMLClusterData(DoubleMLData):
             raise ValueError("Invalid cluster variable(s) cluster_cols: Contains duplicate values.")
         if not set(value).issubset(set(self.all_variables)):
             raise ValueError("Invalid cluster variable(s) cluster_cols. At least one cluster variable is no data column.")
-        self._cluster_cols = value
+        self._cluster_cols = list(value)
         if reset_value:
             self._check_disjoint_sets()
             self._set_cluster_vars()
-- 
2.43.0


From 79a516501eb371df9d3d24bb1de8b1abe05f8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 31/37] fix: nuisance parameters are taken as they are when
 they are set

set_ml_nuisance_params kept the passed dictionary by reference, so re-using it for the next learner
also changed the parameters set before.
---
 doubleml/double_ml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index b576c32..baec579 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -893,6 +893,7 @@ class DoubleML(ABC):
                 + "."
             )
 
+        params = copy.deepcopy(params)
         if params is None:
             all_params = [None] * self.n_rep
         elif isinstance(params, dict):
-- 
2.43.0


From 9afffdd788a04e7019399744e33880a8cffba728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 32/37] fix: models keep their own weights, subgroups and
 quantiles

They were stored by reference: changing the passed array or dictionary later changed the target parameter of
the next fit and of effects derived from a finished one.
---
 doubleml/irm/apo.py  | 4 ++--
 doubleml/irm/apos.py | 4 ++--
 doubleml/irm/iivm.py | 2 +-
 doubleml/irm/irm.py  | 4 ++--
 doubleml/irm/qte.py  | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/doubleml/irm/apo.py b/doubleml/irm/apo.py
index e8c7517..6467f56 100644
--- a/doubleml/irm/apo.py
+++ b/doubleml/irm/apo.py
@@ -191,10 +191,10 @@ class DoubleMLAPO(LinearScoreMixin, DoubleML):
         if weights is None:
             weights = np.ones(self._dml_data.n_obs)
         if isinstance(weights, np.ndarray):
-            self._weights = {"weights": weights}
+            self._weights = {"weights": weights.copy()}
         else:
             assert isinstance(weights, dict)
-            self._weights = weights
+            self._weights = {key: value.copy() for key, value in weights.items()}
 
     def _get_weights(self):
         # standard case for APO/ATE
diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 4bc3f35..927e01f 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -885,10 +885,10 @@ class DoubleMLAPOS:
         if weights is None:
             weights = np.ones(self._dml_data.n_obs)
         if isinstance(weights, np.ndarray):
-            self._weights = weights
+            self._weights = weights.copy()
         else:
             assert isinstance(weights, dict)
-            self._weights = weights
+            self._weights = {key: value.copy() for key, value in weights.items()}
 
     def _initialize_models(self):
         modellist = [None] * self.n_treatment_levels
diff --git a/doubleml/irm/iivm.py b/doubleml/irm/iivm.py
index d78d6f3..db46c6f 100644
--- a/doubleml/irm/iivm.py
+++ b/doubleml/irm/iivm.py
@@ -193,7 +193,7 @@ class DoubleMLIIVM(LinearScoreMixin, DoubleML):
                 raise TypeError(f"subgroups['always_takers'] must be True or False. Got {str(subgroups['always_takers'])}.")
             if not isinstance(subgroups["never_takers"], bool):
                 raise TypeError(f"subgroups['never_takers'] must be True or False. Got {str(subgroups['never_takers'])}.")
-        self.subgroups = subgroups
+        self.subgroups = dict(subgroups)
         self._external_predictions_implemented = True
 
     @property
diff --git a/doubleml/irm/irm.py b/doubleml/irm/irm.py
index 72db088..f0f8825 100644
--- a/doubleml/irm/irm.py
+++ b/doubleml/irm/irm.py
@@ -212,10 +212,10 @@ class DoubleMLIRM(LinearScoreMixin, DoubleML):
         if weights is None:
             weights = np.ones(self._dml_data.n_obs)
         if isinstance(weights, np.ndarray):
-            self._weights = {"weights": weights}
+            self._weights = {"weights": weights.copy()}
         else:
             assert isinstance(weights, dict)
-            self._weights = weights
+            self._weights = {key: value.copy() for key, value in weights.items()}
 
     def _get_weights(self, m_hat=None):
         # standard case for ATE
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index 6e6c13f..d35ada3 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -103,7 +103,7 @@ class DoubleMLQTE:
         draw_sample_splitting=True,
     ):
         self._dml_data = obj_dml_data
-        self._quantiles = np.asarray(quantiles).reshape((-1,))
+        self._quantiles = np.array(quantiles).reshape((-1,))
         self._check_quantile()
         self._n_quantiles = len(self._quantiles)
 
-- 
2.43.0


From 99bce076da2c1b88686a9534d9027f53b69af1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 33/37] fix: explicit cluster sample splittings are copied like
 the splittings themselves

smpls are deep-copied by set_sample_splitting, all_smpls_cluster was kept by reference.
---
 doubleml/utils/_checks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 49491d5..168cc4a 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -1,3 +1,4 @@
+import copy
 import inspect
 import warnings
 
@@ -435,7 +436,7 @@ def _check_cluster_sample_splitting(all_smpls_cluster, dml_data, n_rep, n_folds)
                 if not is_cluster_partition:
                     raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
 
-    smpls_cluster = all_smpls_cluster
+    smpls_cluster = copy.deepcopy(all_smpls_cluster)
     return smpls_cluster
 
 
-- 
2.43.0


From 46ddf265fa19b7b2e136fb9775e5201977eb2f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 34/37] fix: conditional effects and policy trees keep their
 own data

The orthogonal signal, basis and features were stored by reference, so a summary, interval or a further fit
changed when the passed frames were re-used.
---
 doubleml/utils/blp.py        | 4 ++--
 doubleml/utils/policytree.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/blp.py b/doubleml/utils/blp.py
index 13844ee..c235eb3 100644
--- a/doubleml/utils/blp.py
+++ b/doubleml/utils/blp.py
@@ -41,8 +41,8 @@ class DoubleMLBLP:
         if not basis.columns.is_unique:
             raise ValueError("Invalid pd.DataFrame: Contains duplicate column names.")
 
-        self._orth_signal = orth_signal
-        self._basis = basis
+        self._orth_signal = orth_signal.copy()
+        self._basis = basis.copy()
         self._is_gate = is_gate
 
         # initialize the score and the covariance
diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index ca771ad..54542b6 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -43,8 +43,8 @@ class DoubleMLPolicyTree:
         if not features.columns.is_unique:
             raise ValueError("Invalid pd.DataFrame: Contains duplicate column names.")
 
-        self._orth_signal = orth_signal
-        self._features = features
+        self._orth_signal = orth_signal.copy()
+        self._features = features.copy()
         self._depth = depth
         self._tree_params = tree_params
 
-- 
2.43.0


From ecd23c6081c96c238c93ff984233f61c39528bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:37 +0000
Subject: [PATCH 35/37] fix: inference objects keep their own treatment names
 and null hypotheses

The passed list and array were stored by reference and changed what was reported when they were re-used.
---
 doubleml/double_ml_framework.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index f23535a..c4e5a76 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -69,7 +69,7 @@ class DoubleMLFramework:
         self._treatment_names = None
         if "treatment_names" in doubleml_dict.keys():
             self._check_treatment_names(doubleml_dict["treatment_names"])
-            self._treatment_names = doubleml_dict["treatment_names"]
+            self._treatment_names = list(doubleml_dict["treatment_names"])
 
         # initialize bootstrap distribution
         self._boot_t_stat = None
@@ -221,7 +221,7 @@ class DoubleMLFramework:
     @treatment_names.setter
     def treatment_names(self, value):
         self._check_treatment_names(value)
-        self._treatment_names = value
+        self._treatment_names = list(value)
 
     @property
     def summary(self):
@@ -606,7 +606,7 @@ class DoubleMLFramework:
             null_hypothesis_vec = np.full(shape=self._n_thetas, fill_value=null_hypothesis)
         elif isinstance(null_hypothesis, np.ndarray):
             if null_hypothesis.shape == (self._n_thetas,):
-                null_hypothesis_vec = null_hypothesis
+                null_hypothesis_vec = null_hypothesis.copy()
             else:
                 raise ValueError(
                     "null_hypothesis is numpy.ndarray but does not have the required "
-- 
2.43.0


From 2876a89825bbce2f08c03b688d406fd520f911c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:51 +0000
Subject: [PATCH 36/37] fix: group effects accept integer dummies as documented

---
 doubleml/irm/apo.py | 2 +-
 doubleml/irm/irm.py | 2 +-
 doubleml/plm/plr.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apo.py b/doubleml/irm/apo.py
index 6467f56..2b6f1b1 100644
--- a/doubleml/irm/apo.py
+++ b/doubleml/irm/apo.py
@@ -508,7 +508,7 @@ class DoubleMLAPO(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/irm/irm.py b/doubleml/irm/irm.py
index f0f8825..cd45750 100644
--- a/doubleml/irm/irm.py
+++ b/doubleml/irm/irm.py
@@ -518,7 +518,7 @@ class DoubleMLIRM(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index fc6b335..f818b1b 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -421,7 +421,7 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
 
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
-- 
2.43.0


From f377a52b289502e61e757fa68637c89e934b9dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:26 +0000
Subject: [PATCH 37/37] fix: IIVM without always- or never-takers accepts a
 treatment of truth values

---
 doubleml/irm/iivm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/iivm.py b/doubleml/irm/iivm.py
index db46c6f..a1e4926 100644
--- a/doubleml/irm/iivm.py
+++ b/doubleml/irm/iivm.py
@@ -341,7 +341,7 @@ class DoubleMLIIVM(LinearScoreMixin, DoubleML):
                     return_models=return_models,
                 )
         else:
-            r_hat0 = {"preds": np.zeros_like(d), "targets": np.zeros_like(d), "models": None}
+            r_hat0 = {"preds": np.zeros_like(d, dtype=float), "targets": np.zeros_like(d, dtype=float), "models": None}
         if not r0:
             _check_finite_predictions(r_hat0["preds"], self._learner["ml_r"], "ml_r", smpls)
             # adjust target values to consider only compatible subsamples
@@ -364,7 +364,7 @@ class DoubleMLIIVM(LinearScoreMixin, DoubleML):
                     return_models=return_models,
                 )
         else:
-            r_hat1 = {"preds": np.ones_like(d), "targets": np.ones_like(d), "models": None}
+            r_hat1 = {"preds": np.ones_like(d, dtype=float), "targets": np.ones_like(d, dtype=float), "models": None}
         if not r1:
             _check_finite_predictions(r_hat1["preds"], self._learner["ml_r"], "ml_r", smpls)
             # adjust target values to consider only compatible subsamples
-- 
2.43.0

