From fa070085316c8b4eaa787c946326e689e12ea0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 01/43] fix: apply the named global constraint in cdist_frechet

---
 tslearn/metrics/_frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 5ccc2bf..53f8d41 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -798,7 +798,7 @@ def _cdist_frechet(
         verbose=verbose,
         be=be,
         compute_diagonal=False,
-        global_constraint=global_constraint,
+        global_constraint=GLOBAL_CONSTRAINT_CODE[global_constraint],
         sakoe_chiba_radius=sakoe_chiba_radius,
         itakura_max_slope=itakura_max_slope,
     )
-- 
2.43.0


From 6546acdf2a44adb48b0ab230d97780e7a1ff499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 02/43] fix: skip cells outside the global constraint in LCSS
 instead of resetting or looping on them

---
 tslearn/metrics/dtw_variants.py | 36 +++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b2e363c..5ad0a5c 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -978,6 +978,10 @@ def njit_lcss_accumulated_matrix(s1, s2, eps, mask):
                     acc_cost_mat[i][j] = max(
                         acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
                     )
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1029,6 +1033,10 @@ def lcss_accumulated_matrix(s1, s2, eps, mask, be=None):
                     acc_cost_mat[i][j] = max(
                         acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
                     )
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1245,7 +1253,7 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
+        if mask[i - 1, j - 1]:
             if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
@@ -1253,6 +1261,10 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
                 i = i - 1
             else:
                 j = j - 1
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1309,6 +1321,10 @@ def _return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2, be=None):
                 i = i - 1
             else:
                 j = j - 1
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1345,7 +1361,7 @@ def _njit_return_lcss_path_from_dist_matrix(
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
+        if mask[i - 1, j - 1]:
             if dist_matrix[i - 1, j - 1] <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
@@ -1353,6 +1369,10 @@ def _njit_return_lcss_path_from_dist_matrix(
                 i = i - 1
             else:
                 j = j - 1
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1406,6 +1426,10 @@ def _return_lcss_path_from_dist_matrix(
                 i = i - 1
             else:
                 j = j - 1
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1573,6 +1597,10 @@ def njit_lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask):
                     acc_cost_mat[i][j] = max(
                         acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
                     )
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1616,6 +1644,10 @@ def lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask, be=None):
                     acc_cost_mat[i][j] = max(
                         acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
                     )
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
-- 
2.43.0


From 4859b606020f33ca07b91d39bf48c168a72f9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 03/43] fix: accept datasets of different lengths in
 cdist_soft_dtw_normalized with n_jobs

---
 tslearn/metrics/_soft_dtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 7e42cb2..f0f7afd 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -1183,7 +1183,7 @@ def _cdist_soft_dtw_normalized(
 
             self_dists = Parallel(n_jobs=n_jobs, prefer="threads", verbose=verbose)(
                 delayed(soft_dtw_variable_lenght)(ts)
-                for ts in be.vstack((dataset1, dataset2))
+                for ts in (*dataset1, *dataset2)
             )
             self_dists_dataset1 = be.array(self_dists[:len(dataset1)]).reshape(-1, 1)
             self_dists_dataset2 = be.array(self_dists[len(dataset1):]).reshape(-1, 1)
-- 
2.43.0


From 3ce36e8042797c5b28afc143031aa3f4d0457a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 04/43] fix: return a single value from the normalized
 cross-correlation of length-1 series

---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index d2bc8b2..563366f 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -45,7 +45,7 @@ def normalized_cc(s1, s2, norm1=-1.0, norm2=-1.0):
                 axis=0,
             )
         )
-    cc = np.vstack((cc[-(sz - 1) :], cc[:sz]))
+    cc = np.vstack((cc[fft_sz - (sz - 1) :], cc[:sz]))
     norm_cc = np.real(cc).sum(axis=-1) / denom
     return norm_cc
 
-- 
2.43.0


From ad6b8fa1644a63928ba556069e6992e30b86c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 05/43] fix: return the full symmetric matrix from
 cdist_normalized_cc with self_similarity

---
 tslearn/metrics/cycc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index 563366f..eadc12f 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -80,12 +80,12 @@ def cdist_normalized_cc(dataset1, dataset2, norms1, norms2, self_similarity):
         for i_ts2 in prange(n_ts2):
             norms2[i_ts2] = np.linalg.norm(dataset2[i_ts2, ...])
     if self_similarity:
-        for i in prange(1, n_ts1):
-            for j in range(i):
+        for i in prange(n_ts1):
+            for j in range(i + 1):
                 dists[i, j] = normalized_cc(
                     dataset1[i], dataset2[j], norm1=norms1[i], norm2=norms2[j]
                 ).max()
-        dists += dists.T
+                dists[j, i] = dists[i, j]
     else:
         for i in prange(n_ts1):
             for j in range(n_ts2):
-- 
2.43.0


From 3e8fd7062d304046cb9bc218ad38e858dda702df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 06/43] fix: accept an array of feature weights in mase

---
 tslearn/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index 02445c0..f800bdb 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -205,7 +205,7 @@ def mase(
 
     mae_ = mae(y_true, y_pred, ts_weights, timestamps_weights, multioutput)
 
-    if multioutput == "raw_values":
+    if isinstance(multioutput, str) and multioutput == "raw_values":
         scale_axis = (0, 1)
     else:
         scale_axis = None
-- 
2.43.0


From ad63e39ca9aea86ff7f89fe10ac101fcc3504b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:44 +0000
Subject: [PATCH 07/43] fix: read sktime rows by position in
 from_sktime_dataset, not by index label

---
 tslearn/utils/cast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 5d13b3b..6e4fd6c 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -394,15 +394,15 @@ def from_sktime_dataset(X):
     max_sz = -1
     for dim_name in ordered_data_dimensions:
         for i in range(n):
-            if X[dim_name][i].size > max_sz:
-                max_sz = X[dim_name][i].size
+            if X[dim_name].iloc[i].size > max_sz:
+                max_sz = X[dim_name].iloc[i].size
 
     tslearn_arr = numpy.empty((n, max_sz, d))
     tslearn_arr[:] = numpy.nan
     for di in range(d):
         for i in range(n):
-            sz = X["dim_%d" % di][i].size
-            tslearn_arr[i, :sz, di] = X["dim_%d" % di][i].values.copy()
+            sz = X["dim_%d" % di].iloc[i].size
+            tslearn_arr[i, :sz, di] = X["dim_%d" % di].iloc[i].values.copy()
     return tslearn_arr
 
 
-- 
2.43.0


From 5948bdcc8817be06c4d25d1d26973db0074b0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:44 +0000
Subject: [PATCH 08/43] fix: order the series by id in from_tsfresh_dataset
 instead of by hash

---
 tslearn/utils/cast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 6e4fd6c..43bd767 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -632,7 +632,7 @@ def from_tsfresh_dataset(X):
                        for col_name in X.columns
                        if col_name not in ["id", "time"]]
     d = len(data_dimensions)
-    all_ids = set(X["id"])
+    all_ids = sorted(set(X["id"]))
     n = len(all_ids)
 
     max_sz = -1
-- 
2.43.0


From 53b3cc3692896407878ca70017c9568e885e21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 09/43] fix: sort each series by the time column in
 from_tsfresh_dataset

---
 tslearn/utils/cast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 43bd767..ea944e2 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -631,6 +631,8 @@ def from_tsfresh_dataset(X):
     data_dimensions = [col_name
                        for col_name in X.columns
                        if col_name not in ["id", "time"]]
+    if "time" in X.columns:
+        X = X.sort_values("time", kind="stable")
     d = len(data_dimensions)
     all_ids = sorted(set(X["id"]))
     n = len(all_ids)
-- 
2.43.0


From df665e5b635d7257c385633881b9629b8aad2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 10/43] fix: leave a feature without any observed value
 unchanged in linear imputation

---
 tslearn/preprocessing/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 647da0b..d4d578e 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -532,6 +532,8 @@ class TimeSeriesImputer(TimeSeriesMixin, TransformerMixin, BaseEstimator):
         for di in range(ts.shape[-1]):
             ts_di = ts[:, di]
             mask = numpy.isnan(ts_di)
+            if mask.all():
+                continue
             ts_di[mask] = numpy.interp(
                 numpy.nonzero(mask)[0],
                 numpy.nonzero(~mask)[0],
-- 
2.43.0


From cce836a3845a903c0c34f502048a3054a0ceb157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 11/43] fix: zero-fill the samples after the last segment in
 the 1d-SAX reconstruction

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index 1f703a6..d610781 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -209,7 +209,7 @@ def inv_transform_1d_sax(
     n_ts, sz, d_1d_sax = dataset_sax.shape
     d = d_1d_sax // 2
     seg_sz = original_size // sz
-    dataset_out = np.empty((n_ts, original_size, d))
+    dataset_out = np.zeros((n_ts, original_size, d))
 
     for i in prange(n_ts):
         for t in range(sz):
-- 
2.43.0


From eeea8862f22f670bafbf917ab416acbd9662e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 12/43] fix: centre the segments in the 1d-SAX distance as in
 its reconstruction

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index d610781..859bf2f 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -171,7 +171,7 @@ def cydist_1d_sax(
 
     for t in prange(sz):
         t0 = t * seg_sz
-        t_middle = float(t0) + 0.5 * seg_sz
+        t_middle = float(t0) + 0.5 * (seg_sz - 1)
         for di in range(d):
             avg1 = breakpoints_avg_middle_[sax1[t, di]]
             avg2 = breakpoints_avg_middle_[sax2[t, di]]
-- 
2.43.0


From b88fa55da8e3aab824e0d24b6ff3bf2db47597ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 13/43] fix: scale the series once, not twice, before the
 1d-SAX averages

---
 tslearn/piecewise/piecewise.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 32faea6..1fefec4 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -687,15 +687,14 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
         return X_slopes
 
     def _transform(self, X, y=None):
-        X = self._scale(X)
         n_ts, sz_raw, d = X.shape
         X_1d_sax = numpy.empty((n_ts, self.n_segments, 2 * d), dtype=int)
 
-        # Average
+        # Average (SymbolicAggregateApproximation._transform scales its input)
         X_1d_sax_avg = SymbolicAggregateApproximation._transform(self, X)
 
         # Slope
-        X_slopes = self._get_slopes(X)
+        X_slopes = self._get_slopes(self._scale(X))
         X_1d_sax_slope = _paa_to_symbols(X_slopes, self.breakpoints_slope_)
 
         X_1d_sax[:, :, :d] = X_1d_sax_avg
-- 
2.43.0


From e2c7007dd1a6bfff09b0f28489401096c20f0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 14/43] fix: translate the named global constraint of
 metric_params in DBA instead of ignoring it

---
 tslearn/barycenters/dba.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 9373503..da4d91b 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -13,6 +13,7 @@ from sklearn.utils import check_random_state
 from tslearn.backend import instantiate_backend
 from tslearn.barycenters.utils import _set_weights
 from tslearn.metrics._dtw import _njit_dtw_path
+from tslearn.metrics._masks import GLOBAL_CONSTRAINT_CODE
 from tslearn.utils import to_time_series_dataset, to_time_series
 from tslearn.utils.utils import _to_time_series
 
@@ -31,6 +32,15 @@ def _init_avg(X, barycenter_size):
         return f(xnew)
 
 
+def _dtw_path_params(metric_params):
+    """Parameters of `_njit_dtw_path` for given `dtw_path` parameters."""
+    params = {} if metric_params is None else dict(metric_params)
+    global_constraint = params.get("global_constraint")
+    if global_constraint is None or isinstance(global_constraint, str):
+        params["global_constraint"] = GLOBAL_CONSTRAINT_CODE[global_constraint]
+    return params
+
+
 def _petitjean_assignment(
     X,
     barycenter,
@@ -41,8 +51,7 @@ def _petitjean_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _dtw_path_params(metric_params)
     n = X.shape[0]
     barycenter_size = barycenter.shape[0]
     assign = ([[] for _ in range(barycenter_size)],
@@ -273,8 +282,7 @@ def _mm_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _dtw_path_params(metric_params)
     n = X.shape[0]
     cost = 0.
     list_p_k = []
-- 
2.43.0


From 431cc24902823c78798e8b5ac0aac3f776b97991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 15/43] fix: return a barycenter from dtw_barycenter_averaging
 when no iteration is run

---
 tslearn/barycenters/dba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index da4d91b..7821785 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -624,7 +624,7 @@ def dtw_barycenter_averaging(
             verbose=verbose,
             n_jobs=n_jobs
         )
-        if loss < best_cost:
+        if best_barycenter is None or loss < best_cost:
             best_cost = loss
             best_barycenter = bary
     return best_barycenter
-- 
2.43.0


From 8409859bc1c8dc5d514a04241dc595833ea98987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 16/43] fix: weight the steps of
 dtw_barycenter_averaging_subgradient by the series weights

---
 tslearn/barycenters/dba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 7821785..c010d57 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -885,7 +885,7 @@ def dtw_barycenter_averaging_subgradient(
             if verbose:
                 print("[DBA] epoch %d, cost: %.3f" % (it + 1, cost))
             barycenter = _subgradient_update_barycenter(Xi, list_diag_v_k,
-                                                        list_w_k, wi.sum(),
+                                                        list_w_k, weights.mean(),
                                                         barycenter, eta)
             if it == 0:
                 eta -= (initial_step_size - final_step_size) / n
-- 
2.43.0


From 200284df258e6c43e71815e308c36d909fe8ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 17/43] fix: report the inertia of the final cluster centers,
 not of the previous ones

---
 tslearn/clustering/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tslearn/clustering/utils.py b/tslearn/clustering/utils.py
index a37e3d9..7db1d6c 100644
--- a/tslearn/clustering/utils.py
+++ b/tslearn/clustering/utils.py
@@ -229,7 +229,6 @@ class TimeSeriesCentroidBasedClusteringMixin(TimeSeriesMixin):
             self.cluster_centers_ = centroids
             self._assign(X_fitted)
             self._X_fit = X_fitted
-            self.inertia_ = inertia
         else:
             self._X_fit = None
         self.n_features_in_ = X_fitted.shape[-1]
-- 
2.43.0


From ee2b7e34ccf00fb42962f6b3bb8281d085c6d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 18/43] fix: do not store the fitted sigma in KernelKMeans'
 kernel_params nor reuse it on a refit

---
 tslearn/clustering/kmeans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index e9097e4..6e1b2b4 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -258,7 +258,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         if self.kernel_params is None:
             kernel_params = {}
         else:
-            kernel_params = self.kernel_params
+            kernel_params = self.kernel_params.copy()
         if self.kernel == "gak":
             if hasattr(self, "sigma_gak_"):
                 kernel_params["sigma"] = self.sigma_gak_
@@ -341,7 +341,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         rs = check_random_state(self.random_state)
 
         max_attempts = max(self.n_init, 10)
-        kernel_params = self._get_kernel_params()
+        kernel_params = {} if self.kernel_params is None else self.kernel_params
         if self.kernel == "gak":
             self.sigma_gak_ = kernel_params.get("sigma", 1.0)
             if self.sigma_gak_ == "auto":
-- 
2.43.0


From 37f2adedde4ef0edd925864c137fe7ea1b5b6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 19/43] fix: normalise KShape predictions by the norms of the
 given series, not of the training series

---
 tslearn/clustering/kshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 1f457a5..9774efe 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -152,7 +152,7 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
     def _cross_dists(self, X):
         return 1. - cdist_normalized_cc(X, self.cluster_centers_,
-                                        norms1=self.norms_,
+                                        norms1=numpy.linalg.norm(X, axis=(1, 2)),
                                         norms2=self.norms_centroids_,
                                         self_similarity=False)
 
-- 
2.43.0


From f4f6e10e16c368c34db96a2b9bee563724473a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 20/43] fix: z-normalise the series in KShape.fit as predict
 does

---
 tslearn/clustering/kshape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 9774efe..8490109 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -224,7 +224,8 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
         self.n_iter_ = 0
 
-        X_ = to_time_series_dataset(X)
+        X_ = TimeSeriesScalerMeanVariance(
+            mu=0., std=1.).fit_transform(to_time_series_dataset(X))
         self._X_fit = X_
         self.norms_ = numpy.linalg.norm(X_, axis=(1, 2))
 
-- 
2.43.0


From 97200d9eba6f5f24a5c8e320312793bf853ebcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 21/43] fix: select the best k-means initialisation by the
 inertia of its final centers

---
 tslearn/clustering/kmeans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index 6e1b2b4..db279b5 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -704,6 +704,9 @@ class TimeSeriesKMeans(
             old_inertia = self.inertia_
         if self.verbose:
             print("")
+        # labels and inertia of the final centers, rather than of the
+        # centers that precede the last update
+        self._assign(X)
 
         self._iter = it + 1
 
-- 
2.43.0


From 441e67b0efbd5c46590a7afb7c6bc409a3245915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 22/43] fix: kneighbors() without query excludes each series
 itself, not the first of its neighbours

---
 tslearn/neighbors/neighbors.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7f50628..1eeea1e 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -157,18 +157,22 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                                  "'frechet', 'sax', 'euclidean', 'sqeuclidean'"
                                  " or 'cityblock')" % self.metric)
 
+        if self_neighbors:
+            # A series is not its own neighbor
+            full_dist_matrix = full_dist_matrix.copy()
+            numpy.fill_diagonal(full_dist_matrix, numpy.inf)
+            n_candidates = full_dist_matrix.shape[1] - 1
+        else:
+            n_candidates = full_dist_matrix.shape[1]
+        n_neighbors = min(n_neighbors, n_candidates)
+
         # Code similar to sklearn (sklearn/neighbors/base.py), to make sure
         # that TimeSeriesKNeighbor~(metric='euclidean') has the same results as
         # feeding a distance matrix to sklearn.KNeighbors~(metric='euclidean')
-        kbin = min(n_neighbors - 1, full_dist_matrix.shape[1] - 1)
+        kbin = max(n_neighbors - 1, 0)
         # argpartition will make sure the first `kbin` entries are the
         # `kbin` smallest ones (but in arbitrary order) --> complexity: O(n)
         ind = numpy.argpartition(full_dist_matrix, kbin, axis=1)
-
-        if self_neighbors:
-            ind = ind[:, 1:]
-        if n_neighbors > full_dist_matrix.shape[1]:
-            n_neighbors = full_dist_matrix.shape[1]
         ind = ind[:, :n_neighbors]
 
         n_ts = X.shape[0]
-- 
2.43.0


From f979b5026ec89ed43ec780285e7c6626d6bf0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 23/43] fix: keep the kNN metric and training series of the
 last fit (stale metric after set_params, queries against zeros, metric lost
 after a failed call)

---
 tslearn/neighbors/neighbors.py | 152 ++++++++++++---------------------
 1 file changed, 54 insertions(+), 98 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 1eeea1e..93c3cdf 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -59,25 +59,23 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if other_X is None:
             other_X = self._ts_fit
 
-        self._ts_metric = self.metric
-        self.metric = "precomputed"
-
         metric_params = self._get_metric_params()
 
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
-        if self._ts_metric == "dtw":
+        if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
+                verbose=self.verbose,
                 **metric_params)
-        elif self._ts_metric == "ctw":
+        elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
-        elif self._ts_metric == "softdtw":
+        elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
-        elif self._ts_metric == "sax":
+        elif self.metric == "sax":
             X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
@@ -85,16 +83,17 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 self._sax._X_fit_dims_[1],
                 other_X,
                 n_jobs=self.n_jobs)
-        elif self._ts_metric == "frechet":
+        elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
+                verbose=self.verbose,
                 **metric_params
             )
         else:
             raise ValueError("Invalid metric recorded: %s" %
-                             self._ts_metric)
+                             self.metric)
 
         return X_
 
@@ -127,35 +126,27 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if n_neighbors is None:
             n_neighbors = self.n_neighbors
         if X is None:
-            X = self._X_fit
             self_neighbors = True
+            if self.metric in TSLEARN_VALID_METRICS:
+                X = self._ts_fit
+            else:
+                X = self._X_fit
         if self.metric == "precomputed":
             full_dist_matrix = X
-        else:
-
+        elif self.metric in TSLEARN_VALID_METRICS:
+            check_is_fitted(self, '_ts_fit')
             if X.ndim == 2:  # sklearn-format case
                 X = X.reshape((X.shape[0], -1, self._d))
-                fit_X = self._X_fit.reshape((self._X_fit.shape[0],
-                                             -1,
-                                             self._d))
-            elif hasattr(self, '_ts_fit') and self._ts_fit is not None:
-                fit_X = self._ts_fit
-            else:
-                fit_X = self._X_fit
-
-            if self.metric in TSLEARN_VALID_METRICS:
-                full_dist_matrix = self._precompute_cross_dist(X,
-                                                               other_X=fit_X)
-            elif self.metric in ["euclidean", "sqeuclidean", "cityblock"]:
-                full_dist_matrix = scipy_cdist(X.reshape((X.shape[0], -1)),
-                                               fit_X.reshape((fit_X.shape[0],
-                                                              -1)),
-                                               metric=self.metric)
-            else:
-                raise ValueError("Unrecognized time series metric string: %s "
-                                 "(should be one of 'dtw', 'softdtw', "
-                                 "'frechet', 'sax', 'euclidean', 'sqeuclidean'"
-                                 " or 'cityblock')" % self.metric)
+            full_dist_matrix = self._precompute_cross_dist(X)
+        elif self.metric in ["euclidean", "sqeuclidean", "cityblock"]:
+            full_dist_matrix = scipy_cdist(X.reshape((X.shape[0], -1)),
+                                           self._X_fit,
+                                           metric=self.metric)
+        else:
+            raise ValueError("Unrecognized time series metric string: %s "
+                             "(should be one of 'dtw', 'softdtw', "
+                             "'frechet', 'sax', 'euclidean', 'sqeuclidean'"
+                             " or 'cityblock')" % self.metric)
 
         if self_neighbors:
             # A series is not its own neighbor
@@ -182,9 +173,6 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             sample_range, numpy.argsort(full_dist_matrix[sample_range, ind])]
         dist = full_dist_matrix[sample_range, ind]
 
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
-
         if return_distance:
             return dist, ind
         else:
@@ -225,9 +213,8 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        pred = predict_func(X_)
-        caller.metric = caller._ts_metric
-        return pred
+        with caller._patch_attribute("metric", "precomputed"):
+            return predict_func(X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
@@ -331,25 +318,24 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X : array-like, shape (n_ts, sz, d)
             Training data.
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not is_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
+        with self._patch_attribute(
+            "metric", "precomputed" if is_ts_metric else self.metric
+        ):
+            super().fit(self._X_fit, y)
         return self
 
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
@@ -378,44 +364,16 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
-            metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
-            X = check_array(X, allow_nd=True, force_all_finite=False)
-            X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
-                           check_n_features_only=True)
-            if self._ts_metric == "dtw":
-                X_ = _cdist_dtw(
-                    X,
-                    self._ts_fit,
-                    n_jobs=self.n_jobs,
-                    verbose=self.verbose,
-                    **metric_params
-                )
-            elif self._ts_metric == "ctw":
-                X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "softdtw":
-                X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "frechet":
-                X_ = _cdist_frechet(
-                    X,
-                    self._ts_fit,
-                    n_jobs=self.n_jobs,
-                    verbose=self.verbose,
-                    **metric_params
-                )
-            else:
-                raise ValueError("Invalid metric recorded: %s" %
-                                 self._ts_metric)
-            pred = KNeighborsTimeSeriesMixin.kneighbors(
+            if X is not None:
+                X = check_array(X, allow_nd=True, force_all_finite=False)
+                X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
+                               check_n_features_only=True)
+            return KNeighborsTimeSeriesMixin.kneighbors(
                 self,
-                X=X_,
+                X=X,
                 n_neighbors=n_neighbors,
                 return_distance=return_distance)
-            self.metric = self._ts_metric
-            return pred
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -555,18 +513,16 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesClassifier
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not is_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
-            if self._ts_metric == 'sax':
+            if self.metric == 'sax':
                 if self.metric_params is not None:
                     self._ts_fit = self._sax_preprocess(X,
                                                         **self.metric_params)
@@ -578,10 +534,11 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute(
+            "metric", "precomputed" if is_ts_metric else self.metric
+        ):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -716,26 +673,25 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesRegressor
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not is_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute(
+            "metric", "precomputed" if is_ts_metric else self.metric
+        ):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
-- 
2.43.0


From 42f77909777b5d57b940976a9fe83c224c54e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 24/43] fix: fit SAX on the training series of each kNN fit and
 support it in all kNN estimators

---
 tslearn/neighbors/neighbors.py | 38 ++++++++++++++--------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 93c3cdf..7972292 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -28,18 +28,14 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
-    def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
-                        scale=False):
-        # Now SAX-transform the time series
-        if not hasattr(self, '_sax') or self._sax is None:
-            self._sax = SymbolicAggregateApproximation(
-                n_segments=n_segments,
-                alphabet_size_avg=alphabet_size_avg,
-                scale=scale
-            )
-        X_sax = self._sax.fit_transform(X)
-
-        return X_sax
+    def _sax_fit(self, X, n_segments=10, alphabet_size_avg=4, scale=False):
+        # SAX is fitted on the training series
+        self._sax = SymbolicAggregateApproximation(
+            n_segments=n_segments,
+            alphabet_size_avg=alphabet_size_avg,
+            scale=scale
+        )
+        self._sax.fit(X)
 
     def _get_metric_params(self):
         if self.metric_params is None:
@@ -76,12 +72,11 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
         elif self.metric == "sax":
-            X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
-                X,
+                self._sax.transform(X),
                 self._sax.breakpoints_avg_,
                 self._sax._X_fit_dims_[1],
-                other_X,
+                self._sax.transform(other_X),
                 n_jobs=self.n_jobs)
         elif self.metric == "frechet":
             X_ = _cdist_frechet(
@@ -327,6 +322,8 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if is_ts_metric:
             self._ts_fit = X
+            if self.metric == "sax":
+                self._sax_fit(X, **self._get_metric_params())
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
@@ -522,13 +519,8 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if is_ts_metric:
             self._ts_fit = X
-            if self.metric == 'sax':
-                if self.metric_params is not None:
-                    self._ts_fit = self._sax_preprocess(X,
-                                                        **self.metric_params)
-                else:
-                    self._ts_fit = self._sax_preprocess(X)
-
+            if self.metric == "sax":
+                self._sax_fit(X, **self._get_metric_params())
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
@@ -682,6 +674,8 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if is_ts_metric:
             self._ts_fit = X
+            if self.metric == "sax":
+                self._sax_fit(X, **self._get_metric_params())
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
-- 
2.43.0


From f2bb0ce291c082cb237647da1e919ba3ad0a7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 25/43] fix: predict with the cityblock metric in
 KNeighborsTimeSeriesClassifier (number of features of the flattened series)

---
 tslearn/neighbors/neighbors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7972292..6094d87 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -216,7 +216,8 @@ def _predict_generic(caller, X, predict_func):
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
-        return predict_func(X_)
+        with caller._patch_attribute("n_features_in_", X_.shape[1]):
+            return predict_func(X_)
 
 
 class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
-- 
2.43.0


From 2e35a605345de050442a485af1d556f5c0120e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 26/43] fix: undo d-th order differencing with the alternating
 binomial coefficients (VARIMA forecasts for d >= 2)

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8299f11..8e3ed2c 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -341,7 +341,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _undifference(self, initial_values, prediction):
         _ = np.array(
             [
-                (-(1 ** (j + 1))) * scipy.special.binom(j + 1, self.d)
+                (-1) ** (self.d - j) * scipy.special.binom(self.d, j)
                 for j in range(self.d)
             ]
         )
-- 
2.43.0


From 295a4538155a175ea9f856e4aa97a4257b7bf587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 27/43] fix: multivariate VARIMA coefficients were transposed
 between the least squares fit and the forecast

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8e3ed2c..805fea7 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -296,7 +296,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         ma_start_params = compute_var(self.q, residuals)[1]
 
         return np.concatenate(
-            (constant_params, ar_start_params.T.ravel(), ma_start_params.T.ravel())
+            (constant_params, ar_start_params.ravel(), ma_start_params.ravel())
         )
 
     def _unravel_params(self, params, n_features_in=None):
-- 
2.43.0


From 28e7c5b0bbc29d3d59020b4ad8ec79d217e20065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 28/43] fix: apply the k-th VARIMA moving-average coefficient
 to the k-th latest residual

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 805fea7..185dd89 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -101,7 +101,7 @@ def _varma_next(X, residuals, ar_coeffs, ma_coeffs, intercept):
         ar_forecast += np.dot(X[:, n_samples - k - 1], ar_coeffs[k])
     ma_forecast = np.zeros((n_ts, n_features_in))
     for k in range(ma_coeffs.shape[0]):
-        ma_forecast += np.dot(residuals[:, k], ma_coeffs[k])
+        ma_forecast += np.dot(residuals[:, residuals.shape[1] - k - 1], ma_coeffs[k])
 
     intercept = np.zeros(n_features_in) if intercept.shape[0] == 0 else intercept
 
-- 
2.43.0


From d3c058494b1045ede6ba2a0dbca5a5f52c00abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 29/43] fix: compute VARIMA residuals before the series are
 aligned at their end (predict(X) differed from fit)

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 185dd89..8b9bd35 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -385,10 +385,10 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
             check_dims(X_, (0, 0, self.n_features_in_), check_n_features_only=True)
 
             # Retrieve last residuals and last timestamps needed to compute estimate
-            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
             seasonal_differrenced_X = self._seasonal_differencing(X_)
             differenced_X = np.diff(seasonal_differrenced_X, n=self.d, axis=1)
             last_residuals = self._loss(differenced_X)[1]
+            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
 
         # Seasonal differencing
         sd_timestamps = self._seasonal_differencing(last_timestamps)
-- 
2.43.0


From 39e2238f3f9d7cdee89a9c61ca33ea24ee219943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 30/43] fix: matrix profile of series padded with NaN (every
 value was NaN)

---
 tslearn/matrix_profile/matrix_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index b2ce67a..dd4db58 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -198,6 +198,8 @@ class MatrixProfile(TimeSeriesMixin,
                         ~np.tri(n_segments, n_segments,
                                 -(band_width + 1), dtype=bool))
                 dists[band] = np.inf
+                # Segments that overlap the padding match no other segment
+                dists[np.isnan(dists)] = np.inf
                 X_transformed[i_ts] = dists.min(axis=1, keepdims=True)
 
         else:
-- 
2.43.0


From 5911658c85f15d4d4066dfc783ba0d049941e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 31/43] fix: MatrixProfile ignored scale=False with the stumpy
 implementations

---
 tslearn/matrix_profile/matrix_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index dd4db58..2b699f4 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -170,7 +170,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
@@ -180,7 +181,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.gpu_stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "numpy":
-- 
2.43.0


From 61e313d3862efac0b0c371b49986680075f140ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 32/43] fix: early classification estimated P(y | prediction)
 instead of P(prediction | y) per cluster

---
 tslearn/early_classification/early_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index ec031fd..cc34355 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -200,7 +200,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
                                                    labels=label_set)
                     # normalize parameter seems to be quite recent in sklearn,
                     # so let's do it ourselves
-                    normalizer = conf_matrix.sum(axis=0, keepdims=True)
+                    normalizer = conf_matrix.sum(axis=1, keepdims=True)
                     normalizer[normalizer == 0] = 1  # Avoid divide by 0
                     conf_matrix = conf_matrix / normalizer
 
-- 
2.43.0


From 08ee60a8a2e35eda2e9f68dac4581278769ec424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 33/43] fix: early classification decided on NaN costs when a
 series equals every cluster center so far

---
 tslearn/early_classification/early_classification.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index cc34355..fd45b2a 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -279,7 +279,10 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
         diffs = Xi[np.newaxis, :] - self.cluster_.cluster_centers_[:, :len(Xi)]
         distances_clusters = np.linalg.norm(diffs, axis=(1, 2))
         average_distance = np.mean(distances_clusters)
-        delta_k = 1. - distances_clusters / average_distance
+        if average_distance == 0.:  # Xi is equal to all the cluster centers
+            delta_k = np.zeros(distances_clusters.shape)
+        else:
+            delta_k = 1. - distances_clusters / average_distance
         s_k = 1. / (1. + np.exp(-self.lamb * delta_k))
         return s_k / s_k.sum()
 
-- 
2.43.0


From cc32a7185606314b25bc1f456f4358a3d4831ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 34/43] fix: SVM gamma='auto' for kernels other than gak is
 1/n_features as documented

---
 tslearn/svm/svm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index 5d669da..dbd5f11 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -54,7 +54,10 @@ class TimeSeriesSVMMixin(TimeSeriesMixin):
         if fit_time:
             self._X_fit = X
             if self.gamma == "auto":
-                self.gamma_ = gamma_soft_dtw(X, random_state=self.random_state)
+                if self.kernel in VARIABLE_LENGTH_METRICS:
+                    self.gamma_ = gamma_soft_dtw(X, random_state=self.random_state)
+                else:
+                    self.gamma_ = 1. / (X.shape[1] * X.shape[2])
             else:
                 self.gamma_ = self.gamma
             self.classes_ = numpy.unique(y)
-- 
2.43.0


From 7e9dbb965ef97891e74e4a24a523ae6b6ab7ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 35/43] fix: TimeSeriesSVR ignored its epsilon parameter

---
 tslearn/svm/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index dbd5f11..b5b627d 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -588,7 +588,7 @@ class TimeSeriesSVR(TimeSeriesSVMMixin, RegressorMixin, BaseEstimator):
         self.svm_estimator_ = SVR(
             C=self.C, kernel=self.estimator_kernel_, degree=self.degree,
             gamma=self.gamma_, coef0=self.coef0, shrinking=self.shrinking,
-            tol=self.tol, cache_size=self.cache_size,
+            tol=self.tol, epsilon=self.epsilon, cache_size=self.cache_size,
             verbose=self.verbose, max_iter=self.max_iter
         )
         self.svm_estimator_.fit(sklearn_X, y, sample_weight=sample_weight)
-- 
2.43.0


From 2785640f42b47a86bcdbc944cca873c1e141e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 36/43] fix: HDF5 models lost strings and None nested in
 parameters (bytes metric_params, TypeError)

---
 tslearn/bases/bases.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 760dedc..19584e4 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -132,6 +132,8 @@ class BaseModelPackage(object):
         elif output == 'hdf5':
             d['hyper_params'] = \
                 BaseModelPackage._none_to_str(d['hyper_params'])
+            d['model_params'] = \
+                BaseModelPackage._none_to_str(d['model_params'])
 
         if hyper_parameters_only:
             del d["model_params"]
@@ -141,11 +143,16 @@ class BaseModelPackage(object):
     @staticmethod
     def _none_to_str(mp):
         """Use str to store Nones. Used for HDF5"""
-        for k in mp.keys():
-            if mp[k] is None:
-                mp[k] = 'None'
+        if isinstance(mp, dict):
+            return {k: BaseModelPackage._none_to_str(v) for k, v in mp.items()}
+        return 'None' if mp is None else mp
 
-        return mp
+    @staticmethod
+    def _str_to_none(mp):
+        """Revert `_none_to_str`. Used for HDF5"""
+        if isinstance(mp, dict):
+            return {k: BaseModelPackage._str_to_none(v) for k, v in mp.items()}
+        return None if isinstance(mp, str) and mp == 'None' else mp
 
     @staticmethod
     def _listify(model_params):
@@ -201,11 +208,9 @@ class BaseModelPackage(object):
 
     @classmethod
     def _byte2string(cls, model):
-        for param_set in ['hyper_params', 'model_params']:
-            for k in model[param_set].keys():
-                if type(model[param_set][k]) == type(b''):
-                    model[param_set][k] = model[param_set][k].decode('utf-8')
-        return model
+        if isinstance(model, dict):
+            return {k: cls._byte2string(v) for k, v in model.items()}
+        return model.decode('utf-8') if isinstance(model, bytes) else model
 
     def to_hdf5(self, path):
         """
@@ -248,11 +253,7 @@ class BaseModelPackage(object):
 
         model = hdftools.load_dict(path, 'data')
         model = cls._byte2string(model)
-
-        for k in model['hyper_params'].keys():
-            if isinstance(model['hyper_params'][k], str):
-                if model['hyper_params'][k] == 'None':
-                    model['hyper_params'][k] = None
+        model = cls._str_to_none(model)
 
         return cls._organize_model(cls, model)
 
-- 
2.43.0


From 565398a025c6a1b28289aa9db432c568c39bdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 37/43] fix: k-nearest neighbors with metric='sax' could not
 predict once loaded from disk

---
 tslearn/neighbors/neighbors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 6094d87..2af44b3 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -72,6 +72,8 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
         elif self.metric == "sax":
+            if not hasattr(self, "_sax"):  # model loaded from disk
+                self._sax_fit(self._ts_fit, **metric_params)
             X_ = _cdist_sax(
                 self._sax.transform(X),
                 self._sax.breakpoints_avg_,
-- 
2.43.0


From 13d859b8e8870dd679834601122e5c2773197aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 38/43] fix: k-nearest neighbors classifier with Euclidean-type
 metrics and regressor could not be saved

---
 tslearn/neighbors/neighbors.py | 49 +++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 2af44b3..26ef841 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -37,6 +37,26 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         )
         self._sax.fit(X)
 
+    def _is_fitted(self):
+        if self.metric in TSLEARN_VALID_METRICS:
+            check_is_fitted(self, '_ts_fit')
+        else:
+            check_is_fitted(self, '_X_fit')
+        return True
+
+    def _get_neighbors_model_params(self):
+        params = {
+            '_X_fit': self._X_fit,
+            '_d': self._d,
+            '_y': self._y,
+            '_fit_X': self._fit_X,
+            '_fit_method': self._fit_method,
+            'n_features_in_': self.n_features_in_
+        }
+        if self.metric in TSLEARN_VALID_METRICS:
+            params['_ts_fit'] = self._ts_fit
+        return params
+
     def _get_metric_params(self):
         if self.metric_params is None:
             metric_params = {}
@@ -294,14 +314,6 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            check_is_fitted(self, '_ts_fit')
-        else:
-            check_is_fitted(self, '_X_fit')
-
-        return True
-
     def _get_model_params(self):
         if self.metric in TSLEARN_VALID_METRICS:
             return {'_ts_fit': self._ts_fit}
@@ -482,21 +494,13 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        check_is_fitted(self, '_ts_fit')
-        return True
-
     def _get_model_params(self):
-        return {
-            '_X_fit': self._X_fit,
-            '_ts_fit': self._ts_fit,
-            '_d': self._d,
+        params = self._get_neighbors_model_params()
+        params.update({
             'classes_': self.classes_,
-            '_y': self._y,
-            'outputs_2d_': self.outputs_2d_,
-            '_fit_X': self._fit_X,
-            '_fit_method': self._fit_method
-        }
+            'outputs_2d_': self.outputs_2d_
+        })
+        return params
 
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
@@ -653,6 +657,9 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
+    def _get_model_params(self):
+        return self._get_neighbors_model_params()
+
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
 
-- 
2.43.0


From 597f870f0589a677c1a985a1bc579b1cc1b8a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 39/43] fix: MatrixProfile loaded from disk was not considered
 fitted

---
 tslearn/matrix_profile/matrix_profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 2b699f4..d1f5758 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -130,6 +130,11 @@ class MatrixProfile(TimeSeriesMixin,
         check_is_fitted(self, '_X_fit_dims')
         return True
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params['_X_fit_dims'] = np.array(self._X_fit_dims)
+        return params
+
     def _fit(self, X, y=None):
         self._X_fit_dims = X.shape
         self.n_features_in_ = X.shape[-1]
@@ -232,7 +237,7 @@ class MatrixProfile(TimeSeriesMixin,
         """
         self._is_fitted()
         X = check_array(X, allow_nd=True, force_all_finite=False)
-        X = check_dims(X, X_fit_dims=self._X_fit_dims,
+        X = check_dims(X, X_fit_dims=tuple(self._X_fit_dims),
                        check_n_features_only=True)
         return self._transform(X, y)
 
-- 
2.43.0


From 9c61e85dcc5e138c28da5f2e326a54373c094ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 40/43] fix: models loaded from HDF5 could not be saved again
 (numpy scalars)

---
 tslearn/bases/bases.py       | 4 +++-
 tslearn/hdftools/hdftools.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 19584e4..7a6cffa 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -163,10 +163,12 @@ class BaseModelPackage(object):
         for k in model_params.keys():
             param = model_params[k]
 
-            if isinstance(param, np.ndarray):
+            if isinstance(param, (np.ndarray, np.generic)):
                 model_params[k] = param.tolist()  # for json support
             elif isinstance(param, list) and isinstance(param[0], np.ndarray):
                 model_params[k] = [p.tolist() for p in param]  # json support
+            elif isinstance(param, dict):
+                model_params[k] = BaseModelPackage._listify(dict(param))
             else:
                 model_params[k] = param
         return model_params
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 16239fe..04529ce 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -82,7 +82,7 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
                 # h5file[path + key].attrs['dtype'] = item.dtype.str
 
         # single pieces of data
-        elif isinstance(item, (str, int, np.int8,
+        elif isinstance(item, (str, int, np.bool_, np.int8,
                                np.int16, np.int32, np.int64, float,
                                np.float16, np.float32, np.float64)):
             h5file[path + key] = item
-- 
2.43.0


From 9fcfe50329d893d8410a3a780a1f50eb00ec5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 41/43] fix: HDF5 models lost empty dict parameters

---
 tslearn/hdftools/hdftools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 04529ce..5d9184c 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -88,6 +88,7 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
             h5file[path + key] = item
 
         elif isinstance(item, dict):
+            h5file.require_group(path + key)  # kept even if empty
             _dicts_to_group(
                 h5file, "{}{}/".format(path, key), item, raise_meta_fail
             )
-- 
2.43.0


From 24ce2bc1037fdf43f31571d2f19d329a81d8be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 42/43] fix: median of the PyTorch backend took the lower
 middle value of an even count (sigma_gak differed from NumPy)

---
 tslearn/backend/pytorch_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index aaded82..3c68a62 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -75,7 +75,6 @@ else:
             self.log = _torch.log
             self.max = _torch.max
             self.mean = _torch.mean
-            self.median = _torch.median
             self.min = _torch.min
             self.nan = _torch.nan
             self.pairwise_euclidean_distances = _torch.cdist
@@ -169,6 +168,11 @@ else:
         def is_float64(x):
             return isinstance(x, _torch.float64)
 
+        @staticmethod
+        def median(x):
+            # torch.median returns the lower of the two middle values
+            return 0.5 * (_torch.median(x) - _torch.median(-x))
+
         @staticmethod
         def ndim(x):
             return x.dim()
-- 
2.43.0


From 1de351d52423dfd392d976126ffb570b19586d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 43/43] fix: SoftDTW inferred the NumPy backend for a
 SquaredEuclidean of tensors (AttributeError)

---
 tslearn/metrics/softdtw_variants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tslearn/metrics/softdtw_variants.py b/tslearn/metrics/softdtw_variants.py
index bfb8496..23802b2 100644
--- a/tslearn/metrics/softdtw_variants.py
+++ b/tslearn/metrics/softdtw_variants.py
@@ -675,13 +675,13 @@ class SoftDTW:
         self.R_: array-like, shape =(m + 2, n + 2)
             Accumulated cost matrix (stored after calling `compute`).
         """
-        be = instantiate_backend(be, D)
-        self.be = be
-        self.compute_with_backend = compute_with_backend
         if hasattr(D, "compute"):
             self.D = D.compute()
         else:
             self.D = D
+        be = instantiate_backend(be, self.D)
+        self.be = be
+        self.compute_with_backend = compute_with_backend
         self.D = self.be.cast(self.D, dtype=self.be.float64)
 
         # Allocate memory.
-- 
2.43.0

