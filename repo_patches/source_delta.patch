From c9b7476d1cedc3df9f3e5fa4684b4850cddb6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 01/33] fix: apply the requested global constraint in
 cdist_frechet

The constraint name was passed to the kernel instead of its code, so
cdist_frechet(global_constraint="itakura" or "sakoe_chiba") without an
explicit radius or slope silently computed the unconstrained value.
---
 tslearn/metrics/_frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 5ccc2bf..53f8d41 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -798,7 +798,7 @@ def _cdist_frechet(
         verbose=verbose,
         be=be,
         compute_diagonal=False,
-        global_constraint=global_constraint,
+        global_constraint=GLOBAL_CONSTRAINT_CODE[global_constraint],
         sakoe_chiba_radius=sakoe_chiba_radius,
         itakura_max_slope=itakura_max_slope,
     )
-- 
2.43.0


From 9d24c91d44e13e391afb0222b506a47201f44ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 02/33] fix: LCSS under a global constraint loses matches, and
 its backtracking ignores the mask or hangs

Cells outside the constraint were left at zero instead of carrying the best
value of their neighbours, so matches were lost; the compiled backtracking
ignored the mask and the generic one never left a masked cell.
---
 tslearn/metrics/dtw_variants.py | 134 ++++++++++++++++----------------
 1 file changed, 66 insertions(+), 68 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b2e363c..c34569c 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -971,13 +971,15 @@ def njit_lcss_accumulated_matrix(s1, s2, eps, mask):
 
     for i in range(1, l1 + 1):
         for j in range(1, l2 + 1):
-            if mask[i - 1, j - 1]:
-                if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
-                    acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+            if (
+                mask[i - 1, j - 1]
+                and numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps
+            ):
+                acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1018,17 +1020,16 @@ def lcss_accumulated_matrix(s1, s2, eps, mask, be=None):
 
     for i in range(1, l1 + 1):
         for j in range(1, l2 + 1):
-            if mask[i - 1, j - 1]:
-                if be.is_numpy:
-                    squared_dist = _njit_local_squared_dist(s1[i - 1], s2[j - 1])
-                else:
-                    squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1], be=be)
-                if be.sqrt(squared_dist) <= eps:
-                    acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+            if be.is_numpy:
+                squared_dist = _njit_local_squared_dist(s1[i - 1], s2[j - 1])
+            else:
+                squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1], be=be)
+            if mask[i - 1, j - 1] and be.sqrt(squared_dist) <= eps:
+                acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1245,14 +1246,16 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
-            if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+        if (
+            mask[i - 1, j - 1]
+            and numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps
+        ):
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1297,18 +1300,17 @@ def _return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2, be=None):
     path = []
 
     while i > 0 and j > 0:
-        if mask[i - 1, j - 1]:
-            if be.is_numpy:
-                squared_dist = _njit_local_squared_dist(s1[i - 1], s2[j - 1])
-            else:
-                squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1])
-            if be.sqrt(squared_dist) <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+        if be.is_numpy:
+            squared_dist = _njit_local_squared_dist(s1[i - 1], s2[j - 1])
+        else:
+            squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1])
+        if mask[i - 1, j - 1] and be.sqrt(squared_dist) <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1345,14 +1347,13 @@ def _njit_return_lcss_path_from_dist_matrix(
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
-            if dist_matrix[i - 1, j - 1] <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+        if mask[i - 1, j - 1] and dist_matrix[i - 1, j - 1] <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1398,14 +1399,13 @@ def _return_lcss_path_from_dist_matrix(
     path = []
 
     while i > 0 and j > 0:
-        if mask[i - 1, j - 1]:
-            if dist_matrix[i - 1, j - 1] <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+        if mask[i - 1, j - 1] and dist_matrix[i - 1, j - 1] <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1566,13 +1566,12 @@ def njit_lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask):
 
     for i in range(1, l1 + 1):
         for j in range(1, l2 + 1):
-            if mask[i - 1, j - 1]:
-                if dist_matrix[i - 1, j - 1] <= eps:
-                    acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+            if mask[i - 1, j - 1] and dist_matrix[i - 1, j - 1] <= eps:
+                acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1609,13 +1608,12 @@ def lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask, be=None):
 
     for i in range(1, l1 + 1):
         for j in range(1, l2 + 1):
-            if mask[i - 1, j - 1]:
-                if dist_matrix[i - 1, j - 1] <= eps:
-                    acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+            if mask[i - 1, j - 1] and dist_matrix[i - 1, j - 1] <= eps:
+                acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
-- 
2.43.0


From a977ee14f50a4b05266ef2ae540ecd72e3fa82eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 03/33] fix: keep double precision in PyTorch subsequence DTW,
 envelopes and callable metrics

The work arrays were allocated with torch's default single precision, so
double precision inputs silently lost half of their digits.
---
 tslearn/backend/pytorch_backend.py | 2 +-
 tslearn/metrics/dtw_variants.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index aaded82..0692a0a 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -182,7 +182,7 @@ else:
             if metric == "sqeuclidean":
                 return _torch.cdist(X, Y) ** 2
             if callable(metric):
-                distance_matrix = _torch.zeros(X.shape[0], Y.shape[0])
+                distance_matrix = _torch.zeros(X.shape[0], Y.shape[0], dtype=X.dtype)
                 for i in range(X.shape[0]):
                     for j in range(Y.shape[0]):
                         distance_matrix[i, j] = metric(X[i, ...], Y[j, ...])
diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index c34569c..5513f49 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -458,7 +458,7 @@ def _subsequence_cost_matrix(subseq, longseq, be=None):
     longseq = be.array(longseq)
     l1 = subseq.shape[0]
     l2 = longseq.shape[0]
-    cum_sum = be.full((l1 + 1, l2 + 1), be.inf)
+    cum_sum = be.full((l1 + 1, l2 + 1), be.inf, dtype=subseq.dtype)
     cum_sum[0, :] = 0.0
 
     for i in range(l1):
@@ -865,8 +865,8 @@ def _lb_envelope(time_series, radius, be=None):
     be = instantiate_backend(be, time_series)
     time_series = be.array(time_series)
     sz, d = be.shape(time_series)
-    envelope_up = be.empty((sz, d))
-    envelope_down = be.empty((sz, d))
+    envelope_up = be.empty((sz, d), dtype=time_series.dtype)
+    envelope_down = be.empty((sz, d), dtype=time_series.dtype)
 
     for i in range(sz):
         min_idx = i - radius
-- 
2.43.0


From 059a370d57a7f451005a6dda49df6060ed7e1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 04/33] fix: normalized cross-correlation of series of length
 one

cc[-0:] selected the whole array instead of nothing.
---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index d2bc8b2..417e58e 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -45,7 +45,7 @@ def normalized_cc(s1, s2, norm1=-1.0, norm2=-1.0):
                 axis=0,
             )
         )
-    cc = np.vstack((cc[-(sz - 1) :], cc[:sz]))
+    cc = np.vstack((cc[cc.shape[0] - (sz - 1) :], cc[:sz]))
     norm_cc = np.real(cc).sum(axis=-1) / denom
     return norm_cc
 
-- 
2.43.0


From 59bdb37b146220c676a854ebdfbb67fe56af6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 05/33] fix: 1d-SAX inverse transform returned uninitialised
 values

When the length is not a multiple of the number of segments the trailing
samples were never written (PAA and SAX already return zeros there).
---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index 1f703a6..d610781 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -209,7 +209,7 @@ def inv_transform_1d_sax(
     n_ts, sz, d_1d_sax = dataset_sax.shape
     d = d_1d_sax // 2
     seg_sz = original_size // sz
-    dataset_out = np.empty((n_ts, original_size, d))
+    dataset_out = np.zeros((n_ts, original_size, d))
 
     for i in prange(n_ts):
         for t in range(sz):
-- 
2.43.0


From 7bcf61755e7a39406b17f14c331e4433f65beb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 06/33] fix: 1d-SAX with scale=True scaled its input twice for
 the averages

---
 tslearn/piecewise/piecewise.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 32faea6..95ab45e 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -687,7 +687,6 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
         return X_slopes
 
     def _transform(self, X, y=None):
-        X = self._scale(X)
         n_ts, sz_raw, d = X.shape
         X_1d_sax = numpy.empty((n_ts, self.n_segments, 2 * d), dtype=int)
 
@@ -695,7 +694,7 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
         X_1d_sax_avg = SymbolicAggregateApproximation._transform(self, X)
 
         # Slope
-        X_slopes = self._get_slopes(X)
+        X_slopes = self._get_slopes(self._scale(X))
         X_1d_sax_slope = _paa_to_symbols(X_slopes, self.breakpoints_slope_)
 
         X_1d_sax[:, :, :d] = X_1d_sax_avg
-- 
2.43.0


From 1ea7961be217d7445f1f957b61bfccaa5713d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 07/33] fix: KernelKMeans overwrote the caller's kernel_params

The fitted bandwidth was written into the parameter dictionary, so a later
fit (of this or another estimator) with sigma="auto" silently reused it.
---
 tslearn/clustering/kmeans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index e9097e4..6e1b2b4 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -258,7 +258,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         if self.kernel_params is None:
             kernel_params = {}
         else:
-            kernel_params = self.kernel_params
+            kernel_params = self.kernel_params.copy()
         if self.kernel == "gak":
             if hasattr(self, "sigma_gak_"):
                 kernel_params["sigma"] = self.sigma_gak_
@@ -341,7 +341,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         rs = check_random_state(self.random_state)
 
         max_attempts = max(self.n_init, 10)
-        kernel_params = self._get_kernel_params()
+        kernel_params = {} if self.kernel_params is None else self.kernel_params
         if self.kernel == "gak":
             self.sigma_gak_ = kernel_params.get("sigma", 1.0)
             if self.sigma_gak_ == "auto":
-- 
2.43.0


From 57dd8f1efe11bd1f39065285999e33dabf8bb2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 08/33] fix: parallel cdist_soft_dtw_normalized with datasets
 of different maximum lengths

---
 tslearn/metrics/_soft_dtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 7e42cb2..f4c6a49 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -1183,7 +1183,7 @@ def _cdist_soft_dtw_normalized(
 
             self_dists = Parallel(n_jobs=n_jobs, prefer="threads", verbose=verbose)(
                 delayed(soft_dtw_variable_lenght)(ts)
-                for ts in be.vstack((dataset1, dataset2))
+                for ts in [*dataset1, *dataset2]
             )
             self_dists_dataset1 = be.array(self_dists[:len(dataset1)]).reshape(-1, 1)
             self_dists_dataset2 = be.array(self_dists[len(dataset1):]).reshape(-1, 1)
-- 
2.43.0


From 69c78bc3be10e014a6f6d50181cf700bd171ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 09/33] fix: SoftDTW on a distance object that computes PyTorch
 distances

---
 tslearn/metrics/softdtw_variants.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tslearn/metrics/softdtw_variants.py b/tslearn/metrics/softdtw_variants.py
index bfb8496..2cf8d74 100644
--- a/tslearn/metrics/softdtw_variants.py
+++ b/tslearn/metrics/softdtw_variants.py
@@ -675,13 +675,12 @@ class SoftDTW:
         self.R_: array-like, shape =(m + 2, n + 2)
             Accumulated cost matrix (stored after calling `compute`).
         """
+        if hasattr(D, "compute"):
+            D = D.compute()
         be = instantiate_backend(be, D)
         self.be = be
         self.compute_with_backend = compute_with_backend
-        if hasattr(D, "compute"):
-            self.D = D.compute()
-        else:
-            self.D = D
+        self.D = D
         self.D = self.be.cast(self.D, dtype=self.be.float64)
 
         # Allocate memory.
-- 
2.43.0


From 8055e7e0b3e34740e201b04959227786f227ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 10/33] fix: to_pyflux_dataset kept padding,
 from_tsfresh_dataset lost the series order

---
 tslearn/utils/cast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 5d13b3b..3edd9a9 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -452,7 +452,7 @@ def to_pyflux_dataset(X):
     X_ = check_dataset(X,
                        force_equal_length=True,
                        force_single_time_series=True)
-    X_pd = pd.DataFrame(X[0], dtype=float)
+    X_pd = pd.DataFrame(X_[0], dtype=float)
     X_pd.columns = ["dim_%d" % di for di in range(X_.shape[2])]
     return X_pd
 
@@ -632,7 +632,7 @@ def from_tsfresh_dataset(X):
                        for col_name in X.columns
                        if col_name not in ["id", "time"]]
     d = len(data_dimensions)
-    all_ids = set(X["id"])
+    all_ids = X["id"].unique()
     n = len(all_ids)
 
     max_sz = -1
-- 
2.43.0


From 1241a17cd8588b8c0ecb5bdf9d07a3f01f2ba2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 11/33] fix: TimeSeriesScalerMeanVariance amplified rounding
 errors of constant series

---
 tslearn/preprocessing/preprocessing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 647da0b..6dd9be6 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -361,7 +361,10 @@ class TimeSeriesScalerMeanVariance(TimeSeriesMixin, TransformerMixin, BaseEstima
 
         mean_ = numpy.nanmean(X, axis=axis, keepdims=True)
         std_ = numpy.nanstd(X, axis=axis, keepdims=True)
-        std_[std_ == 0.] = 1.
+        # Rounding errors can make the computed std of a constant non null
+        constant = (numpy.nanmin(X, axis=axis, keepdims=True)
+                    == numpy.nanmax(X, axis=axis, keepdims=True))
+        std_[constant | (std_ == 0.)] = 1.
 
         return mean_, std_
 
-- 
2.43.0


From 8dacb672949412a07ed51e748a6f12f62f1c5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 12/33] fix: linear imputation of a feature without any value
 raised an error

---
 tslearn/preprocessing/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 6dd9be6..0ff82bf 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -535,6 +535,8 @@ class TimeSeriesImputer(TimeSeriesMixin, TransformerMixin, BaseEstimator):
         for di in range(ts.shape[-1]):
             ts_di = ts[:, di]
             mask = numpy.isnan(ts_di)
+            if mask.all():
+                continue
             ts_di[mask] = numpy.interp(
                 numpy.nonzero(mask)[0],
                 numpy.nonzero(~mask)[0],
-- 
2.43.0


From e7e321d323432052d7e91c25b4c90aea78a9a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 13/33] fix: 1d-SAX distance used a segment centre shifted by
 half a sample

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index d610781..859bf2f 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -171,7 +171,7 @@ def cydist_1d_sax(
 
     for t in prange(sz):
         t0 = t * seg_sz
-        t_middle = float(t0) + 0.5 * seg_sz
+        t_middle = float(t0) + 0.5 * (seg_sz - 1)
         for di in range(d):
             avg1 = breakpoints_avg_middle_[sax1[t, di]]
             avg2 = breakpoints_avg_middle_[sax2[t, di]]
-- 
2.43.0


From 4a2187887c6289bd7e2192d342c945d1f10c7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 14/33] fix: SAX with scale=True amplified rounding errors of
 constant features

---
 tslearn/piecewise/piecewise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 95ab45e..3447f97 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -361,7 +361,10 @@ class SymbolicAggregateApproximation(PiecewiseAggregateApproximation):
             reshaped_X = X.reshape((-1, d))
             self.mu_ = numpy.nanmean(reshaped_X, axis=0)
             self.std_ = numpy.nanstd(reshaped_X, axis=0)
-            self.std_[self.std_ == 0.] = 1.
+            # Rounding errors can make the computed std of a constant non null
+            constant = (numpy.nanmin(reshaped_X, axis=0)
+                        == numpy.nanmax(reshaped_X, axis=0))
+            self.std_[constant | (self.std_ == 0.)] = 1.
 
         return super()._fit(X, y)
 
-- 
2.43.0


From 13525b4b1cb9f1dfa483e75cff170bbddd9aa69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 15/33] fix: DBA ignored the global constraint of metric_params

---
 tslearn/barycenters/dba.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 9373503..54602f8 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -13,6 +13,7 @@ from sklearn.utils import check_random_state
 from tslearn.backend import instantiate_backend
 from tslearn.barycenters.utils import _set_weights
 from tslearn.metrics._dtw import _njit_dtw_path
+from tslearn.metrics._masks import GLOBAL_CONSTRAINT_CODE
 from tslearn.utils import to_time_series_dataset, to_time_series
 from tslearn.utils.utils import _to_time_series
 
@@ -31,6 +32,15 @@ def _init_avg(X, barycenter_size):
         return f(xnew)
 
 
+def _njit_metric_params(metric_params):
+    """Copy of the metric parameters with the constraint name turned into the
+    code expected by the compiled function."""
+    metric_params = {} if metric_params is None else dict(metric_params)
+    constraint = metric_params.get("global_constraint")
+    metric_params["global_constraint"] = GLOBAL_CONSTRAINT_CODE.get(constraint, constraint)
+    return metric_params
+
+
 def _petitjean_assignment(
     X,
     barycenter,
@@ -41,8 +51,7 @@ def _petitjean_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _njit_metric_params(metric_params)
     n = X.shape[0]
     barycenter_size = barycenter.shape[0]
     assign = ([[] for _ in range(barycenter_size)],
@@ -273,8 +282,7 @@ def _mm_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _njit_metric_params(metric_params)
     n = X.shape[0]
     cost = 0.
     list_p_k = []
-- 
2.43.0


From f8b8aa5984c35297f4f702962b9973d51209d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 16/33] fix: KShape.predict read the norms of the training
 series

---
 tslearn/clustering/kshape.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 1f457a5..40d9126 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -150,9 +150,11 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
         self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
                                                   axis=(1, 2))
 
-    def _cross_dists(self, X):
+    def _cross_dists(self, X, norms=None):
+        if norms is None:
+            norms = self.norms_
         return 1. - cdist_normalized_cc(X, self.cluster_centers_,
-                                        norms1=self.norms_,
+                                        norms1=norms,
                                         norms2=self.norms_centroids_,
                                         self_similarity=False)
 
@@ -296,5 +298,5 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
         X_ = check_dims(X, X_fit_dims=self.cluster_centers_.shape)
         X_ = TimeSeriesScalerMeanVariance(mu=0., std=1.).fit_transform(X_)
-        dists = self._cross_dists(X_)
+        dists = self._cross_dists(X_, numpy.linalg.norm(X_, axis=(1, 2)))
         return dists.argmin(axis=1)
-- 
2.43.0


From 1e3c857237723b6d93ad3818dd786bc16585e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 17/33] fix: KShape used norms of discarded centroids

---
 tslearn/clustering/kshape.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 40d9126..55b8059 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -188,6 +188,8 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             if numpy.abs(old_inertia - self.inertia_) < self.tol or \
                     (old_inertia - self.inertia_ < 0):
                 self.cluster_centers_ = old_cluster_centers
+                self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
+                                                          axis=(1, 2))
                 self._assign(X)
                 break
 
@@ -252,8 +254,9 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             except EmptyClusterError:
                 if self.verbose:
                     print("Resumed because of empty cluster")
-        self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
-                                                  axis=(1, 2))
+        if best_correct_centroids is not None:
+            self.norms_centroids_ = numpy.linalg.norm(best_correct_centroids,
+                                                      axis=(1, 2))
         self._post_fit(X_, best_correct_centroids, min_inertia)
         return self
 
-- 
2.43.0


From 284e3080a0a469fbd924837abb1f9a2cd6a61ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 18/33] fix: clustering inertia_ was the one of the centroids
 before the last update

---
 tslearn/clustering/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tslearn/clustering/utils.py b/tslearn/clustering/utils.py
index a37e3d9..7db1d6c 100644
--- a/tslearn/clustering/utils.py
+++ b/tslearn/clustering/utils.py
@@ -229,7 +229,6 @@ class TimeSeriesCentroidBasedClusteringMixin(TimeSeriesMixin):
             self.cluster_centers_ = centroids
             self._assign(X_fitted)
             self._X_fit = X_fitted
-            self.inertia_ = inertia
         else:
             self._X_fit = None
         self.n_features_in_ = X_fitted.shape[-1]
-- 
2.43.0


From f5721c1c818c4bf3d2f181d599b28e636c67db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 19/33] fix: k-neighbors models kept the previous metric on
 refit and after errors

---
 tslearn/neighbors/neighbors.py | 96 +++++++++++++++-------------------
 1 file changed, 41 insertions(+), 55 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7f50628..3ae5817 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -59,25 +59,22 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if other_X is None:
             other_X = self._ts_fit
 
-        self._ts_metric = self.metric
-        self.metric = "precomputed"
-
         metric_params = self._get_metric_params()
 
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
-        if self._ts_metric == "dtw":
+        if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
                 **metric_params)
-        elif self._ts_metric == "ctw":
+        elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
-        elif self._ts_metric == "softdtw":
+        elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
-        elif self._ts_metric == "sax":
+        elif self.metric == "sax":
             X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
@@ -85,7 +82,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 self._sax._X_fit_dims_[1],
                 other_X,
                 n_jobs=self.n_jobs)
-        elif self._ts_metric == "frechet":
+        elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
@@ -94,7 +91,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             )
         else:
             raise ValueError("Invalid metric recorded: %s" %
-                             self._ts_metric)
+                             self.metric)
 
         return X_
 
@@ -178,9 +175,6 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             sample_range, numpy.argsort(full_dist_matrix[sample_range, ind])]
         dist = full_dist_matrix[sample_range, ind]
 
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
-
         if return_distance:
             return dist, ind
         else:
@@ -221,9 +215,8 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        pred = predict_func(X_)
-        caller.metric = caller._ts_metric
-        return pred
+        with caller._patch_attribute("metric", "precomputed"):
+            return predict_func(X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
@@ -327,25 +320,24 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X : array-like, shape (n_ts, sz, d)
             Training data.
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        use_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not use_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if use_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
+            with self._patch_attribute("metric", "precomputed"):
+                super().fit(self._X_fit, y)
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
+            super().fit(self._X_fit, y)
         return self
 
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
@@ -374,15 +366,12 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-            if self._ts_metric == "dtw":
+            if self.metric == "dtw":
                 X_ = _cdist_dtw(
                     X,
                     self._ts_fit,
@@ -390,11 +379,11 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                     verbose=self.verbose,
                     **metric_params
                 )
-            elif self._ts_metric == "ctw":
+            elif self.metric == "ctw":
                 X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "softdtw":
+            elif self.metric == "softdtw":
                 X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "frechet":
+            elif self.metric == "frechet":
                 X_ = _cdist_frechet(
                     X,
                     self._ts_fit,
@@ -404,14 +393,13 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                 )
             else:
                 raise ValueError("Invalid metric recorded: %s" %
-                                 self._ts_metric)
-            pred = KNeighborsTimeSeriesMixin.kneighbors(
-                self,
-                X=X_,
-                n_neighbors=n_neighbors,
-                return_distance=return_distance)
-            self.metric = self._ts_metric
-            return pred
+                                 self.metric)
+            with self._patch_attribute("metric", "precomputed"):
+                return KNeighborsTimeSeriesMixin.kneighbors(
+                    self,
+                    X=X_,
+                    n_neighbors=n_neighbors,
+                    return_distance=return_distance)
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -551,18 +539,16 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesClassifier
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        use_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not use_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if use_ts_metric:
             self._ts_fit = X
-            if self._ts_metric == 'sax':
+            if self.metric == 'sax':
                 if self.metric_params is not None:
                     self._ts_fit = self._sax_preprocess(X,
                                                         **self.metric_params)
@@ -572,12 +558,13 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
+            with self._patch_attribute("metric", "precomputed"):
+                super().fit(self._X_fit, y)
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -712,26 +699,25 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesRegressor
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        use_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=not use_ts_metric)
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if use_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
+            with self._patch_attribute("metric", "precomputed"):
+                super().fit(self._X_fit, y)
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
-- 
2.43.0


From fb602de9e24f57a2afa3e453cc30b1d870e93722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:28 +0000
Subject: [PATCH 20/33] fix: k-neighbors of the training series themselves

---
 tslearn/neighbors/neighbors.py | 43 ++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 3ae5817..ccfec9e 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -124,7 +124,10 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if n_neighbors is None:
             n_neighbors = self.n_neighbors
         if X is None:
-            X = self._X_fit
+            if self.metric in TSLEARN_VALID_METRICS:
+                X = self._ts_fit
+            else:
+                X = self._X_fit
             self_neighbors = True
         if self.metric == "precomputed":
             full_dist_matrix = X
@@ -132,13 +135,12 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
 
             if X.ndim == 2:  # sklearn-format case
                 X = X.reshape((X.shape[0], -1, self._d))
+            if hasattr(self, '_ts_fit') and self._ts_fit is not None:
+                fit_X = self._ts_fit
+            else:
                 fit_X = self._X_fit.reshape((self._X_fit.shape[0],
                                              -1,
                                              self._d))
-            elif hasattr(self, '_ts_fit') and self._ts_fit is not None:
-                fit_X = self._ts_fit
-            else:
-                fit_X = self._X_fit
 
             if self.metric in TSLEARN_VALID_METRICS:
                 full_dist_matrix = self._precompute_cross_dist(X,
@@ -154,6 +156,13 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                                  "'frechet', 'sax', 'euclidean', 'sqeuclidean'"
                                  " or 'cityblock')" % self.metric)
 
+        n_candidates = full_dist_matrix.shape[1]
+        if self_neighbors:
+            # The query point is not considered its own neighbor
+            full_dist_matrix = numpy.array(full_dist_matrix, dtype=float)
+            numpy.fill_diagonal(full_dist_matrix, numpy.inf)
+            n_candidates -= 1
+
         # Code similar to sklearn (sklearn/neighbors/base.py), to make sure
         # that TimeSeriesKNeighbor~(metric='euclidean') has the same results as
         # feeding a distance matrix to sklearn.KNeighbors~(metric='euclidean')
@@ -162,11 +171,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         # `kbin` smallest ones (but in arbitrary order) --> complexity: O(n)
         ind = numpy.argpartition(full_dist_matrix, kbin, axis=1)
 
-        if self_neighbors:
-            ind = ind[:, 1:]
-        if n_neighbors > full_dist_matrix.shape[1]:
-            n_neighbors = full_dist_matrix.shape[1]
-        ind = ind[:, :n_neighbors]
+        ind = ind[:, :min(n_neighbors, n_candidates)]
 
         n_ts = X.shape[0]
         sample_range = numpy.arange(n_ts)[:, None]
@@ -365,6 +370,13 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         ind : array
             Indices of the nearest points in the population matrix.
         """
+        if X is None:
+            self._is_fitted()
+            return KNeighborsTimeSeriesMixin.kneighbors(
+                self,
+                X=None,
+                n_neighbors=n_neighbors,
+                return_distance=return_distance)
         if self.metric in TSLEARN_VALID_METRICS:
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
@@ -402,13 +414,10 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                     return_distance=return_distance)
         else:
             check_is_fitted(self, '_X_fit')
-            if X is None:
-                X_ = None
-            else:
-                X = check_array(X, allow_nd=True)
-                X = to_time_series_dataset(X)
-                X_ = to_sklearn_dataset(X)
-                X_ = check_dims(X_, X_fit_dims=self._X_fit.shape, extend=False)
+            X = check_array(X, allow_nd=True)
+            X = to_time_series_dataset(X)
+            X_ = to_sklearn_dataset(X)
+            X_ = check_dims(X_, X_fit_dims=self._X_fit.shape, extend=False)
             return KNeighborsTimeSeriesMixin.kneighbors(
                 self,
                 X=X_,
-- 
2.43.0


From ef0c4021af5b0341f046a7cc4651fe8e464f7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 21/33] fix: SAX neighbours use the fitted SAX model in all
 k-neighbors estimators

---
 tslearn/neighbors/neighbors.py | 42 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index ccfec9e..e525fc8 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -28,18 +28,15 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
-    def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
-                        scale=False):
-        # Now SAX-transform the time series
-        if not hasattr(self, '_sax') or self._sax is None:
-            self._sax = SymbolicAggregateApproximation(
-                n_segments=n_segments,
-                alphabet_size_avg=alphabet_size_avg,
-                scale=scale
-            )
-        X_sax = self._sax.fit_transform(X)
-
-        return X_sax
+    def _sax_fit(self, X, n_segments=10, alphabet_size_avg=4,
+                 scale=False):
+        # SAX-transform the training time series
+        self._sax = SymbolicAggregateApproximation(
+            n_segments=n_segments,
+            alphabet_size_avg=alphabet_size_avg,
+            scale=scale
+        )
+        return self._sax.fit_transform(X)
 
     def _get_metric_params(self):
         if self.metric_params is None:
@@ -61,8 +58,11 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
 
         metric_params = self._get_metric_params()
 
-        X = check_array(X, allow_nd=True, force_all_finite=False)
-        X = to_time_series_dataset(X)
+        if X is not self._ts_fit:  # training series are already preprocessed
+            X = check_array(X, allow_nd=True, force_all_finite=False)
+            X = to_time_series_dataset(X)
+            if self.metric == "sax":
+                X = self._sax.transform(X)
 
         if self.metric == "dtw":
             X_ = _cdist_dtw(
@@ -75,7 +75,6 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
         elif self.metric == "sax":
-            X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
                 self._sax.breakpoints_avg_,
@@ -334,6 +333,8 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if use_ts_metric:
             self._ts_fit = X
+            if self.metric == 'sax':
+                self._ts_fit = self._sax_fit(X, **self._get_metric_params())
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
@@ -395,6 +396,8 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                 X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
             elif self.metric == "softdtw":
                 X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
+            elif self.metric == "sax":
+                X_ = self._precompute_cross_dist(X)
             elif self.metric == "frechet":
                 X_ = _cdist_frechet(
                     X,
@@ -558,12 +561,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         if use_ts_metric:
             self._ts_fit = X
             if self.metric == 'sax':
-                if self.metric_params is not None:
-                    self._ts_fit = self._sax_preprocess(X,
-                                                        **self.metric_params)
-                else:
-                    self._ts_fit = self._sax_preprocess(X)
-
+                self._ts_fit = self._sax_fit(X, **self._get_metric_params())
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
@@ -717,6 +715,8 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if use_ts_metric:
             self._ts_fit = X
+            if self.metric == 'sax':
+                self._ts_fit = self._sax_fit(X, **self._get_metric_params())
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
-- 
2.43.0


From af50512d000b5cc712fbf99832282b467418208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 22/33] fix: class probabilities of k-neighbors with the
 city-block metric

---
 tslearn/neighbors/neighbors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index e525fc8..0ea4aad 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -227,7 +227,9 @@ def _predict_generic(caller, X, predict_func):
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
-        return predict_func(X_)
+        # scikit-learn may check the number of columns of the flattened series
+        with caller._patch_attribute("n_features_in_", X_.shape[1]):
+            return predict_func(X_)
 
 
 class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
-- 
2.43.0


From 4a14ce1a8af9b327e75f58a2a5f12a07b1c037a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 23/33] fix: VARIMA undifferencing of order 2 and more

---
 tslearn/forecasting/_arima.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8299f11..1e84826 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -339,10 +339,11 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         return _loss(X, intercept, ar_coeffs, ma_coeffs)
 
     def _undifference(self, initial_values, prediction):
+        # Coefficients of y_{t-d}, ..., y_{t-1} in the d-th difference of y_t
         _ = np.array(
             [
-                (-(1 ** (j + 1))) * scipy.special.binom(j + 1, self.d)
-                for j in range(self.d)
+                (-1) ** j * scipy.special.binom(self.d, j)
+                for j in range(self.d, 0, -1)
             ]
         )
         res = prediction - np.dot(_, initial_values[:, -self.d :])
-- 
2.43.0


From 4829a915867faa532c58e0e5d4a583ab86475613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 24/33] fix: VARIMA read the autoregressive coefficients of
 multivariate series transposed

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 1e84826..ff9ccfb 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -296,7 +296,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         ma_start_params = compute_var(self.q, residuals)[1]
 
         return np.concatenate(
-            (constant_params, ar_start_params.T.ravel(), ma_start_params.T.ravel())
+            (constant_params, ar_start_params.ravel(), ma_start_params.ravel())
         )
 
     def _unravel_params(self, params, n_features_in=None):
-- 
2.43.0


From 9c781ca925a56a853d2cb7e11cdd3831276cc792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 25/33] fix: VARIMA moving-average residuals were used in
 reverse lag order

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index ff9ccfb..01027a9 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -101,7 +101,7 @@ def _varma_next(X, residuals, ar_coeffs, ma_coeffs, intercept):
         ar_forecast += np.dot(X[:, n_samples - k - 1], ar_coeffs[k])
     ma_forecast = np.zeros((n_ts, n_features_in))
     for k in range(ma_coeffs.shape[0]):
-        ma_forecast += np.dot(residuals[:, k], ma_coeffs[k])
+        ma_forecast += np.dot(residuals[:, residuals.shape[1] - k - 1], ma_coeffs[k])
 
     intercept = np.zeros(n_features_in) if intercept.shape[0] == 0 else intercept
 
-- 
2.43.0


From 45e5bccb9662580903508cbc12d94d94a5ac8403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:14 +0000
Subject: [PATCH 26/33] fix: stumpy implementations of MatrixProfile ignored
 scale=False

---
 tslearn/matrix_profile/matrix_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index b2ce67a..13f440f 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -170,7 +170,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
@@ -180,7 +181,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.gpu_stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "numpy":
-- 
2.43.0


From 231ccd7891d341d5080d077488527be9e02ec6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 27/33] fix: numpy MatrixProfile of padded series was NaN
 everywhere

---
 tslearn/matrix_profile/matrix_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 13f440f..04cfce5 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -200,6 +200,8 @@ class MatrixProfile(TimeSeriesMixin,
                         ~np.tri(n_segments, n_segments,
                                 -(band_width + 1), dtype=bool))
                 dists[band] = np.inf
+                # Windows with missing values (padding) are no candidates
+                dists[np.isnan(dists)] = np.inf
                 X_transformed[i_ts] = dists.min(axis=1, keepdims=True)
 
         else:
-- 
2.43.0


From 298952d1c94e2f40c0bf886e12d099862e69f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:42 +0000
Subject: [PATCH 28/33] fix: VARIMA forecasts of given shorter series used
 other residuals than after fit

---
 tslearn/forecasting/_arima.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 01027a9..1599d61 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -386,10 +386,11 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
             check_dims(X_, (0, 0, self.n_features_in_), check_n_features_only=True)
 
             # Retrieve last residuals and last timestamps needed to compute estimate
-            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
             seasonal_differrenced_X = self._seasonal_differencing(X_)
             differenced_X = np.diff(seasonal_differrenced_X, n=self.d, axis=1)
             last_residuals = self._loss(differenced_X)[1]
+            # Done last as it moves the padding of X_
+            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
 
         # Seasonal differencing
         sd_timestamps = self._seasonal_differencing(last_timestamps)
-- 
2.43.0


From 70e564f18f297794a7e529f2abe2b53055d79ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 29/33] fix: self-similarity matrix of normalized
 cross-correlations doubled some entries and had a zero diagonal

---
 tslearn/metrics/cycc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index 417e58e..e8e9262 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -80,12 +80,12 @@ def cdist_normalized_cc(dataset1, dataset2, norms1, norms2, self_similarity):
         for i_ts2 in prange(n_ts2):
             norms2[i_ts2] = np.linalg.norm(dataset2[i_ts2, ...])
     if self_similarity:
-        for i in prange(1, n_ts1):
-            for j in range(i):
+        for i in prange(n_ts1):
+            for j in range(i + 1):
                 dists[i, j] = normalized_cc(
                     dataset1[i], dataset2[j], norm1=norms1[i], norm2=norms2[j]
                 ).max()
-        dists += dists.T
+                dists[j, i] = dists[i, j]
     else:
         for i in prange(n_ts1):
             for j in range(n_ts2):
-- 
2.43.0


From 320e7b325d149ed21be4acf04a9c7eb3dc194a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:15 +0000
Subject: [PATCH 30/33] fix: series with different numbers of features were
 read out of bounds

---
 tslearn/metrics/_dtw.py         |  4 ++++
 tslearn/metrics/_frechet.py     |  4 ++++
 tslearn/metrics/_soft_dtw.py    |  4 ++++
 tslearn/metrics/dtw_variants.py | 16 ++++++++++++++++
 4 files changed, 28 insertions(+)

diff --git a/tslearn/metrics/_dtw.py b/tslearn/metrics/_dtw.py
index 71ff041..be9be1b 100644
--- a/tslearn/metrics/_dtw.py
+++ b/tslearn/metrics/_dtw.py
@@ -753,6 +753,10 @@ def cdist_dtw(
     dataset1 = to_time_series_dataset(dataset1, be=be)
     if dataset2 is not None:
         dataset2 = to_time_series_dataset(dataset2, be=be)
+        if dataset1.shape[2] != dataset2.shape[2]:
+            raise ValueError(
+                "All input time series must have the same feature size."
+            )
 
     return _cdist_dtw(
         dataset1=dataset1,
diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 53f8d41..f95e191 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -764,6 +764,10 @@ def cdist_frechet(
     dataset1 = to_time_series_dataset(dataset1, be=be)
     if dataset2 is not None:
         dataset2 = to_time_series_dataset(dataset2, be=be)
+        if dataset1.shape[2] != dataset2.shape[2]:
+            raise ValueError(
+                "All input time series must have the same feature size."
+            )
 
     return _cdist_frechet(
         dataset1=dataset1,
diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index f4c6a49..5956dba 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -884,6 +884,10 @@ def cdist_soft_dtw(
     dataset1 = to_time_series_dataset(dataset1, be=be)
     if dataset2 is not None:
         dataset2 = to_time_series_dataset(dataset2, be=be)
+        if dataset1.shape[2] != dataset2.shape[2]:
+            raise ValueError(
+                "All input time series must have the same feature size."
+            )
 
     return _cdist_soft_dtw(
         dataset1=dataset1,
diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index 5513f49..3367482 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -227,6 +227,9 @@ def dtw_limited_warping_length(s1, s2, max_length, be=None):
     s1 = to_time_series(s1, remove_nans=True, be=be)
     s2 = to_time_series(s2, remove_nans=True, be=be)
 
+    if s1.shape[1] != s2.shape[1]:
+        raise ValueError("All input time series must have the same feature size.")
+
     if max_length < max(s1.shape[0], s2.shape[0]):
         raise ValueError(
             "Cannot find a path of length {} to align given "
@@ -379,6 +382,9 @@ def dtw_path_limited_warping_length(s1, s2, max_length, be=None):
     s1 = to_time_series(s1, remove_nans=True, be=be)
     s2 = to_time_series(s2, remove_nans=True, be=be)
 
+    if s1.shape[1] != s2.shape[1]:
+        raise ValueError("All input time series must have the same feature size.")
+
     if max_length < max(s1.shape[0], s2.shape[0]):
         raise ValueError(
             "Cannot find a path of length {} to align given "
@@ -496,6 +502,10 @@ def subsequence_cost_matrix(subseq, longseq, be=None):
     be = instantiate_backend(be, subseq, longseq)
     subseq = to_time_series(subseq, remove_nans=True, be=be)
     longseq = to_time_series(longseq, remove_nans=True, be=be)
+
+    if subseq.shape[1] != longseq.shape[1]:
+        raise ValueError("All input time series must have the same feature size.")
+
     if be.is_numpy:
         return _njit_subsequence_cost_matrix(subseq, longseq)
     return _subsequence_cost_matrix(subseq, longseq, be=be)
@@ -1202,6 +1212,9 @@ def lcss(
     s1 = to_time_series(s1, remove_nans=True, be=be)
     s2 = to_time_series(s2, remove_nans=True, be=be)
 
+    if s1.shape[1] != s2.shape[1]:
+        raise ValueError("All input time series must have the same feature size.")
+
     mask = compute_mask_(
         s1,
         s2,
@@ -1521,6 +1534,9 @@ def lcss_path(
     s1 = to_time_series(s1, remove_nans=True, be=be)
     s2 = to_time_series(s2, remove_nans=True, be=be)
 
+    if s1.shape[1] != s2.shape[1]:
+        raise ValueError("All input time series must have the same feature size.")
+
     mask = compute_mask_(
         s1,
         s2,
-- 
2.43.0


From ce6ed2d1fa32f1832ab2d8235ce79ef24451b7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 31/33] fix: flatten multivariate shapelets in the same order
 as the patches in LocalSquaredDistanceLayer

---
 tslearn/shapelets/shapelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index acbdc25..60aea51 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -218,7 +218,7 @@ class LocalSquaredDistanceLayer(Layer):
         )
         y_ = ops.reshape(
             ops.transpose(self.kernel,
-                          (1, 0, 2)),
+                          (1, 2, 0)),
                          (shapelet_size * nb_features, self.nb_shapelets))
         xy = ops.dot(x_, y_)
         return (x_sq + y_sq - 2 * xy) / shapelet_size
-- 
2.43.0


From 7b61eb70bba73822a65ca8d9af69b725c29c5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 32/33] fix: package nested None values, byte strings and NumPy
 booleans in HDF5 models

---
 tslearn/bases/bases.py       | 36 ++++++++++++++++++++++--------------
 tslearn/hdftools/hdftools.py |  2 +-
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 760dedc..1d2e3b9 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -130,8 +130,7 @@ class BaseModelPackage(object):
             d['hyper_params'] = BaseModelPackage._listify(d['hyper_params'])
 
         elif output == 'hdf5':
-            d['hyper_params'] = \
-                BaseModelPackage._none_to_str(d['hyper_params'])
+            d = BaseModelPackage._none_to_str(d)
 
         if hyper_parameters_only:
             del d["model_params"]
@@ -141,11 +140,22 @@ class BaseModelPackage(object):
     @staticmethod
     def _none_to_str(mp):
         """Use str to store Nones. Used for HDF5"""
-        for k in mp.keys():
-            if mp[k] is None:
-                mp[k] = 'None'
+        return {
+            k: 'None' if v is None
+            else BaseModelPackage._none_to_str(v) if isinstance(v, dict)
+            else v
+            for k, v in mp.items()
+        }
 
-        return mp
+    @staticmethod
+    def _str_to_none(mp):
+        """Restore Nones stored as str. Used for HDF5"""
+        return {
+            k: None if isinstance(v, str) and v == 'None'
+            else BaseModelPackage._str_to_none(v) if isinstance(v, dict)
+            else v
+            for k, v in mp.items()
+        }
 
     @staticmethod
     def _listify(model_params):
@@ -201,10 +211,11 @@ class BaseModelPackage(object):
 
     @classmethod
     def _byte2string(cls, model):
-        for param_set in ['hyper_params', 'model_params']:
-            for k in model[param_set].keys():
-                if type(model[param_set][k]) == type(b''):
-                    model[param_set][k] = model[param_set][k].decode('utf-8')
+        for k in model.keys():
+            if isinstance(model[k], bytes):
+                model[k] = model[k].decode('utf-8')
+            elif isinstance(model[k], dict):
+                cls._byte2string(model[k])
         return model
 
     def to_hdf5(self, path):
@@ -249,10 +260,7 @@ class BaseModelPackage(object):
         model = hdftools.load_dict(path, 'data')
         model = cls._byte2string(model)
 
-        for k in model['hyper_params'].keys():
-            if isinstance(model['hyper_params'][k], str):
-                if model['hyper_params'][k] == 'None':
-                    model['hyper_params'][k] = None
+        model = BaseModelPackage._str_to_none(model)
 
         return cls._organize_model(cls, model)
 
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 16239fe..04529ce 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -82,7 +82,7 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
                 # h5file[path + key].attrs['dtype'] = item.dtype.str
 
         # single pieces of data
-        elif isinstance(item, (str, int, np.int8,
+        elif isinstance(item, (str, int, np.bool_, np.int8,
                                np.int16, np.int32, np.int64, float,
                                np.float16, np.float32, np.float64)):
             h5file[path + key] = item
-- 
2.43.0


From a4507e643afcabe85d2c940cec2f2f0e4938e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 33/33] fix: package every fitted attribute nearest-neighbour,
 matrix-profile and VARIMA models need

---
 tslearn/forecasting/_arima.py            | 24 +++++++++
 tslearn/hdftools/hdftools.py             |  1 +
 tslearn/matrix_profile/matrix_profile.py |  5 ++
 tslearn/neighbors/neighbors.py           | 67 +++++++++++++-----------
 4 files changed, 67 insertions(+), 30 deletions(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 1599d61..762ad7a 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -179,6 +179,30 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _is_fitted(self):
+        check_is_fitted(self)
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({
+            attr: getattr(self, attr)
+            for attr in ('_min_samples', '_last_residuals', '_last_timestamps')
+        })
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        inst = BaseModelPackage._organize_model(cls, model)
+        d = inst.n_features_in_
+        # Empty arrays lose their shape in JSON
+        inst.ar_coeffs_ = inst.ar_coeffs_.reshape((inst.p, d, d))
+        inst.ma_coeffs_ = inst.ma_coeffs_.reshape((inst.q, d, d))
+        inst._last_residuals = inst._last_residuals.reshape((inst.n_ts_, inst.q, d))
+        if not inst._last_timestamps.size:
+            inst._last_timestamps = inst._last_timestamps.reshape((inst.n_ts_, 0, d))
+        return inst
+
     def fit(self, X, y=None):
         """Fits a VARIMA model.
 
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 04529ce..9ebbe42 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -88,6 +88,7 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
             h5file[path + key] = item
 
         elif isinstance(item, dict):
+            h5file.require_group(path + key)
             _dicts_to_group(
                 h5file, "{}{}/".format(path, key), item, raise_meta_fail
             )
diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 04cfce5..159a680 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -130,6 +130,11 @@ class MatrixProfile(TimeSeriesMixin,
         check_is_fitted(self, '_X_fit_dims')
         return True
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({'_X_fit_dims': np.array(self._X_fit_dims)})
+        return params
+
     def _fit(self, X, y=None):
         self._X_fit_dims = X.shape
         self.n_features_in_ = X.shape[-1]
diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 0ea4aad..77b3389 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -28,6 +28,43 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
+    def _is_fitted(self):
+        check_is_fitted(self, '_X_fit')
+        return True
+
+    def _get_model_params(self):
+        params = {
+            attr: getattr(self, attr)
+            for attr in ('_X_fit', '_ts_fit', '_d', '_y', '_fit_X', '_fit_method',
+                         'classes_', 'outputs_2d_', 'n_features_in_',
+                         'n_samples_fit_', 'effective_metric_',
+                         'effective_metric_params_')
+            if hasattr(self, attr)
+        }
+        if self.metric == 'sax':
+            params.update({
+                '_sax' + attr: value
+                for attr, value in self._sax._get_model_params().items()
+            })
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        sax_params = {
+            attr[len('_sax'):]: model['model_params'].pop(attr)
+            for attr in list(model['model_params']) if attr.startswith('_sax')
+        }
+        inst = BaseModelPackage._organize_model(cls, model)
+        inst._tree = None
+        if sax_params:
+            inst._sax = SymbolicAggregateApproximation(**{
+                'n_segments': 10, 'alphabet_size_avg': 4,
+                **inst._get_metric_params()
+            })
+            for attr, value in sax_params.items():
+                setattr(inst._sax, attr, value)
+        return inst
+
     def _sax_fit(self, X, n_segments=10, alphabet_size_avg=4,
                  scale=False):
         # SAX-transform the training time series
@@ -304,20 +341,6 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            check_is_fitted(self, '_ts_fit')
-        else:
-            check_is_fitted(self, '_X_fit')
-
-        return True
-
-    def _get_model_params(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            return {'_ts_fit': self._ts_fit}
-        else:
-            return {'_X_fit': self._X_fit}
-
     def fit(self, X, y=None):
         """Fit the model using X as training data
 
@@ -522,22 +545,6 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        check_is_fitted(self, '_ts_fit')
-        return True
-
-    def _get_model_params(self):
-        return {
-            '_X_fit': self._X_fit,
-            '_ts_fit': self._ts_fit,
-            '_d': self._d,
-            'classes_': self.classes_,
-            '_y': self._y,
-            'outputs_2d_': self.outputs_2d_,
-            '_fit_X': self._fit_X,
-            '_fit_method': self._fit_method
-        }
-
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
 
-- 
2.43.0

