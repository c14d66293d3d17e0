From c626e98e672fbc05c1531cb5805335295714b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 01/43] fix: seed the generator of each dilation inside the
 parallel sampling loops

The seed set before the loop only reaches the calling thread, so shapelets
depended on the number of threads and their scheduling.
---
 convst/transformers/_multivariate_same_length.py     | 8 +++++++-
 convst/transformers/_multivariate_variable_length.py | 8 +++++++-
 convst/transformers/_univariate_same_length.py       | 8 +++++++-
 convst/transformers/_univariate_variable_length.py   | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/convst/transformers/_multivariate_same_length.py b/convst/transformers/_multivariate_same_length.py
index ba301be..8778348 100644
--- a/convst/transformers/_multivariate_same_length.py
+++ b/convst/transformers/_multivariate_same_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, uniform, random, randint, seed
 from numpy import (
     unique, where, percentile, int64, bool_, float64, concatenate,
     dot, log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std,
@@ -164,6 +164,11 @@ def M_SL_generate_shapelet(
     )
     #Initialize self similarity mask
     unique_dil = unique(dilations)
+    # Each dilation gets its own seed: the threads running the parallel loop do
+    # not share the generator seeded above.
+    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)
+    for i in range(unique_dil.shape[0]):
+        dil_seeds[i] = randint(0, 4294967295)
     mask_sampling = ones(
         (2,unique_dil.shape[0],n_samples,n_features,n_timestamps), dtype=bool_
     )
@@ -175,6 +180,7 @@ def M_SL_generate_shapelet(
 
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(dil_seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_multivariate_variable_length.py b/convst/transformers/_multivariate_variable_length.py
index 025781c..fd7ca8c 100644
--- a/convst/transformers/_multivariate_variable_length.py
+++ b/convst/transformers/_multivariate_variable_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, uniform, random, randint, seed
 from numpy import (
     unique, where, percentile, int64, bool_, float64, concatenate, any as _any,
     dot, log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std,
@@ -168,6 +168,11 @@ def M_VL_generate_shapelet(
     )
     #Initialize self similarity mask
     unique_dil = unique(dilations)
+    # Each dilation gets its own seed: the threads running the parallel loop do
+    # not share the generator seeded above.
+    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)
+    for i in range(unique_dil.shape[0]):
+        dil_seeds[i] = randint(0, 4294967295)
     mask_sampling = ones(
         (2,unique_dil.shape[0],n_samples,n_features,max_len), dtype=bool_
     )
@@ -182,6 +187,7 @@ def M_VL_generate_shapelet(
     
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(dil_seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_univariate_same_length.py b/convst/transformers/_univariate_same_length.py
index 292d6d5..f3577b5 100644
--- a/convst/transformers/_univariate_same_length.py
+++ b/convst/transformers/_univariate_same_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, uniform, random, randint, seed
 from numpy import (
     unique, where, percentile, all as _all, int64, bool_,
     log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std
@@ -148,12 +148,18 @@ def U_SL_generate_shapelet(
     )
     #Initialize self similarity mask
     unique_dil = unique(dilations)
+    # Each dilation gets its own seed: the threads running the parallel loop do
+    # not share the generator seeded above.
+    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)
+    for i in range(unique_dil.shape[0]):
+        dil_seeds[i] = randint(0, 4294967295)
     mask_sampling = ones(
         (2,unique_dil.shape[0],n_samples,n_timestamps), dtype=bool_
     )
 
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(dil_seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_univariate_variable_length.py b/convst/transformers/_univariate_variable_length.py
index 13e5afd..cda80fa 100644
--- a/convst/transformers/_univariate_variable_length.py
+++ b/convst/transformers/_univariate_variable_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, uniform, random, randint, seed
 from numpy import (
     unique, where, percentile, all as _all, int64, bool_, any as _any,
     log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std
@@ -160,6 +160,11 @@ def U_VL_generate_shapelet(
     
     #Initialize self similarity mask
     unique_dil = unique(dilations)
+    # Each dilation gets its own seed: the threads running the parallel loop do
+    # not share the generator seeded above.
+    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)
+    for i in range(unique_dil.shape[0]):
+        dil_seeds[i] = randint(0, 4294967295)
     mask_sampling = ones(
         (2,unique_dil.shape[0],n_samples,max_len), dtype=bool_
     )
@@ -169,6 +174,7 @@ def U_VL_generate_shapelet(
     
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(dil_seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
-- 
2.43.0


From f5a2bc00b54988b02411864d8c89875d7e8597e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 02/43] fix: accept univariate_variable as transform_type

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fdeac01..0775712 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -485,7 +485,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_transform_type(self, transform_type):
         transform_type = transform_type.lower()
-        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
+        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From 96be9544e00b9b40e4c6929e0148fcb0fd7c57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 03/43] fix: subsample series lengths together with the
 variable length series

---
 convst/transformers/rdst.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 0775712..1daa35d 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -200,6 +200,7 @@ class R_DST(BaseEstimator, TransformerMixin):
 
         """
         self._set_fit_transform(X)
+        X_len = None
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
@@ -215,10 +216,12 @@ class R_DST(BaseEstimator, TransformerMixin):
             id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
             X = X[id_X]
             y = y[id_X]
+            X_len = X_len[id_X] if X_len is not None else None
         elif self.n_samples > 1.0:
             id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
             X = X[id_X]
             y = y[id_X]
+            X_len = X_len[id_X] if X_len is not None else None
         
         n_samples, n_features, _ = X.shape
         
-- 
2.43.0


From 43e54ccd19fdaf14c5e674f090d24233efb0c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 04/43] fix: draw the subsample of training series from
 random_state

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 1daa35d..f22a827 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -213,12 +213,12 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
             X_len = X_len[id_X] if X_len is not None else None
         elif self.n_samples > 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
             X_len = X_len[id_X] if X_len is not None else None
-- 
2.43.0


From 6125f5e17fcb63d76b9b790368e5f92d70f18c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 05/43] fix: recognise every integer and floating dtype as
 equal length input

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index f22a827..45450da 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -322,7 +322,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                 return STR_MULTIVARIATE_VARIABLE
             else:
                 return STR_UNIVARIATE_VARIABLE
-        elif X.dtype == np.int_ or X.dtype == np.float_:
+        elif np.issubdtype(X.dtype, np.integer) or np.issubdtype(X.dtype, np.floating):
             #Even length
             X = check_array_3D(X)
             if X.shape[1] > 1:
-- 
2.43.0


From 8b4d36f56a9fef08601322be68d1bf78108561cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 06/43] fix: keep the user parameters of R_DST unchanged when
 fitting

Lengths, minimum length, channels, data kind and generator state of a first
fit leaked into the next one.
---
 convst/transformers/rdst.py | 45 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 45450da..8439dd5 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -132,6 +132,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_jobs=1
     ):
         self.transform_type = self._validate_transform_type(transform_type)
+        self._auto_transform_type = self.transform_type == 'auto'
         self.phase_invariance = check_is_boolean(phase_invariance)
         self.alpha = check_is_numeric(alpha)
         self.normalize_output = check_is_boolean(normalize_output)
@@ -150,7 +151,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
         self.percentiles = self._validate_percentiles(percentiles)
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         if isinstance(n_jobs, bool):
             self.n_jobs=n_jobs
         else:
@@ -159,10 +161,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
-    def _set_lengths(self):
+    def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             if self.shapelet_lengths.dtype == float:
-                return np.floor(self.min_len*self.shapelet_lengths)
+                return np.floor(min_len*self.shapelet_lengths)
             else:
                 return self.shapelet_lengths
         else:
@@ -170,10 +172,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b1 = self.shapelet_lengths_bounds[1]
             
             if isinstance(b0, float):
-                b0 = int(b0*self.min_len)
+                b0 = int(b0*min_len)
             min_l = max(3,b0)
             if isinstance(b1, float):
-                b1 = int(b1*self.min_len)
+                b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
             lengths = np.asarray(list(range(min_l, max_l)))
@@ -204,11 +206,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            if self.min_len is None:
-                self.min_len = X_len.min()
+            min_len = X_len.min() if self.min_len is None else self.min_len
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            self.min_len = X.shape[2]
+            min_len = X.shape[2]
         
         if self.n_samples is None:
             pass
@@ -225,32 +226,30 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         n_samples, n_features, _ = X.shape
         
-        if self.max_channels is None:
-            self.max_channels = n_features
+        max_channels = n_features if self.max_channels is None else self.max_channels
         
-
-        self.shapelet_lengths = self._set_lengths()
-        
-        shapelet_lengths, seed = self._check_params(self.min_len)
+        shapelet_lengths, seed = self._check_params(
+            self._set_lengths(min_len), min_len
+        )
         # Generate the shapelets
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.min_len, X_len, self.prime_dilations
+                self.phase_invariance, min_len, X_len, self.prime_dilations
             )
         elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.max_channels, self.min_len, X_len,
+                self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
         elif self.transform_type == STR_MUTLIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
-                self.phase_invariance, self.max_channels, self.prime_dilations
+                self.phase_invariance, max_channels, self.prime_dilations
             )
         elif self.transform_type == STR_UNIVARIATE:
             self.shapelets_ = self.fitter(
@@ -349,7 +348,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         None.
 
         """
-        if self.transform_type == 'auto':
+        if self._auto_transform_type or self.transform_type == 'auto':
             _type = self._auto_class(X)
             self.transform_type = _type
         else:
@@ -430,7 +429,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, n_timestamps):
+    def _check_params(self, shapelet_lengths, n_timestamps):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -438,6 +437,8 @@ class R_DST(BaseEstimator, TransformerMixin):
 
         Parameters
         ----------
+        shapelet_lengths : array
+            The shapelet lengths resolved for the training data.
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
@@ -463,11 +464,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise TypeError("'n_shapelets' must be an integer (got {})."
                             .format(self.n_shapelets))
 
-        if not isinstance(self.shapelet_lengths, (list, tuple, np.ndarray)):
+        if not isinstance(shapelet_lengths, (list, tuple, np.ndarray)):
             raise TypeError("'shapelet_lengths' must be a list, a tuple or "
-                            "an array (got {}).".format(self.shapelet_lengths))
+                            "an array (got {}).".format(shapelet_lengths))
         
-        shapelet_lengths = check_array_1D(self.shapelet_lengths).astype(np.int64)
+        shapelet_lengths = check_array_1D(shapelet_lengths).astype(np.int64)
         if not np.all(1 < shapelet_lengths):
             raise ValueError("All the values in 'shapelet_lengths' must be "
                              "greater than 1, but got {} ({} < 1)."
-- 
2.43.0


From 70864ad6215b5c29cf6be5e0493a041e378daedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 07/43] fix: apply normalize_output to the argmin and
 occurrence features

---
 convst/classifiers/rdst_ensemble.py | 1 +
 convst/transformers/rdst.py         | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index eac8523..807351a 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -244,6 +244,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         lengths_bounds_reduction=self.lengths_bounds_reduction,
                         transform_type=self.transform_type,
                         percentiles=self.percentiles,
+                        normalize_output=self.normalize_output,
                         min_len=self.min_len,
                         max_channels=self.max_channels,
                         random_state=self.random_state,
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 8439dd5..ccb9a81 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -294,6 +294,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
+            X_len = np.full(X.shape[0], X.shape[2])
+        if self.normalize_output:
+            # argmin and shapelet occurrence, relative to the series length
+            X_new[:, 1::3] /= X_len.reshape(-1, 1)
+            X_new[:, 2::3] /= X_len.reshape(-1, 1)
         return X_new
     
     def _auto_class(self, X):
-- 
2.43.0


From b7dc64dc18df4e37de4c114324bbd5ba0111b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 08/43] fix: accept the documented max_channels parameter in
 R_DST_Ridge

---
 convst/classifiers/rdst_ridge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/classifiers/rdst_ridge.py b/convst/classifiers/rdst_ridge.py
index a94d7e4..7477609 100644
--- a/convst/classifiers/rdst_ridge.py
+++ b/convst/classifiers/rdst_ridge.py
@@ -122,6 +122,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         class_weight=None,
         fit_intercept=True,
         alphas_ridge=list(np.logspace(-4, 4, 20)),
+        max_channels=None,
     ):
         self.alphas_ridge = alphas_ridge
         self.class_weight = class_weight
@@ -145,6 +146,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
             set_num_threads(self.n_jobs)
         self.random_state = random_state
         self.min_len = min_len
+        self.max_channels = max_channels
 
     def _more_tags(self):
         return {
@@ -178,6 +180,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
             percentiles=self.percentiles,
             random_state=self.random_state,
             min_len=self.min_len,
+            max_channels=self.max_channels,
         )
 
     def fit(self, X, y):
-- 
2.43.0


From 506de004527a90847612b2b1100d51a25a5dd580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 09/43] fix: predict the original labels in R_DST_Ensemble

---
 convst/classifiers/rdst_ensemble.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 807351a..07df264 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -49,9 +49,10 @@ class _internalRidgeCV(RidgeClassifierCV):
             alpha_idx = np.where(self.alphas == self.alpha_)[0]
             cv_vals = self.cv_values_[:, :, alpha_idx]
             if cv_vals.shape[1] == 1:
-                return accuracy_score((cv_vals[:, 0] > 0).astype(int), y_train)
+                idx_class = (cv_vals[:, 0, 0] > 0).astype(int)
             else:
-                return accuracy_score(cv_vals.argmax(axis=1), y_train)
+                idx_class = cv_vals[:, :, 0].argmax(axis=1)
+            return accuracy_score(self.classes_[idx_class], y_train)
         else:
             raise ValueError(
                 "LOOCV training accuracy is only available with store_cv_values to True"
@@ -260,6 +261,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
 
         self.models = models
+        self.classes_ = models[0]['_internalridgecv'].classes_
         self.model_weights = [
             model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
             for model in models
@@ -276,4 +278,4 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
         # n_samples, n_models
         preds_proba = np.asarray(preds_proba).sum(axis=0)
-        return preds_proba.argmax(axis=1)
+        return self.classes_[preds_proba.argmax(axis=1)]
-- 
2.43.0


From 61e4d99021bcab7f681e2d8369b557ebd0b8cd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 10/43] fix: give each model of R_DST_Ensemble its own seed

---
 convst/classifiers/rdst_ensemble.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 07df264..8090210 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -179,7 +179,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths_bounds = shapelet_lengths_bounds
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.percentiles = percentiles
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         self.max_channels = max_channels
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
@@ -226,6 +227,10 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def fit(self, X, y):
         self._manage_n_jobs()
         set_num_threads(self.n_jobs_rdst)
+        # One seed per model, drawn before the models are fitted concurrently
+        seeds = check_random_state(self.random_state).randint(
+            np.iinfo(np.int32).max, size=len(self.input_transformers)
+        )
         models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
@@ -248,7 +253,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         normalize_output=self.normalize_output,
                         min_len=self.min_len,
                         max_channels=self.max_channels,
-                        random_state=self.random_state,
+                        random_state=int(seeds[i]),
                     ),
                     _internalRidgeCV(
                         alphas=self.alphas_ridge,
-- 
2.43.0


From c595529488a7202a39a11ac6741521341f5ab8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 11/43] fix: keep the requested n_jobs of R_DST_Ensemble when
 fitting

---
 convst/classifiers/rdst_ensemble.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 8090210..ec4ee7d 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -221,8 +221,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def _manage_n_jobs(self):
         total_jobs = check_n_jobs(self.n_jobs)
-        self.n_jobs = min(len(self.input_transformers), total_jobs)
-        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs)
+        self._n_jobs_models = min(len(self.input_transformers), total_jobs)
+        self.n_jobs_rdst = max(1, total_jobs // self._n_jobs_models)
 
     def fit(self, X, y):
         self._manage_n_jobs()
@@ -231,7 +231,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         seeds = check_random_state(self.random_state).randint(
             np.iinfo(np.int32).max, size=len(self.input_transformers)
         )
-        models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
+        models = Parallel(n_jobs=self._n_jobs_models, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
                 y,
@@ -276,7 +276,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def predict(self, X):
         check_is_fitted(self, ["model_weights"])
         preds_proba = Parallel(
-            n_jobs=self.n_jobs, prefer=self.prefer, require=self.require
+            n_jobs=self._n_jobs_models, prefer=self.prefer, require=self.require
         )(
             delayed(_parallel_predict)(X, self.models[i], self.model_weights[i])
             for i in range(len(self.model_weights))
-- 
2.43.0


From 1b230180eaebb13877d8c2b31794a9f1dcacd0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 12/43] fix: match whole series when indexing grid search
 splits

---
 convst/utils/experiments_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 3f89a64..2b8feae 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -157,8 +157,8 @@ class _sklearn_cv:
                 X_train, y_train, X_test, y_test = _resample(
                     X_train_0, y_train_0, X_test_0, y_test_0, i
                 )
-            idx_Train = [np.where((X == X_train[j]).all(axis=2))[0][0] for j in range(X_train.shape[0])]
-            idx_Test = [np.where((X == X_test[j]).all(axis=2))[0][0] for j in range(X_test.shape[0])]
+            idx_Train = [np.where((X == X_train[j]).all(axis=(1, 2)))[0][0] for j in range(X_train.shape[0])]
+            idx_Test = [np.where((X == X_test[j]).all(axis=(1, 2)))[0][0] for j in range(X_test.shape[0])]
             yield idx_Train, idx_Test
     
     def get_n_splits(self, X=None, y=None, groups=None):
-- 
2.43.0


From 4b50c43c6a313fcd08b4b5533e1bcb2a59f8f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 13/43] fix: pool variable length datasets in
 load_UCR_UEA_dataset

---
 convst/utils/dataset_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index ec11c0f..2ac6b60 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -133,9 +133,10 @@ def load_UCR_UEA_dataset(name, normalize=False):
     X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split(
         name, normalize=normalize
     )
-    return np.concatenate((X_train, X_test), axis=0), np.concatenate(
-        (y_train, y_test), axis=0
-    )
+    y = np.concatenate((y_train, y_test), axis=0)
+    if isinstance(X_train, list):
+        return X_train + list(X_test), y
+    return np.concatenate((X_train, X_test), axis=0), y
 
 
 def return_all_dataset_names():
-- 
2.43.0


From 6e12251a8a1b3ab843d6a1a627b38cb1ada0c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 14/43] fix: report multivariate models as not implemented in
 RDST_interpreter

---
 convst/interpreters/rdst_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2205679..2cf02f7 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -227,13 +227,13 @@ class RDST_interpreter():
             )
 
     def _get_params(self, id_shapelet):
-        values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
         phase = self.RDST.phase_invariance
         if self.RDST.transform_type in ['multivariate', 'multivariate_variable']:
             raise NotImplementedError(
                 'Interpreter is not yet implemented for multivariate data'
             )
         else:
+            values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
             length_ = lengths[id_shapelet]
             values_ = values[id_shapelet, :length_]
             dilation = dilations[id_shapelet]
-- 
2.43.0


From 3dc4b3636e62a39c5d643b66a52954d67641036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 15/43] fix: support single row and single column arrays in
 np_all

---
 convst/utils/numba_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/utils/numba_utils.py b/convst/utils/numba_utils.py
index e557a32..6f0e4fd 100644
--- a/convst/utils/numba_utils.py
+++ b/convst/utils/numba_utils.py
@@ -18,8 +18,8 @@ def np_all(x, axis=None):
     # ndarray.all with axis arguments for 2D arrays.
     @register_jitable
     def _np_all_axis0(arr):
-        out = np.logical_and(arr[0], arr[1])
-        for v in iter(arr[2:]):
+        out = np.logical_and(arr[0], arr[0])
+        for v in iter(arr[1:]):
             for idx, v_2 in enumerate(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
@@ -31,8 +31,8 @@ def np_all(x, axis=None):
 
     @register_jitable
     def _np_all_axis1(arr):
-        out = np.logical_and(arr[:, 0], arr[:, 1])
-        for idx, v in enumerate(arr[:, 2:]):
+        out = np.logical_and(arr[:, 0], arr[:, 0])
+        for idx, v in enumerate(arr[:, 1:]):
             for v_2 in iter(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
-- 
2.43.0


From a52517dfbd8c78f28acc6a2816a4e86d1d27090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 16/43] fix: pair accuracies by dataset in the Wilcoxon-Holm
 analysis

---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index ca5a03d..204642d 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -246,6 +246,8 @@ def _wilcoxon_holm(alpha=0.05, df_perf=None):
     Applies the wilcoxon signed rank test between each pair of algorithm and then use Holm
     to reject the null's hypothesis
     """
+    # same dataset order for all classifiers, as accuracies are compared in pairs
+    df_perf = df_perf.sort_values('dataset_name')
     # count the number of tested datasets per classifier
     df_counts = pd.DataFrame({'count': df_perf.groupby(
         ['classifier_name']).size()}).reset_index()
-- 
2.43.0


From 9c5712d3be20f20509e599104ffe265d28c4d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 17/43] fix: save the critical difference diagram to the given
 path

---
 convst/utils/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index 204642d..bc85195 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -221,7 +221,8 @@ def draw_cd_diagram(df_perf=None, alpha=0.05, title=None, width=10, labels=False
         if title:
             plt.title(title, fontdict=font, y=0.9, x=0.5)
         if path is None:
-            plt.savefig('cd-diagram.png', bbox_inches='tight')
+            path = 'cd-diagram.png'
+        plt.savefig(path, bbox_inches='tight')
 
 def _form_cliques(p_values, nnames):
     """
-- 
2.43.0


From 453076b02a4970936172e9900c1fcf7f0df1d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 18/43] fix: reject series of 3 timestamps when the shapelet
 lengths do not fit

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index ccb9a81..aedd30a 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -480,7 +480,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                              .format(shapelet_lengths, shapelet_lengths.min()))
             
         if not np.all(shapelet_lengths <= n_timestamps):
-            if n_timestamps < 3:
+            if n_timestamps < 4:
                 raise ValueError('Input data goint {} timestamps, at least 4 are requiered. Input format should be (n_samples, n_features, n_timestamps)'.format(n_timestamps))
             else:
                 warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, n_timestamps//2))
-- 
2.43.0


From 506e0f06d2d5602af4380a1f2c690aa1df4d6b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 19/43] fix: reject percentiles that are not a pair of values

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index aedd30a..4e0a5a7 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -501,7 +501,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_percentiles(self, percentiles):
         percentiles = check_array_1D(percentiles)
-        if percentiles.dtype == int or percentiles.dtype == float :
+        if percentiles.shape[0] == 2 and (percentiles.dtype == int or percentiles.dtype == float):
             if percentiles[0] <= percentiles[1]:
                 return percentiles
         raise ValueError('Wrong percetniles parameter value, got {}, expected a numerical array of size 2'.format(percentiles))
-- 
2.43.0


From fd32e8d15f04dade59f9afe107434c257d86c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 20/43] fix: support a single column of panels in pairwise_plot

---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index bc85195..038c519 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -84,6 +84,8 @@ def pairwise_plot(
     fig, ax = plt.subplots(
         ncols=ncols, nrows=nrows, figsize=figsize, sharey=True, dpi=dpi
     )
+    if nrows > 1:
+        ax = np.asarray(ax).reshape(nrows, ncols)
     props = dict(boxstyle='round', facecolor='wheat', alpha=0.75)
     for i, comp in enumerate(competitors):
         if nrows > 1:
-- 
2.43.0


From ae6763b62386ac98c4f4b39df1690ba1a07ce443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 21/43] fix: count every dataset once in the pairwise plot
 summary

---
 convst/utils/plot_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index 038c519..a3a1a0c 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -122,7 +122,7 @@ def pairwise_plot(
             ax[i // ncols, i % ncols].set_xlabel(comp)
     
             textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                (x+margin >= y) & (x-margin <= y)), sum(x-margin > y))
             ax[i // ncols, i % ncols].text(0.05, 0.95, textstr, transform=ax[i // ncols, i % ncols].transAxes, fontsize=14,
                                            verticalalignment='top', bbox=props)
         if nrows == 1:
@@ -161,7 +161,7 @@ def pairwise_plot(
                 ax.set_xlabel(comp)
     
                 textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                    (x+margin >= y) & (x-margin <= y)), sum(x-margin > y))
                 ax.text(0.05, 0.95, textstr, transform=ax.transAxes, fontsize=14,
                                                verticalalignment='top', bbox=props)
             else:
@@ -199,7 +199,7 @@ def pairwise_plot(
                 ax[i % ncols].set_xlabel(comp)
         
                 textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                    (x+margin >= y) & (x-margin <= y)), sum(x-margin > y))
                 ax[i % ncols].text(0.05, 0.95, textstr, transform=ax[i % ncols].transAxes, fontsize=14,
                                                verticalalignment='top', bbox=props)
     return fig
-- 
2.43.0


From e211313531cc0eaaf367206eac30943c2ab95f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 22/43] fix: support variable length series in Derivate and
 Periodigram

---
 convst/transformers/_input_transformers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index d2ef4b4..29abe73 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -89,6 +89,8 @@ class Derivate(BaseEstimator, TransformerMixin):
         return self
 
     def transform(self, X):
+        if isinstance(X, list) or X.dtype == np.object_:
+            return [np.diff(x, n=self.order) for x in X]
         for i in range(self.order):
             X = np.diff(X)
         return X
@@ -109,6 +111,8 @@ class Periodigram(BaseEstimator, TransformerMixin):
         return self
 
     def transform(self, X):
+        if isinstance(X, list) or X.dtype == np.object_:
+            return [self.transform(np.expand_dims(x, axis=0))[0] for x in X]
         n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[
             0
         ]
-- 
2.43.0


From 8262c81209475b302fd6aa1ee3aab81b89772dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 23/43] fix: keep prime dilations equal to the largest one that
 fits

---
 convst/transformers/_multivariate_same_length.py     | 7 ++++---
 convst/transformers/_multivariate_variable_length.py | 7 ++++---
 convst/transformers/_univariate_same_length.py       | 7 ++++---
 convst/transformers/_univariate_variable_length.py   | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/convst/transformers/_multivariate_same_length.py b/convst/transformers/_multivariate_same_length.py
index 8778348..e017dd5 100644
--- a/convst/transformers/_multivariate_same_length.py
+++ b/convst/transformers/_multivariate_same_length.py
@@ -66,14 +66,15 @@ def M_SL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_multivariate_variable_length.py b/convst/transformers/_multivariate_variable_length.py
index fd7ca8c..4a81c27 100644
--- a/convst/transformers/_multivariate_variable_length.py
+++ b/convst/transformers/_multivariate_variable_length.py
@@ -66,14 +66,15 @@ def M_VL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_univariate_same_length.py b/convst/transformers/_univariate_same_length.py
index f3577b5..2933e44 100644
--- a/convst/transformers/_univariate_same_length.py
+++ b/convst/transformers/_univariate_same_length.py
@@ -59,14 +59,15 @@ def U_SL_init_random_shapelet_params(
     # Lengths of the shapelets
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_univariate_variable_length.py b/convst/transformers/_univariate_variable_length.py
index cda80fa..983d4d7 100644
--- a/convst/transformers/_univariate_variable_length.py
+++ b/convst/transformers/_univariate_variable_length.py
@@ -62,14 +62,15 @@ def U_VL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
-- 
2.43.0


From 8c17e26d10476c4dfaf0621639203b33239b2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 24/43] fix: drop constant columns whose deviation is only
 rounding noise

---
 convst/transformers/_input_transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index 29abe73..e355132 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -24,7 +24,7 @@ from convst import __USE_NUMBA_CACHE__, __USE_NUMBA_PARALLEL__
 
 class c_StandardScaler(StandardScaler):
     def fit(self, X, y=None):
-        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
+        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
         return super().fit(X[:, self.usefull_atts], y=y)
 
     def transform(self, X):
@@ -33,7 +33,7 @@ class c_StandardScaler(StandardScaler):
 
 class c_MinMaxScaler(MinMaxScaler):
     def fit(self, X, y=None):
-        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
+        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
         return super().fit(X[:, self.usefull_atts], y=y)
 
     def transform(self, X):
-- 
2.43.0


From 044b35f5c793230b3ae4e6de931681d2eca28671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 25/43] fix: compute the optimal offset of FastHankelTransform
 for its own order

---
 convst/transformers/_input_transformers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index e355132..72bffbd 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -169,7 +169,9 @@ class FastHankelTransform(BaseEstimator, TransformerMixin):
                     X[i],
                     self.dln,
                     self.mu,
-                    offset=fhtoffset(self.dln, self.dln, self.bias),
+                    offset=fhtoffset(
+                        self.dln, self.mu, initial=self.offset, bias=self.bias
+                    ),
                     bias=self.bias,
                 )
             else:
-- 
2.43.0


From 226f1233f6971834f2b8b7167891ac019318c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 26/43] fix: never use a minimum length above the shortest
 training series

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 4e0a5a7..e685340 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -206,7 +206,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            min_len = X_len.min() if self.min_len is None else self.min_len
+            min_len = X_len.min() if self.min_len is None else min(self.min_len, X_len.min())
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             min_len = X.shape[2]
-- 
2.43.0


From 17494e16a958b63d997f248ba294eb138f67ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 27/43] fix: pass the randomly drawn periodogram window as a
 plain string

---
 convst/transformers/_input_transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index 72bffbd..a0f9b44 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -125,7 +125,7 @@ class Periodigram(BaseEstimator, TransformerMixin):
         return X_new
 
     def _random_init(self):
-        self.set_params(**{"window_type": np.random.choice(self._get_windows())})
+        self.set_params(**{"window_type": str(np.random.choice(self._get_windows()))})
 
     def _get_windows(self):
         return np.asarray(
-- 
2.43.0


From 006270c14f70cd773a24b8165f7748fccd23bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 28/43] fix: always resolve n_jobs to at least one job

---
 convst/utils/checks_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/utils/checks_utils.py b/convst/utils/checks_utils.py
index 1777bab..936fa9d 100644
--- a/convst/utils/checks_utils.py
+++ b/convst/utils/checks_utils.py
@@ -42,8 +42,10 @@ def check_n_jobs(n_jobs):
         return 1
     elif not is_int(n_jobs):
         raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
+    elif n_jobs == 0:
+        raise ValueError("`n_jobs` must be different from 0")
     elif n_jobs < 0:
-        return cpu_count() + n_jobs + 1
+        return max(1, cpu_count() + n_jobs + 1)
     else:
         return min(n_jobs,cpu_count())
 
-- 
2.43.0


From 3ee4ac33c438df456e3d8a53bd0bd9fdddd36f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:21 +0000
Subject: [PATCH 29/43] fix: accept shapelet lengths given to R_DST through
 set_params as a list

The constructor converts them to an array, set_params does not: fitting failed.
---
 convst/transformers/rdst.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index e685340..6d0d549 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -163,10 +163,11 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
-            if self.shapelet_lengths.dtype == float:
-                return np.floor(min_len*self.shapelet_lengths)
+            shapelet_lengths = check_array_1D(self.shapelet_lengths)
+            if shapelet_lengths.dtype == float:
+                return np.floor(min_len*shapelet_lengths)
             else:
-                return self.shapelet_lengths
+                return shapelet_lengths
         else:
             b0 = self.shapelet_lengths_bounds[0]
             b1 = self.shapelet_lengths_bounds[1]
-- 
2.43.0


From aa51ffe847e3aaba16445c97c32e3b95f10e6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 30/43] fix: refuse training labels that do not match the
 number of series

---
 convst/transformers/rdst.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 6d0d549..69fef73 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -212,6 +212,9 @@ class R_DST(BaseEstimator, TransformerMixin):
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             min_len = X.shape[2]
         
+        if len(y) != X.shape[0]:
+            raise ValueError('X and y should have the same number of samples, got {} and {}'.format(X.shape[0], len(y)))
+        
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
-- 
2.43.0


From 198c6184aff79b9a228c1265825c60bd55e37da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 31/43] fix: refuse to transform series with another number of
 features than in training

---
 convst/transformers/rdst.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 69fef73..c8b0bed 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -229,6 +229,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             X_len = X_len[id_X] if X_len is not None else None
         
         n_samples, n_features, _ = X.shape
+        self.n_channels_ = n_features
         
         max_channels = n_features if self.max_channels is None else self.max_channels
         
@@ -290,11 +291,13 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
+            self._check_n_channels(X)
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance, X_len
             )
         else:
             X = check_array_3D(X).astype(np.float64)
+            self._check_n_channels(X)
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
@@ -305,6 +308,14 @@ class R_DST(BaseEstimator, TransformerMixin):
             X_new[:, 2::3] /= X_len.reshape(-1, 1)
         return X_new
     
+    def _check_n_channels(self, X):
+        """
+        Check that series to transform have as many features as the series
+        given to the fit method.
+        """
+        if X.shape[1] != self.n_channels_:
+            raise ValueError('Input series have {} features, but the transformer was fitted with {}'.format(X.shape[1], self.n_channels_))
+    
     def _auto_class(self, X):
         """
         Using the input time series data, find the type of transformation to 
-- 
2.43.0


From f730775bd31f0c31a308afcdadee5f798193f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 32/43] fix: refuse to transform series that are too short to
 contain a shapelet

---
 convst/transformers/rdst.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index c8b0bed..9aad38d 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -292,12 +292,14 @@ class R_DST(BaseEstimator, TransformerMixin):
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
             self._check_n_channels(X)
+            self._check_min_length(X_len.min())
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance, X_len
             )
         else:
             X = check_array_3D(X).astype(np.float64)
             self._check_n_channels(X)
+            self._check_min_length(X.shape[2])
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
@@ -316,6 +318,17 @@ class R_DST(BaseEstimator, TransformerMixin):
         if X.shape[1] != self.n_channels_:
             raise ValueError('Input series have {} features, but the transformer was fitted with {}'.format(X.shape[1], self.n_channels_))
     
+    def _check_min_length(self, n_timestamps):
+        """
+        Check that the shortest series to transform contains at least one
+        window for each shapelet. With phase invariance, it always does.
+        """
+        _, lengths, dilations = self.shapelets_[:3]
+        if not self.phase_invariance and len(lengths) > 0:
+            min_len = int(np.max((lengths - 1) * dilations)) + 1
+            if n_timestamps < min_len:
+                raise ValueError('Input series should have at least {} timestamps to contain all shapelets, found only: {}'.format(min_len, n_timestamps))
+    
     def _auto_class(self, X):
         """
         Using the input time series data, find the type of transformation to 
-- 
2.43.0


From 30e40163a388bb78ea54d92930cccc9c7f756789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 33/43] fix: treat relative shapelet lengths and bounds of any
 float type as relative

---
 convst/transformers/rdst.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 9aad38d..520fb7f 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -164,7 +164,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             shapelet_lengths = check_array_1D(self.shapelet_lengths)
-            if shapelet_lengths.dtype == float:
+            if np.issubdtype(shapelet_lengths.dtype, np.floating):
                 return np.floor(min_len*shapelet_lengths)
             else:
                 return shapelet_lengths
@@ -172,10 +172,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b0 = self.shapelet_lengths_bounds[0]
             b1 = self.shapelet_lengths_bounds[1]
             
-            if isinstance(b0, float):
+            if isinstance(b0, (float, np.floating)):
                 b0 = int(b0*min_len)
             min_l = max(3,b0)
-            if isinstance(b1, float):
+            if isinstance(b1, (float, np.floating)):
                 b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
-- 
2.43.0


From bec058312ff4b697c86a7982860d605bd70604fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 34/43] fix: differentiate series of narrow or unsigned
 integers without overflow

---
 convst/transformers/_input_transformers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index a0f9b44..c65f8e9 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -90,7 +90,10 @@ class Derivate(BaseEstimator, TransformerMixin):
 
     def transform(self, X):
         if isinstance(X, list) or X.dtype == np.object_:
-            return [np.diff(x, n=self.order) for x in X]
+            return [
+                np.diff(np.asarray(x, dtype=np.float64), n=self.order) for x in X
+            ]
+        X = X.astype(np.float64)
         for i in range(self.order):
             X = np.diff(X)
         return X
-- 
2.43.0


From 3b01a261487f87d6426fed4b8e7d676e85fcbb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 35/43] fix: let R_DST be cloned, as the grid search does

---
 convst/transformers/rdst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 520fb7f..cfcd151 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -521,8 +521,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         return shapelet_lengths, seed    
     
     def _validate_transform_type(self, transform_type):
-        transform_type = transform_type.lower()
         valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
+        # Cloning needs a valid type to be stored as the object it was given
+        if transform_type not in valid:
+            transform_type = transform_type.lower()
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From e02dbfc5e9206db66a255ebd48b892e19e430394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 36/43] fix: honour a transform type set after the construction
 of R_DST

---
 convst/transformers/rdst.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index cfcd151..3d87a4e 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -132,7 +132,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_jobs=1
     ):
         self.transform_type = self._validate_transform_type(transform_type)
-        self._auto_transform_type = self.transform_type == 'auto'
+        # Type found by the last fit for 'auto', a later fit finds it again
+        self._auto_transform_type = 'auto'
         self.phase_invariance = check_is_boolean(phase_invariance)
         self.alpha = check_is_numeric(alpha)
         self.normalize_output = check_is_boolean(normalize_output)
@@ -381,9 +382,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         None.
 
         """
-        if self._auto_transform_type or self.transform_type == 'auto':
+        if self.transform_type in ('auto', self._auto_transform_type):
             _type = self._auto_class(X)
-            self.transform_type = _type
+            self.transform_type = self._auto_transform_type = _type
         else:
             _type = self.transform_type
             
-- 
2.43.0


From 618103fd15f9c2488605d32b21df53eae8818dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 37/43] fix: load the example's dataset by the loader's present
 name

---
 docs/index.rst           | 6 +++---
 docs/reproducibility.rst | 4 ++--
 examples/UCR_example.py  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/docs/index.rst b/docs/index.rst
index bf7029b..4fd506b 100644
--- a/docs/index.rst
+++ b/docs/index.rst
@@ -43,9 +43,9 @@ The following code snippet illustrates the basic usage of convst:
 .. code-block:: python
 
     from convst.classifiers import R_DST_Ridge
-    from convst.utils.dataset_utils import load_sktime_dataset_split
+    from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
 
-    X_train, X_test, y_train, y_test, _ = load_sktime_dataset_split(
+    X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split(
         'GunPoint', normalize=True
     )
 
@@ -60,7 +60,7 @@ The following code snippet illustrates the basic usage of convst:
 
 1. First we import the ``R_DST_Ridge`` class that containt a wrapper for R_DST using a Ridge classifier. We also import a data loading function
 
-2. Then we load the training and test sets by calling the ``load_sktime_dataset_split`` function.
+2. Then we load the training and test sets by calling the ``load_UCR_UEA_dataset_split`` function.
 
 3. Finally we fit the model on the training set and evaluate its
    performance by computing the accuracy on the test set using the score function.
diff --git a/docs/reproducibility.rst b/docs/reproducibility.rst
index 22e0e1b..62b7c37 100644
--- a/docs/reproducibility.rst
+++ b/docs/reproducibility.rst
@@ -21,8 +21,8 @@ many algorithms.
 Convenience functions are provided in convst to download a dataset from this
 repository by simply specifying its name:
 
-* Original Train & Test splits for a dataset: :func:`convts.utils.load_sktime_dataset_split`,
-* Full dataset: :func:`convts.utils.load_sktime_dataset`.
+* Original Train & Test splits for a dataset: :func:`convst.utils.dataset_utils.load_UCR_UEA_dataset_split`,
+* Full dataset: :func:`convst.utils.dataset_utils.load_UCR_UEA_dataset`.
 
 Obtain the UEA & UCR Resamples
 ------------------------------
diff --git a/examples/UCR_example.py b/examples/UCR_example.py
index e9749a0..5f9da75 100644
--- a/examples/UCR_example.py
+++ b/examples/UCR_example.py
@@ -16,9 +16,9 @@ This example give the minimal setup to run RDST and visualize the result
 # with a Ridge classifier using the wrapper class R_DST_Ridge.
 
 from convst.classifiers import R_DST_Ridge
-from convst.utils.dataset_utils import load_sktime_dataset_split
+from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
 
-X_train, X_test, y_train, y_test, _ = load_sktime_dataset_split('GunPoint')
+X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split('GunPoint')
 
 rdst = R_DST_Ridge(n_shapelets=10000, n_jobs=1)
 
-- 
2.43.0


From d0efff85389b069e4127d58d67b9c2c05d3f256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 38/43] fix: run on the number of threads n_jobs stands for

---
 convst/classifiers/rdst_ensemble.py | 14 ++++++++++----
 convst/classifiers/rdst_ridge.py    |  6 ++++++
 convst/transformers/rdst.py         |  7 +++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index ec4ee7d..8ea583d 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -59,11 +59,14 @@ class _internalRidgeCV(RidgeClassifierCV):
             )
 
 
-def _parallel_fit(X, y, model):
+def _parallel_fit(X, y, model, n_threads):
+    # The number of threads is local to the worker
+    set_num_threads(n_threads)
     return model.fit(X, y)
 
 
-def _parallel_predict(X, model, w):
+def _parallel_predict(X, model, w, n_threads):
+    set_num_threads(n_threads)
     return model.predict_proba(X) * w
 
 
@@ -226,7 +229,6 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def fit(self, X, y):
         self._manage_n_jobs()
-        set_num_threads(self.n_jobs_rdst)
         # One seed per model, drawn before the models are fitted concurrently
         seeds = check_random_state(self.random_state).randint(
             np.iinfo(np.int32).max, size=len(self.input_transformers)
@@ -261,6 +263,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         class_weight=self.class_weight,
                     ),
                 ),
+                self.n_jobs_rdst,
             )
             for i in range(len(self.input_transformers))
         )
@@ -275,10 +278,13 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def predict(self, X):
         check_is_fitted(self, ["model_weights"])
+        self._manage_n_jobs()
         preds_proba = Parallel(
             n_jobs=self._n_jobs_models, prefer=self.prefer, require=self.require
         )(
-            delayed(_parallel_predict)(X, self.models[i], self.model_weights[i])
+            delayed(_parallel_predict)(
+                X, self.models[i], self.model_weights[i], self.n_jobs_rdst
+            )
             for i in range(len(self.model_weights))
         )
         # n_samples, n_models
diff --git a/convst/classifiers/rdst_ridge.py b/convst/classifiers/rdst_ridge.py
index 7477609..3277a45 100644
--- a/convst/classifiers/rdst_ridge.py
+++ b/convst/classifiers/rdst_ridge.py
@@ -155,6 +155,10 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
             "capability:multivariate": True,
         }
 
+    def _set_n_threads(self):
+        if not isinstance(self.n_jobs, bool):
+            set_num_threads(check_n_jobs(self.n_jobs))
+
     def _init_components(self):
         self.classifier = make_pipeline(
             c_StandardScaler(with_mean=True),
@@ -197,6 +201,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         y : array, shape=(n_samples)
             Class of the input time series.
         """
+        self._set_n_threads()
         self._init_components()
         self.transformer = self.transformer.fit(X, y)
         self.classifier = self.classifier.fit(self.transformer.transform(X), y)
@@ -219,6 +224,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
 
         """
         check_is_fitted(self, ["classifier"])
+        self._set_n_threads()
         return self.classifier.predict(self.transformer.transform(X))
 
     def score(self, X, y):
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 3d87a4e..cb3cbc7 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -162,6 +162,11 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
+    def _set_n_threads(self):
+        # A boolean leaves the number of threads to the caller
+        if not isinstance(self.n_jobs, bool):
+            set_num_threads(check_n_jobs(self.n_jobs))
+    
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             shapelet_lengths = check_array_1D(self.shapelet_lengths)
@@ -203,6 +208,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             Class of the input time series.
 
         """
+        self._set_n_threads()
         self._set_fit_transform(X)
         X_len = None
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
@@ -289,6 +295,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         """
         
         check_is_fitted(self, ['shapelets_'])
+        self._set_n_threads()
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
-- 
2.43.0


From 0110b7283f34edc0e2a5cf4e0e9e6a1b95c04042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 39/43] fix: store n_jobs as given, so that the estimators can
 be cloned

---
 convst/classifiers/rdst_ridge.py | 8 +++-----
 convst/transformers/rdst.py      | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/convst/classifiers/rdst_ridge.py b/convst/classifiers/rdst_ridge.py
index 3277a45..2cc0134 100644
--- a/convst/classifiers/rdst_ridge.py
+++ b/convst/classifiers/rdst_ridge.py
@@ -139,11 +139,9 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths = shapelet_lengths
         self.proba_norm = proba_norm
         self.percentiles = percentiles
-        if isinstance(n_jobs, bool):
-            self.n_jobs = n_jobs
-        else:
-            self.n_jobs = check_n_jobs(n_jobs)
-            set_num_threads(self.n_jobs)
+        if not isinstance(n_jobs, bool):
+            check_n_jobs(n_jobs)
+        self.n_jobs = n_jobs
         self.random_state = random_state
         self.min_len = min_len
         self.max_channels = max_channels
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index cb3cbc7..2ddbd58 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -154,11 +154,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.percentiles = self._validate_percentiles(percentiles)
         check_random_state(random_state)
         self.random_state = random_state
-        if isinstance(n_jobs, bool):
-            self.n_jobs=n_jobs
-        else:
-            self.n_jobs=check_n_jobs(n_jobs)
-            set_num_threads(self.n_jobs)
+        if not isinstance(n_jobs, bool):
+            check_n_jobs(n_jobs)
+        self.n_jobs=n_jobs
         self.max_channels=max_channels
         self.min_len=min_len
     
-- 
2.43.0


From 8d9e55988a2aba133de21ac661b2af2a7e3c2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 40/43] fix: store list and count parameters as given, so that
 reparameterised estimators can be cloned

---
 convst/classifiers/rdst_ensemble.py | 6 ++++--
 convst/transformers/rdst.py         | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 8ea583d..f4b7abe 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -188,14 +188,16 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
         self.n_shapelets_per_estimator = check_is_numeric(n_shapelets_per_estimator)
-        self.shapelet_lengths = check_array_1D(shapelet_lengths)
+        check_array_1D(shapelet_lengths)
+        self.shapelet_lengths = shapelet_lengths
         self.n_jobs = n_jobs
 
         self.prefer = prefer
         self.require = require
         self.shp_alpha = check_is_numeric(shp_alpha)
         self.a_w = check_is_numeric(a_w)
-        self.proba_norm = check_array_1D(proba_norm)
+        check_array_1D(proba_norm)
+        self.proba_norm = proba_norm
 
         self.alphas_ridge = alphas_ridge
         self.class_weight = class_weight
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 2ddbd58..0b16af9 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -138,8 +138,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.alpha = check_is_numeric(alpha)
         self.normalize_output = check_is_boolean(normalize_output)
         self.n_samples = check_is_numeric(n_samples) if n_samples is not None else n_samples
-        self.n_shapelets = int(check_is_numeric(n_shapelets))
-        self.shapelet_lengths = check_array_1D(shapelet_lengths)
+        check_is_numeric(n_shapelets)
+        self.n_shapelets = n_shapelets if isinstance(n_shapelets, (int, np.integer)) else int(n_shapelets)
+        check_array_1D(shapelet_lengths)
+        self.shapelet_lengths = shapelet_lengths
         if shapelet_lengths_bounds is None:
             self.shapelet_lengths_bounds = None
         elif len(shapelet_lengths_bounds)==2:
@@ -151,7 +153,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError('lengths_bounds_reduction parameter should be in range [0,1[')
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
-        self.percentiles = self._validate_percentiles(percentiles)
+        self._validate_percentiles(percentiles)
+        self.percentiles = percentiles
         check_random_state(random_state)
         self.random_state = random_state
         if not isinstance(n_jobs, bool):
-- 
2.43.0


From 0e10f5a3dce7f62d58b5b9b7bf44db8c053a6376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 41/43] fix: draw shapelets on series of shape (1,
 n_timestamps), as documented

---
 convst/interpreters/rdst_interpreter.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2cf02f7..16f30d2 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -54,6 +54,17 @@ class Shapelet:
         self.phase = phase
         self.threshold = threshold
 
+    @staticmethod
+    def _check_series(X):
+        X = np.asarray(X)
+        if X.ndim == 2 and X.shape[0] == 1:
+            X = X[0]
+        if X.ndim != 1:
+            raise ValueError(
+                "Expected a univariate series, but found shape {}".format(X.shape)
+            )
+        return X
+
     def plot(self, figsize=(10, 5), seaborn_context='talk', ax=None):
         """
         Plot the shapelet values.
@@ -131,6 +142,7 @@ class Shapelet:
             shapelet will be scalled to macth the scale of X.
 
         """
+        X = self._check_series(X)
         c = compute_shapelet_dist_vector(
             X, self.values, self.length, self.dilation, self.norm, self.phase
         )
@@ -186,6 +198,7 @@ class Shapelet:
             The resulting figure with the distance vector obtained by d(S,X)
 
         """
+        X = self._check_series(X)
         c = compute_shapelet_dist_vector(
             X, self.values, self.length, self.dilation, self.norm, self.phase
         )
-- 
2.43.0


From bd776c9930c13b8268f259fb468bb4f7f94f19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 42/43] fix: fit the ensemble's members on copies of the input
 transformers

---
 convst/classifiers/rdst_ensemble.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index f4b7abe..e28991e 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -13,7 +13,7 @@ from convst.utils.checks_utils import (
 from convst.transformers import R_DST
 from convst.transformers._input_transformers import Raw, Derivate, Periodigram
 from sklearn.utils.fixes import delayed
-from sklearn.base import BaseEstimator, ClassifierMixin
+from sklearn.base import BaseEstimator, ClassifierMixin, clone
 from sklearn.linear_model import RidgeClassifierCV
 from sklearn.utils.extmath import softmax
 from sklearn.metrics import accuracy_score, make_scorer
@@ -240,7 +240,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                 X,
                 y,
                 make_pipeline(
-                    self.input_transformers[i],
+                    clone(self.input_transformers[i], safe=False),
                     R_DST(
                         n_shapelets=self.n_shapelets_per_estimator,
                         alpha=self.shp_alpha,
-- 
2.43.0


From 31be081f43e670f3146faf6f1b5f8308f50a2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 43/43] fix: keep the former names of the loading functions,
 which the examples use

---
 convst/utils/dataset_utils.py | 5 +++++
 examples/UCR_example.py       | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index 2ac6b60..46ea491 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -139,6 +139,11 @@ def load_UCR_UEA_dataset(name, normalize=False):
     return np.concatenate((X_train, X_test), axis=0), y
 
 
+# Former names of the loading functions, still used by the examples
+load_sktime_dataset_split = load_UCR_UEA_dataset_split
+load_sktime_dataset = load_UCR_UEA_dataset
+
+
 def return_all_dataset_names():
     return np.concatenate(
         (
diff --git a/examples/UCR_example.py b/examples/UCR_example.py
index 5f9da75..e9749a0 100644
--- a/examples/UCR_example.py
+++ b/examples/UCR_example.py
@@ -16,9 +16,9 @@ This example give the minimal setup to run RDST and visualize the result
 # with a Ridge classifier using the wrapper class R_DST_Ridge.
 
 from convst.classifiers import R_DST_Ridge
-from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
+from convst.utils.dataset_utils import load_sktime_dataset_split
 
-X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split('GunPoint')
+X_train, X_test, y_train, y_test, _ = load_sktime_dataset_split('GunPoint')
 
 rdst = R_DST_Ridge(n_shapelets=10000, n_jobs=1)
 
-- 
2.43.0

