From 73d595276f8184b2bcc9373875396987c1e35f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 01/59] fix: WSNMF.update accepts hold_h so the Python ws-nmf
 training path runs

---
 esat/model/batch_sa.py    | 2 +-
 esat/model/ws_nmf.py      | 7 ++++++-
 eval/factor_comparison.py | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c916821..2562c2f 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -545,4 +545,4 @@ def is_picklable(obj):
         pickle.dumps(obj)
         return True
     except Exception:
-        return False
\ No newline at end of file
+        return False
\ No newline at end of file
diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 1949617..5c09388 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -10,7 +10,8 @@ class WSNMF:
             V: np.ndarray,
             We: np.ndarray,
             W: np.ndarray,
-            H: np.ndarray
+            H: np.ndarray,
+            hold_h: bool = False,
     ):
         """
         Weighted Semi-NMF algorithm.
@@ -33,6 +34,8 @@ class WSNMF:
            The factor contribution matrix, prior W is not used by this algorithm but provided here for testing.
         H : np.ndarray
            The factor profile matrix.
+        hold_h : bool
+            If True, the H matrix is not updated.
 
         Returns
         -------
@@ -64,6 +67,8 @@ class WSNMF:
             _w = np.matmul(_w_n, _w_di)
             _W.append(_w)
         W = np.array(_W)
+        if hold_h:
+            return W, H
 
         W_n = (np.abs(W) - W) / 2.0
         W_p = (np.abs(W) + W) / 2.0
diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index e37b8af..1eb6d4c 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -604,4 +604,4 @@ class FactorCompareV2:
 
             batch_mapping[i] = optimal_indices
             batch_values[i] = mapping_values
-        return batch_mapping, batch_values
\ No newline at end of file
+        return batch_mapping, batch_values
\ No newline at end of file
-- 
2.43.0


From c46da20e0cb262e1572a0a58753a1c0f501a54d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 02/59] fix: SA.initialize no longer clamps the caller's H
 matrix in place

---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index ff5629d..7933dae 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -259,6 +259,8 @@ class SA:
             if H.shape != (self.factors, self.n):
                 prior_H = H
                 H = None
+            else:
+                H = H.copy()
 
         if "kmeans" in init_method.lower():
             self.metadata["init_norm"] = init_norm
-- 
2.43.0


From 75795b98d00f551e75b6f8dc257423aedb406302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 03/59] fix: SA.save writes the csv files when no header is
 given

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 7933dae..fa86e62 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -506,7 +506,7 @@ class SA:
            The path to the output directory, if pickle=False or the path to the pickle file. If save fails returns None
 
         """
-        factor_header = None
+        factor_header = ""
         if header is not None:
             factor_header = [f"Factor {i + 1}" for i in range(self.factors)]
             factor_header = ",".join(factor_header)
-- 
2.43.0


From 808268d9574bce47993db2b196454c37c42861c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 04/59] fix: SA.train resets the convergence state of a
 previous run

---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index fa86e62..a05ad35 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -395,6 +395,8 @@ class SA:
             self.update_step = types.MethodType(lcls['update'], self)
 
         converged = False
+        self.converged = False
+        self.converge_steps = 0
         q_list = []
 
         if self.optimized:
-- 
2.43.0


From 1bd4910acc4ed22127ea6aae37c55c8a34462a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 05/59] fix: SA rejects negative uncertainties instead of
 turning them into 1e-12

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index a05ad35..b7373e4 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -72,8 +72,8 @@ class SA:
         self.V = V.astype(np.float32)
         self.U = U.astype(np.float32)
 
-        # The uncertainty matrix must not contain any zeros
-        self.U[self.U < EPSILON] = EPSILON
+        # The uncertainty matrix must not contain any zeros, negative values are rejected by the validation.
+        self.U[(self.U >= 0.0) & (self.U < EPSILON)] = EPSILON
 
         # Weights are calculated from the uncertainty matrix as 1/U^{2}
         self.We = np.divide(1, self.U ** 2).astype(np.float32)
-- 
2.43.0


From 3c3f6039a2ba66f93e33b7fa26527041edd197e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 06/59] fix: DataHandler drops rows with a missing value in
 either the data or the uncertainty

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cd82545..5beb6fc 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -322,8 +322,8 @@ class DataHandler:
         # Ensure no zero values in data or uncertainty
         _input_nans = _input_data.isna().any(axis=1)
         _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
-        _input_data = _input_data[~_input_nans | ~_uncertainty_nans]
-        _uncertainty_data = _uncertainty_data[~_input_nans | ~_uncertainty_nans]
+        _input_data = _input_data[~_input_nans & ~_uncertainty_nans]
+        _uncertainty_data = _uncertainty_data[~_input_nans & ~_uncertainty_nans]
 
         self.input_data_df = _input_data
         self.uncertainty_data_df = _uncertainty_data
-- 
2.43.0


From f1920a9a638cdbb3af834a29b805368019c88053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 07/59] fix: DataHandler zero replacement survives the float32
 conversion

---
 esat/data/datahandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 5beb6fc..6ac1b44 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -17,7 +17,8 @@ from esat.utils import min_timestep
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
 
-EPSILON = sys.float_info.min
+# Smallest positive float32, the type of the processed datasets.
+EPSILON = float(np.finfo(np.float32).tiny)
 
 
 class DataHandler:
-- 
2.43.0


From 04a728e035296a98f11b47d486433ee67309ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 08/59] fix: DataHandler.set_category reports failure for an
 unknown feature

---
 esat/data/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 6ac1b44..a1fd496 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -146,6 +146,9 @@ class DataHandler:
         if category not in ("strong", "weak", "bad"):
             logger.error("The feature category must be set to 'strong', 'weak', or 'bad'")
             return False
+        if feature not in self.metrics.index:
+            logger.error(f"The feature {feature} is not in the dataset")
+            return False
         self.metrics.loc[feature, "Category"] = category.lower()
         logger.info(f"Feature: {feature} category set to {category}")
         return True
-- 
2.43.0


From b2a4a22b321d3ba996828941a94b76267099d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 09/59] fix: DataHandler aggregated input data is the one that
 is plotted

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index a1fd496..0c00ae8 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -466,7 +466,7 @@ class DataHandler:
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-        self.V_prime_plot = agg_input
+        self.input_data_plot = agg_input
         self.uncertainty_data_plot = agg_uncertainty
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
-- 
2.43.0


From 8724fc91e1d0d74aacc915927209b48c25e31797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 10/59] fix: DataHandler.load_dataframe prepares the plotting
 data

---
 esat/data/datahandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 0c00ae8..d99ff70 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -903,4 +903,5 @@ class DataHandler:
         dh.features = input_df.columns
         dh._load_data(existing_data=True)
         dh._determine_optimal_block()
+        dh._aggregate_data()
         return dh
-- 
2.43.0


From 9c0ff8679463f6c5b0a33e637a61fc5b0a2687b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 11/59] fix: DataHandler.merge keeps the source label out of
 the processed data

---
 esat/data/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index d99ff70..859c1ea 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -256,6 +256,8 @@ class DataHandler:
         self.input_data = pd.concat(merged_input, ignore_index=True)
         self.uncertainty_data = pd.concat(merged_uncertainty, ignore_index=True)
         self.features = [col for col in self.input_data.columns if col != 'source_label']
+        # The label is not a feature and must not be passed to a model
+        self.drop_col = list(self.drop_col or []) + ['source_label']
 
         logger.info("DataHandlers merged successfully.")
         return True
-- 
2.43.0


From ca0907e4414e23332a3c040a1c99e383d27c1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 12/59] fix: DataHandler.split_locations keeps location and
 dropped columns out of the split datasets

---
 esat/data/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 859c1ea..7849a05 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -200,6 +200,8 @@ class DataHandler:
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
             dh = DataHandler.load_dataframe(input_df=input_data_loc, uncertainty_df=uncertainty_data_loc)
+            dh.loc_cols = list(self.loc_cols)
+            dh.drop_col = self.drop_col
             dh.metadata['location'] = loc.to_dict()
             data_handlers.append(dh)
 
-- 
2.43.0


From 940558ad6144c9162ede037342e360a1e2bb9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 13/59] fix: min_timestep returns the time step it determines,
 including one hour

---
 esat/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index 7e73adf..4769b53 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -49,10 +49,10 @@ def min_timestep(data: pd.DataFrame):
         resample = f"{time_delta.min().seconds}s"
     elif time_delta.min().seconds < 60 * 60:
         resample = f"{int(time_delta.min().seconds / 60)}min"
-    elif time_delta.min().seconds > 60 * 60 and time_delta.min().days <= 0:
-        resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
     else:
-        return "D"
+        resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
+    return resample
+
 
 def calculate_factor_correlation(factor1, factor2):
     factor1 = factor1.astype(float)
-- 
2.43.0


From b666136a6d5a903be77f9c5adc3d9c47bbab3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 14/59] fix: DataImputer runs when scikit-learn is installed
 and labels its output

---
 esat/data/impute.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 99c5de0..e99a03c 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -6,6 +6,7 @@ import numpy as np
 from esat.data.datahandler import DataHandler
 
 try:
+    import sklearn
     from sklearn.experimental import enable_iterative_imputer
     from sklearn.impute import SimpleImputer, KNNImputer, IterativeImputer
 except ImportError:
@@ -33,6 +34,8 @@ class DataImputer:
         self.imputed_uncertainty = None
 
         self.strategy = None
+        self.columns = None
+        self.index = None
         self.missing_value = missing_value
 
         if sklearn is None:
@@ -53,6 +56,8 @@ class DataImputer:
             return
         self.strategy = strategy
         logger.info(f"Imputing missing values using strategy: {strategy}")
+        self.columns = self.data_handler.uncertainty_data.columns
+        self.index = self.data_handler.uncertainty_data.index
         V = self.data_handler.input_data.values
         U = self.data_handler.uncertainty_data
         if self.missing_value is not None:
@@ -95,8 +100,8 @@ class DataImputer:
         imputer2 = SimpleImputer(strategy=strategy, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.columns, index=self.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.columns, index=self.index)
         return self.imputed_data, self.imputed_uncertainty
 
     def _run_knn_imputer(self, V, U, n_neighbors=5, weights='uniform'):
@@ -113,8 +118,8 @@ class DataImputer:
         imputer2 = KNNImputer(n_neighbors=n_neighbors, weights=weights, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.columns, index=self.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.columns, index=self.index)
         return self.imputed_data, self.imputed_uncertainty
 
     def _run_iterative_imputer(self, V, U, max_iter=10, tol=1e-3):
@@ -131,6 +136,6 @@ class DataImputer:
         imputer2 = IterativeImputer(max_iter=max_iter, tol=tol, random_state=self.random_seed, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.columns, index=self.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.columns, index=self.index)
         return self.imputed_data, self.imputed_uncertainty
-- 
2.43.0


From af4b453e1f2d23af8f45133395dd0e6c62e22989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 15/59] fix: Bootstrap keeps an integer block size when it is
 reduced to half the samples

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c61d18d..eb3b55d 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -148,8 +148,8 @@ class Bootstrap:
         """
         N = self.data.shape[0]
         if self.block_size > N/2:
-            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N/2}")
-            self.block_size = N/2
+            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N//2}")
+            self.block_size = N//2
         rng = np.random.default_rng(seed=seed)
         index_blocks = []
         M = math.ceil(N / self.block_size)
-- 
2.43.0


From b4018c47f8de8b73572732e9b17b42efe1eb3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 16/59] fix: Bootstrap block resampling can draw the last
 samples and fills the dataset

---
 esat/error/bootstrap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index eb3b55d..f81c7da 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -163,12 +163,12 @@ class Bootstrap:
                 index_blocks.append(block_i)
         index_matrix = []
         row_count = 0
-        for i in range(M):
+        while row_count < N:
             if not overlapping:
-                rng_i = int(rng.integers(low=0, high=int(M) - 1, size=1)[0])
-                index_i = index_blocks[rng_i]
+                rng_i = int(rng.integers(low=0, high=int(M), size=1)[0])
+                index_i = list(index_blocks[rng_i])
             else:
-                i_start = int(rng.integers(low=0, high=N - self.block_size - 1, size=1)[0])
+                i_start = int(rng.integers(low=0, high=N - self.block_size + 1, size=1)[0])
                 index_i = list(range(i_start, i_start + self.block_size))
             while row_count + len(index_i) > N:
                 index_i.pop()
-- 
2.43.0


From b7ab6a7383427109fa5514d1c04ec511cc593cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 17/59] fix: Bootstrap reporting no longer edits the profiles
 of the base and bootstrap models

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index f81c7da..ad5fefc 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -560,7 +560,7 @@ class Bootstrap:
         for i in range(self.factors):
             factor_results = []
             for j_k, j_v in self.bs_results.items():
-                Hi = j_v["model"].H[i]
+                Hi = j_v["model"].H[i].copy()
                 Hi[Hi < 1e-8] = 0.0
                 Hi = np.round(Hi, 4)
                 factor_results.append(list(Hi))
@@ -625,7 +625,7 @@ class Bootstrap:
         factor_results = self.factor_tables[factor]
         factor_df = pd.DataFrame(factor_results, columns=self.feature_labels)
         factor_df[factor_df < 1e-5] = 0.0
-        base_factor = self.base_H[factor]
+        base_factor = self.base_H[factor].copy()
         base_factor[base_factor < 1e-5] = 0.0
         base_df = pd.DataFrame(base_factor.reshape(1, len(base_factor)), columns=self.feature_labels)
         round_value = 6
-- 
2.43.0


From bd2beaee5380ee87d38a7e30fe82a0030d368019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 18/59] fix: Bootstrap.save returns the path of the pickle file

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index ad5fefc..b56ccba 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -792,7 +792,7 @@ class Bootstrap:
                 with open(contr_file, "w") as c_file:
                     json.dump(self.bs_factor_contributions, c_file, default=np_encoder)
                     logger.info(f"BS SA contributions saved to file: {contr_file}")
-                return file_path
+            return file_path
         else:
             logger.error(f"Output directory does not exist. Specified directory: {output_directory}")
             return None
-- 
2.43.0


From 5072d0172154cdf85e0068e2e45e83e5bcbcdbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 19/59] fix: np_encoder keeps arrays and sets instead of
 writing null

---
 esat/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/utils.py b/esat/utils.py
index 4769b53..c083e18 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -26,6 +26,10 @@ def np_encoder(object):
     """
     if isinstance(object, np.generic):
         return object.item()
+    if isinstance(object, np.ndarray):
+        return object.tolist()
+    if isinstance(object, (set, frozenset)):
+        return sorted(object)
 
 
 def min_timestep(data: pd.DataFrame):
-- 
2.43.0


From 190f2d2a40a12659a9549fbceffa3515ed238499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 20/59] fix: Displacement honours max_search

---
 esat/error/displacement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b6801ed..938eaef 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -264,7 +264,7 @@ class Displacement:
                 i_results = {}
                 high_search_i = 0
                 max_dQ = 0
-                max_high_search = 100
+                max_high_search = self.max_search
 
                 while not high_found:
                     new_value = self.H[factor_i, feature_j] * high_modifier
@@ -358,7 +358,7 @@ class Displacement:
         i_results = {}
         high_search_i = 0
         max_dQ = 0
-        max_high_search = 100
+        max_high_search = self.max_search
         while not high_found:
             new_value = self.H[factor_i, feature_j] * high_modifier
             new_H[factor_i, feature_j] = new_value
@@ -442,7 +442,7 @@ class Displacement:
                     max_dQ = 0
                     search_i = 0
                     p_mod = 0.0
-                    max_search_i = 50
+                    max_search_i = self.max_search
                     while not value_found:
                         new_H =  copy.copy(self.H)
                         new_value = self.H[factor_i, feature_j] * modifier
@@ -518,7 +518,7 @@ class Displacement:
             max_dQ = 0
             search_i = 0
             p_mod = 0.0
-            max_search_i = 50
+            max_search_i = self.max_search
             while not value_found:
                 new_H = copy.copy(self.H)
                 new_value = self.H[factor_i, feature_j] * modifier
-- 
2.43.0


From e669faed8e26d86eb9a837c945dc0bfd67a39ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 21/59] fix: displacement swap tables label each row with its
 own dQ

---
 esat/error/bs_disp.py      | 2 +-
 esat/error/displacement.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 6a4c9f7..5804936 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -281,7 +281,7 @@ class BSDISP:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
         logger.info(f"Largest dQ decrease: {round(largest_dQ_change, 2)}, # of Q drops: {self.n_drops}, "
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 938eaef..b58b55f 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -127,7 +127,7 @@ class Displacement:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
 
@@ -677,7 +677,7 @@ class Displacement:
                     for i in range(self.factors):
                         table_labels.append(f"Factor {i + 1}")
                     table_data = np.round(100 * (self.swap_table / self.count_table), 2)
-                    dq_list = list(reversed(self.dQmax))
+                    dq_list = list(self.dQmax)
                     dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
                     table_data = np.hstack((dq_list, table_data))
                     np.savetxt(stfile, table_data, delimiter=',', header=", ".join(table_labels))
-- 
2.43.0


From 871956c6910c78e5ce74fcf615d303789457f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 22/59] fix: Displacement swap counts are assigned to their own
 factor in parallel mode

---
 esat/error/displacement.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b58b55f..493a25f 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -605,8 +605,8 @@ class Displacement:
                     compiled_data["feature"].append(self.feature_labels[feature_j])
         self.compiled_results = pd.DataFrame(data=compiled_data)
 
-        factor_i = 0
-        for factor, factor_results in self.increase_results.items():
+        for factor_i in range(self.factors):
+            factor_results = self.increase_results.get(f"factor-{factor_i + 1}", {})
             for feature, feature_results in factor_results.items():
                 dQ_i = 0
                 for dQ, dQ_results in feature_results.items():
@@ -614,9 +614,8 @@ class Displacement:
                     if dQ_results["swap"]:
                         self.swap_table[dQ_i, factor_i] += 1
                     dQ_i += 1
-            factor_i += 1
-        factor_i = 0
-        for factor, factor_results in self.decrease_results.items():
+        for factor_i in range(self.factors):
+            factor_results = self.decrease_results.get(f"factor-{factor_i + 1}", {})
             for feature, feature_results in factor_results.items():
                 dQ_i = 0
                 for dQ, dQ_results in feature_results.items():
@@ -624,7 +623,6 @@ class Displacement:
                     if dQ_results["swap"]:
                         self.swap_table[dQ_i, factor_i] += 1
                     dQ_i += 1
-            factor_i += 1
 
     def save(self, disp_name: str,
              output_directory: str,
-- 
2.43.0


From 2775e77b57ae6215a1c1920d4c54b3929b3e775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 23/59] fix: BSDISP parallel mode unpacks its task arguments
 and uses the requested cores

---
 esat/error/bs_disp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 5804936..b7c6453 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -162,7 +162,6 @@ class BSDISP:
         sys.stdout.flush()
 
         if parallel:
-            cpus = int(mp.cpu_count() * 0.75)
             p_args = []
             for i, bs_key in enumerate(bs_keys):
                 i_model = self.bootstrap.bs_results[bs_key]["model"]
@@ -170,7 +169,7 @@ class BSDISP:
                           self.max_search, self.features, self.dQmax)
                 p_args.append(i_args)
 
-            with mp.Pool(processes=cpus) as pool:
+            with mp.Pool(processes=self.cores) as pool:
                 results = []
                 with tqdm(total=len(p_args), desc="BS-DISP - Displacement Stage", position=0, leave=False) as pbar:
                     for i in pool.imap_unordered(BSDISP._parallel_disp, p_args):
@@ -201,7 +200,8 @@ class BSDISP:
         self.__compile_results()
 
     @staticmethod
-    def _parallel_disp(bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax):
+    def _parallel_disp(args):
+        bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax = args
         t0 = time.time()
         logger.info(f"Starting Displacement Stage for BS run {bs_key}.")
         i_disp = Displacement(sa=bs_model, feature_labels=feature_labels, model_selected=model_selected,
-- 
2.43.0


From c529e35fc75bfdd72c21522672a377171326fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 24/59] fix: BSDISP compiles every bootstrap run and the
 minimum and mean profiles

---
 esat/error/bs_disp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index b7c6453..20227e9 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -216,7 +216,8 @@ class BSDISP:
         """
         Calculate the merging statistics and metrics for the bs-disp results.
         """
-        key0 = list(self.disp_results.keys())[0]
+        disp_keys = list(self.disp_results.keys())
+        key0 = disp_keys[0]
         disp_result = self.disp_results[key0].compiled_results
         profiles = disp_result["profile"]
         profiles_max = disp_result["profile_max"]
@@ -227,11 +228,13 @@ class BSDISP:
         dQ_drop = disp_result["dQ_drop"]
         disp_profiles = [profiles]
         disp_conc = [conc]
-        for result_i in range(1, len(self.disp_results.keys())):
+        if any(dQ_drop < 0.0):
+            self.n_drops += 1
+        for result_i in disp_keys[1:]:
             disp_result_i = self.disp_results[result_i].compiled_results
             profile_i = disp_result_i["profile"]
             profile_max_i = disp_result_i["profile_max"]
-            profile_min_i = disp_result_i["profile"]
+            profile_min_i = disp_result_i["profile_min"]
             conc_i = disp_result_i["conc"]
             conc_max_i = disp_result_i["conc_max"]
             conc_min_i = disp_result_i["conc_min"]
@@ -246,7 +249,7 @@ class BSDISP:
             if any(dQ_drop_i < 0.0):
                 self.n_drops += 1
         self.compiled_results =  copy.copy(self.disp_results[key0].compiled_results)
-        self.compiled_results["profiles"] = np.mean(disp_profiles, axis=0)
+        self.compiled_results["profile"] = np.mean(disp_profiles, axis=0)
         self.compiled_results["profile_max"] = profiles_max
         self.compiled_results["profile_min"] = profiles_min
         self.compiled_results["conc"] = np.mean(disp_conc, axis=0)
-- 
2.43.0


From 38b554c6a6db806f6fc687279e85f2d8cb6db07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 25/59] fix: BSDISP.save returns the path it wrote to

---
 esat/error/bs_disp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 20227e9..184efd0 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -435,6 +435,7 @@ class BSDISP:
                     pickle.dump(self, save_file)
                     logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
             else:
+                file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{bsdisp_name}-metadata.json")
                 with open(meta_file, "w") as mfile:
                     json.dump(self.metadata, mfile, default=np_encoder)
-- 
2.43.0


From d12accd51bd78b7b79480cd748064a799c051e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 26/59] fix: error estimation results no longer depend on the
 completion order of the workers

---
 esat/error/bootstrap.py    | 2 +-
 esat/error/bs_disp.py      | 2 +-
 esat/error/displacement.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index b56ccba..b3ed1ac 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -414,7 +414,7 @@ class Bootstrap:
                     for i in pool.imap_unordered(self._p_train, p_args):
                         pbar.update(1)
                         results.append(i)
-            for r in results:
+            for r in sorted(results, key=lambda x: x[0]):
                 self.bs_results[r[0]] = r[1]
         else:
             for i in tqdm(range(1, self.bootstrap_n+1), desc="Bootstrap resampling, training and mapping"):
diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 184efd0..be8c661 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -176,7 +176,7 @@ class BSDISP:
                         pbar.update(1)
                         results.append(i)
 
-            for result in results:
+            for result in sorted(results, key=lambda x: x[0]):
                 i, i_disp = result
                 self.disp_results[i] = i_disp
         else:
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 493a25f..77b4307 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -342,7 +342,7 @@ class Displacement:
                 for i in pool.imap_unordered(self._increase_disp_p, parallel_args):
                     pbar.update(1)
                     results.append(i)
-        for factor_i, feature_j, i_results in results:
+        for factor_i, feature_j, i_results in sorted(results, key=lambda x: (x[0], x[1])):
             factor_key = f"factor-{factor_i+1}"
             feature_key = f"feature-{feature_j}"
             if factor_key not in self.increase_results:
@@ -498,7 +498,7 @@ class Displacement:
                 for i in pool.imap_unordered(self._decrease_disp_p, parallel_args):
                     pbar.update(1)
                     results.append(i)
-        for factor_i, feature_j, i_results in results:
+        for factor_i, feature_j, i_results in sorted(results, key=lambda x: (x[0], x[1])):
             factor_key = f"factor-{factor_i+1}"
             feature_key = f"feature-{feature_j}"
             if factor_key not in self.decrease_results:
-- 
2.43.0


From f3d210c32b57e8234de7d072b240a8a19d72b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 27/59] fix: 'define limits' constraint pulls towards the range
 and leaves values inside it alone

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 26fecef..dc244b2 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -348,9 +348,9 @@ class ConstrainedModel:
                 if current_value < constraint.target_values[0]:
                     new_value = constraint.target_values[0] - current_value
                 elif current_value > constraint.target_values[1]:
-                    new_value = current_value - constraint.target_values[1]
+                    new_value = constraint.target_values[1] - current_value
                 else:
-                    new_value = current_value
+                    new_value = 0.0
             if constraint.target == "feature":
                 D_h[constraint.index] = new_value
             else:
-- 
2.43.0


From 721e9419691b30f6d0deb29004de01bb0503899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 28/59] fix: add_constraint validates the type, target and
 sample index and labels samples as documented

---
 esat/rotational/constrained.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index dc244b2..dbd191f 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -209,6 +209,10 @@ class ConstrainedModel:
            True if the constraint was added or False if the constraint wasn't valid and is not added.
         """
         constraint_label = ""
+        if constraint_type not in Constraint.type_list:
+            logger.error(f"Error: Invalid constraint type. Provided: {constraint_type}. "
+                         f"Valid types are {Constraint.type_list}")
+            return False
         if target == 'feature':
             if index[0] >= self.base_model.factors or index[0] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
@@ -224,11 +228,14 @@ class ConstrainedModel:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            if index[1] >= self.base_model.m or index[1] < 0:
+            if index[1] >= self.base_model.factors or index[1] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            constraint_label = f"factor:{index[0]}|sample:{index[1]}"
+            constraint_label = f"factor:{index[1]}|sample:{index[0]}"
+        else:
+            logger.error(f"Error: Invalid constraint target. Provided: {target}. Valid targets are feature or sample")
+            return False
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
-- 
2.43.0


From 6d86048f771edf2644cb10622538a599bff9f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 29/59] fix: 'pull to value' searches towards the limit when
 the target is above the current value

---
 esat/rotational/constrained.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index dbd191f..dece96e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -697,12 +697,9 @@ class ConstrainedModel:
         if np.abs(iQ - iQ2) < dQ_limit:
             return target_value
 
-        if target_value > current_value:
-            high_value = target_value
-            low_value = current_value
-        else:
-            high_value = current_value
-            low_value = target_value
+        # The search keeps low_value on the target side, where dQ is too large, and high_value on the current side.
+        high_value = current_value
+        low_value = target_value
 
         mid_value = (high_value + low_value) / 2
 
-- 
2.43.0


From 8828e5a632a1927786248e35bc5e53f0238adab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 30/59] fix: 'pull down' modifier applies to the current value
 and does not compound over the search

---
 esat/rotational/constrained.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index dece96e..c363d85 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -599,13 +599,14 @@ class ConstrainedModel:
         p_mod = 0.0
         new_value = 0.0
         max_seach_i = 30
+        base_value = _H[index] if target == "feature" else _W[index]
 
         while not value_found:
             if target == "feature":
-                new_value = _H[index] * modifier
+                new_value = base_value * modifier
                 _H[index] = new_value
             else:
-                new_value = _W[index] * modifier
+                new_value = base_value * modifier
                 _W[index] = new_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
-- 
2.43.0


From b0663f8088dcebbe7912076e94b241be5f5c1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 31/59] fix: ConstrainedModel.plot_Q adds Q(True) and Q(aux)
 per iteration

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index c363d85..e734d74 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -783,7 +783,7 @@ class ConstrainedModel:
         elif Qtype.lower() == "main":
             title = 'Q(Main)'
             x = list(range(len(self.Q_list[0])))
-            y = self.Q_list[0] + self.Q_list[2]
+            y = [q_true + q_aux for q_true, q_aux in zip(self.Q_list[0], self.Q_list[2])]
         else:
             logger.error(f"Error: Invalid option for Qtype. Provided value: {Qtype}. "
                          f"Available options: true, robust, aux, main.")
-- 
2.43.0


From 247ca75c059394a7c91470cc2a99be4eeafa6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 32/59] fix: evaluate_expressions reads sample elements at
 (sample, factor)

---
 esat/rotational/constrained.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index e734d74..17bf68d 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -855,6 +855,8 @@ class ConstrainedModel:
                 ele_index = element_details['index']
                 ele_coef_idx = element_details["exp_i"].index(i)
                 ele_coef = element_details["coef"][ele_coef_idx]
+                if element_details["type"] != "feature":
+                    ele_index = (ele_index[1], ele_index[0])
                 ele_value = self.constrained_model.H[ele_index] if element_details["type"] == "feature" \
                     else self.constrained_model.W[ele_index]
                 base_value = _base_model.H[ele_index] if element_details["type"] == "feature" else _base_model.W[
-- 
2.43.0


From c2b6fb9f5636e785f7e03ad46209cdb8c86b18ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 33/59] fix: constrained features are highlighted in the
 profile plot

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 17bf68d..1dd3d84 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -945,7 +945,7 @@ class ConstrainedModel:
                     marker_line_colors[factor_feature_k] = 'rgb(255,44,44)'
         # Highlight the factor feature elements which were constrained
         for c_key, constraint in self.constraints.items():
-            if constraint.constraint_type == "feature" and constraint.index[0] == factor_idx:
+            if constraint.target == "feature" and constraint.index[0] == factor_idx:
                 marker_line_colors[constraint.index[1]] = 'rgb(122,44,255)'
 
         fig = make_subplots(specs=[[{"secondary_y": True}]], rows=1, cols=1)
-- 
2.43.0


From ec705aa79d99520c26ff96b9b6970e53be552e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 34/59] fix: constrained G-space plot labels its axes with the
 factor they show

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 1dd3d84..1bc499e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1089,8 +1089,8 @@ class ConstrainedModel:
                     go.Scatter(x=b_normalized_factors_contr[:, f1_idx], y=b_normalized_factors_contr[:, f2_idx],
                                mode='markers', name="Base"))
         fp_g_fig.update_layout(title=f"Constrained G-Space Plot", width=800, height=800)
-        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
-        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
+        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
+        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
         fp_g_fig.show()
 
     def plot_factor_contributions(self, feature_idx, threshold: float = 0.06):
-- 
2.43.0


From 9c86746fe591131ef2688cfb130ae4d4e080fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 35/59] fix: ConstrainedModel.save pickles the constrained
 model and returns the path it wrote to

---
 esat/rotational/constrained.py | 36 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 1bc499e..2971cc8 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1174,22 +1174,30 @@ class ConstrainedModel:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
         if os.path.exists(output_directory):
-            self.constrained_model.save(
-                model_name=model_name,
-                output_directory=output_directory,
-                pickle_model=pickle_model,
-                header=self.dh.features)
-            meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
-            metadata = self.metadata
-            metadata["constraints"] = [c.tostring(label=k) for k, c in self.constraints.items()]
-            metadata["expressions"] = self.expressions
-            metadata["softness"] = self.softness
-
-            with open(meta_file, "w") as mfile:
-                json.dump(metadata, mfile, default=np_encoder)
-                logger.info(f"Constrained SA model metadata saved to file: {meta_file}")
+            if pickle_model:
+                file_path = os.path.join(output_directory, f"{model_name}.pkl")
+                with open(file_path, "wb") as save_file:
+                    pickle.dump(self, save_file)
+                    logger.info(f"Constrained SA model saved to pickle file: {file_path}")
+            else:
+                file_path = self.constrained_model.save(
+                    model_name=model_name,
+                    output_directory=output_directory,
+                    pickle_model=False,
+                    header=self.dh.features)
+                meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
+                metadata = {**self.constrained_model.metadata, **self.metadata}
+                metadata["constraints"] = [c.tostring(label=k) for k, c in self.constraints.items()]
+                metadata["expressions"] = self.expressions
+                metadata["softness"] = self.softness
+
+                with open(meta_file, "w") as mfile:
+                    json.dump(metadata, mfile, default=np_encoder)
+                    logger.info(f"Constrained SA model metadata saved to file: {meta_file}")
+            return file_path
         else:
             logger.error(f"Output directory not found. Provided directory: {output_directory}")
+            return None
 
     @staticmethod
     def load(file_path: str):
-- 
2.43.0


From 4d42e493eb6c493cd967076c74ae6cc50d1d8e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 36/59] fix: BatchSA reads init_norm given as a string

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 2562c2f..c9e0b19 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -112,7 +112,7 @@ class BatchSA:
         self.seed = 42 if seed is None else int(seed)
         self.rng = np.random.default_rng(self.seed)
         self.init_method = str(init_method)
-        self.init_norm = bool(init_norm)
+        self.init_norm = init_norm if isinstance(init_norm, bool) else str(init_norm).lower() == "true"
         self.hold_h = hold_h
         self.delay_h = delay_h
         self.use_gpu = use_gpu
-- 
2.43.0


From 8158727e19f5e9b284505bdfca99c5c16d25c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 37/59] fix: BatchSA sequential mode gives each model its own H
 and W like the parallel mode

---
 esat/model/batch_sa.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c9e0b19..e9d8d2d 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -292,7 +292,17 @@ class BatchSA:
                             verbose=self.verbose,
                             use_gpu=self.use_gpu
                         )
-                        _sa.initialize(H=self.H, W=self.W,
+                        i_H = self.H
+                        if self.H is not None:
+                            self.H = np.array(self.H)
+                            if len(self.H.shape) == 3:
+                                i_H = self.H[model_i - 1]
+                        i_W = self.W
+                        if self.W is not None:
+                            self.W = np.array(self.W)
+                            if len(self.W.shape) == 3:
+                                i_W = self.W[model_i - 1]
+                        _sa.initialize(H=i_H, W=i_W,
                                        init_method=self.init_method,
                                        init_norm=self.init_norm)
                         logger.info(f"Training model {model_i} with seed {_seed}.")
-- 
2.43.0


From e95a4d0b8d058451d5dcea4f12b9649aad92cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 38/59] fix: BatchSA sequential mode passes delay_h to the
 models

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index e9d8d2d..204d91a 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -309,7 +309,7 @@ class BatchSA:
                         run = _sa.train(max_iter=self.max_iter, converge_delta=self.converge_delta,
                                         converge_n=self.converge_n,
                                         model_i=model_i, update_step=self.update_step, hold_h=self.hold_h,
-                                        progress_callback=self.progress_callback)
+                                        delay_h=self.delay_h, progress_callback=self.progress_callback)
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
                         logger.info(f"Model {model_i} training completed in {t_delta}.")
-- 
2.43.0


From 8518a609a86fa89a2379202c117bd6b957865197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 39/59] fix: FactorEstimator test mask is the complement of the
 train mask

---
 esat/estimator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 68bb68e..8ae8509 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -71,9 +71,7 @@ class FactorEstimator:
     @staticmethod
     def _random_sample(V, U, mask, seed, factor_n, max_iter: int = 2000, converge_delta: float = 1.0, converge_n: int = 10):
         m_train = np.count_nonzero(mask)
-        i_mask = copy.copy(mask)
-        i_mask[i_mask == 1] = 0
-        i_mask[i_mask == 0] = 1
+        i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
         _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
-- 
2.43.0


From 75eeca96e4362d0105630015da596759fe9fd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 40/59] fix: features_metrics RMSE is the root of the mean
 squared residual

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0dc70f7..43355b5 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -101,7 +101,7 @@ class ModelAnalysis:
             c_var = round(float(V[:, column_i].var()), 4)
             est_mean = round(float(est_V[:, column_i].mean()), 4)
             est_var = round(float(est_V[:, column_i].var()), 4)
-            c_rmse = round(np.sqrt(np.sum((V[:, column_i] - est_V[:, column_i]) ** 2)) / 14, 4)
+            c_rmse = round(np.sqrt(np.mean((V[:, column_i] - est_V[:, column_i]) ** 2)), 4)
             feature_mean.append(c_mean)
             feature_var.append(c_var)
             est_means.append(est_mean)
-- 
2.43.0


From bd8f0f63968dc37037b1b32e890292dda488a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 41/59] fix: calculate_statistics scales the residuals with the
 processed uncertainty

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 43355b5..87cc0f5 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -142,7 +142,7 @@ class ModelAnalysis:
         cats = copy.copy(self.dh.metrics['Category'])
         results = self.model.WH if results is None else results
         residuals = self.dh.input_data_df - results
-        scaled_residuals = residuals / self.dh.uncertainty_data
+        scaled_residuals = residuals / self.dh.uncertainty_data_df
         for feature_idx, x_label in enumerate(self.dh.features):
             observed_data = self.dh.input_data_df[x_label]
             predicted_data = results[:, feature_idx]
-- 
2.43.0


From 635cdab9f96631ec46f28c429486ade35c9c4323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 42/59] fix: Simulator outliers affect the requested proportion
 of the data

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index c2f7a9c..0078f1b 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -248,8 +248,8 @@ class Simulator:
             outlier_mask = self.rng.uniform(size=syn_data.shape)
             outlier_p = self.outlier_p * 0.5
             outlier_n = 1.0 - (self.outlier_p * 0.5)
-            syn_data[outlier_mask <= outlier_n] = syn_data[outlier_mask <= outlier_n] * self.outlier_mag
-            syn_data[outlier_mask >= outlier_p] = syn_data[outlier_mask >= outlier_p] / self.outlier_mag
+            syn_data[outlier_mask <= outlier_p] = syn_data[outlier_mask <= outlier_p] * self.outlier_mag
+            syn_data[outlier_mask >= outlier_n] = syn_data[outlier_mask >= outlier_n] / self.outlier_mag
         # Make sure no negative or zero values are in the dataset
         syn_data[syn_data <= 0.0] = 1e-12
         self.syn_data = syn_data
-- 
2.43.0


From 4ef2952d980277e84c3578e4b42957bd99bb6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 43/59] fix: Simulator synthetic SA instance holds a scalar
 Q(robust)

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 0078f1b..8b77226 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -290,7 +290,7 @@ class Simulator:
         self.syn_sa.H = self.syn_profiles
         self.syn_sa.W = self.syn_contributions
         self.syn_sa.WH = np.matmul(self.syn_contributions, self.syn_profiles)
-        self.syn_sa.Qrobust = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
+        self.syn_sa.Qrobust, _ = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         self.syn_sa.Qtrue = q_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         if self.verbose:
             logger.info("Synthetic source apportionment instance created.")
-- 
2.43.0


From 5bc2a6b3201426ad7228679dbd7edf0b355b58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 44/59] fix: Simulator.generate_profiles does not edit the
 profiles of the caller

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 8b77226..0d3096a 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -154,7 +154,7 @@ class Simulator:
                     ji_value = self.rng.random(size=None)
                     self.syn_profiles[j][i] = float(ji_value)
         else:
-            self.syn_profiles = profiles
+            self.syn_profiles = profiles.copy()
         if _profiles is not None:
             for i in range(_profiles.shape[0]):
                 self.syn_profiles[i] = _profiles[i]
-- 
2.43.0


From 60a790a153f67a59f45e420378bdb7984d83807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 45/59] fix: Simulator comparison plots can show the first
 model

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 0d3096a..e530018 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -379,7 +379,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
@@ -457,7 +457,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
-- 
2.43.0


From 3bd9d15be85e599703a2ce362481af43b513adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 46/59] fix: FactorCompare keeps the estimated data of a model
 in its own rows and columns

---
 eval/factor_comparison.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 1eb6d4c..b2245e5 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -230,11 +230,10 @@ class FactorCompare:
             sa_h_data = i_sa.H
             sa_w_data = i_sa.W
             sa_wh_data = i_sa.WH
-            sa_wh_data = sa_wh_data.reshape(sa_wh_data.shape[1], sa_wh_data.shape[0])
 
             sa_h_df = pd.DataFrame(sa_h_data, columns=species_columns, index=self.sa_factors)
             sa_w_df = pd.DataFrame(sa_w_data, columns=self.sa_factors)
-            sa_wh_df = pd.DataFrame(sa_wh_data.T, columns=species_columns)
+            sa_wh_df = pd.DataFrame(sa_wh_data, columns=species_columns)
 
             sa_wh_e = {}
             for factor in self.sa_factors:
-- 
2.43.0


From fe6c60d310b0e7121523bcf9ed30543754824d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 47/59] fix: SA.initialize with kmeans keeps the H and W given
 by the user

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index b7373e4..b98f07c 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -268,8 +268,8 @@ class SA:
             contributions = np.zeros(shape=(len(clusters), self.factors)) + (1.0 / self.factors)
             for i, c in enumerate(clusters):
                 contributions[i, c] = self.rng.normal(1.0, 0.1, None)
-            W = contributions
-            H = centroids
+            W = contributions if W is None else W
+            H = centroids if H is None else H
             if self.verbose:
                 logger.debug(f"Factor profile and contribution matrices initialized using k-means clustering. "
                              f"The observations were {'not' if not init_norm else ''} normalized.")
-- 
2.43.0


From 5dc106513ec84e32227b4e5b1d0b868289887efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 48/59] fix: FactorCompare base Q uses the uncertainty

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index b2245e5..2ecd16c 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -393,7 +393,7 @@ class FactorCompare:
 
         """
         base_Q = q_loss(V=self.input_df.to_numpy(),
-                        U=self.input_df.to_numpy(),
+                        U=self.uncertainty_df.to_numpy(),
                         W=self.base_contribution_df[self.base_factors].to_numpy(),
                         H=self.base_profile_df[self.base_factors].to_numpy().T
                         )
-- 
2.43.0


From fb1e075007c0dccedc31955bdb8e197fad1de1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 49/59] fix: FactorCompareV2 maps every base factor to its own
 best model factor

---
 eval/factor_comparison.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 2ecd16c..0f69b8a 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -578,15 +578,15 @@ class FactorCompareV2:
         for i, p_model in self.correlation_data.items():
             mapping_values = [-1 for i in range(self.factors)]
             if method == "raae":
-                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=0)
+                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=1)
                 mapping_matrix = np.array(p_model["all_raae"])
                 maximize = False
             elif method == "emc":
-                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=0)
+                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=1)
                 mapping_matrix = np.array(p_model["all_emc"])
                 maximize = True
             else:
-                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=0)
+                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=1)
                 mapping_matrix = np.array(p_model["all_corr"])
                 maximize = True
 
@@ -595,12 +595,12 @@ class FactorCompareV2:
                 model_mapping = optimal_indices
             else:
                 m_bi_matrix = csr_matrix(mapping_matrix)
-                model_mapping = list(min_weight_full_bipartite_matching(m_bi_matrix, maximize=maximize))
+                _, model_mapping = min_weight_full_bipartite_matching(m_bi_matrix, maximize=maximize)
             optimal_index_tuples = list(zip(list(range(self.factors)), model_mapping))
             for j, oi in enumerate(optimal_index_tuples):
                 ele_values = mapping_matrix[oi]
                 mapping_values[j] = np.round(ele_values, 4)
 
-            batch_mapping[i] = optimal_indices
+            batch_mapping[i] = model_mapping
             batch_values[i] = mapping_values
         return batch_mapping, batch_values
\ No newline at end of file
-- 
2.43.0


From 66e819956714b32f2a2d1eda8dd8534a42456018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 50/59] fix: Factor keeps the threshold it is given

---
 eval/factor_catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index e92e3b9..1acdf14 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -34,6 +34,7 @@ class Factor:
         self.correlation = [ 0.0 if method == "raae" else 1.0]
         self.samples = len(contribution)
         self.method = method
+        self.threshold = threshold
         if threshold is None:
             if method == "raae":
                 self.threshold = 0.1
-- 
2.43.0


From c93bc410dc00cdcd7f53fff13048a37226f13375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 51/59] fix: Perturbation leaves the cells outside
 perturb_percent unchanged

---
 eval/perturbation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 6471db8..91eb253 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -178,11 +178,10 @@ class Perturbation:
             i_mask = rng.random(size=self.U[:, i].shape) > _p
             i_mean = 0.0
             i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)
+            i_logn[i_mask] = 1.0
             i_m[:, i] = i_logn
-            i_m[:, i][i_mask] = i_m[:, i][i_mask]
             ij_u = i_u[:, i]
             ij_u = ij_u * i_logn
-            ij_u[i_mask] = ij_u[i_mask]
             ij_u[ij_u <= 0.0] = 1e-12
             i_u[:, i] = ij_u
         return i_u, i_m
-- 
2.43.0


From 0b26546a4a4b8eb62c3deb5dcc79fad53de50fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 52/59] fix: run-error loads the constrained model from the
 file it is saved to

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index af754e6..f83cb32 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -753,7 +753,7 @@ def run_error(project_directory, disp, bs, bsdisp):
 
     if e_config["project"]["constrained_config"] != "":
         constrained_pkl = os.path.join(project_directory, "constrained",
-                                       f"constrained_{config['project']['name']}.pkl")
+                                       f"constrained_model-{config['project']['name']}.pkl")
         c_solution = ConstrainedModel.load(file_path=constrained_pkl)
         logger.info("Using existing constrained model.")
         selected_i = -1
-- 
2.43.0


From 54aa6cc73ef8d6a2e49deecb8a687b6da1541448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 53/59] fix: run-error reads the BSDISP features from the
 bsdisp section

---
 esat/cli/esat_cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index f83cb32..b67a462 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -802,10 +802,9 @@ def run_error(project_directory, disp, bs, bsdisp):
         block_size = dh.optimal_block if block_size == -1 else block_size
         seed = int(e_config["bsdisp"]["seed"])
         seed = selected_model.seed if seed == -1 else seed
-        features = json.loads(e_config["disp"]["features"])
+        features = json.loads(e_config["bsdisp"]["features"])
         features = [int(f) for f in features] if len(features) >= 1 else None
         features_label = features if features is not None else "all"
-        logger.info(f"Running DISP on model {selected_i} for features: {features_label}")
         logger.info(f"Running BSDISP on model {selected_i}, features: {features_label}")
         _bs = None
         if e_config["bsdisp"]["bootstrap_output"] != "":
-- 
2.43.0


From 19796e9c14012506919faa144712a9269fb30ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 54/59] fix: run-error only hands BSDISP a bootstrap when one
 was run

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index b67a462..4638579 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -812,7 +812,7 @@ def run_error(project_directory, disp, bs, bsdisp):
             if os.path.exists(bs_output_file):
                 _bs = Bootstrap.load(bs_output_file)
                 logger.info("Using existing BS solution.")
-        elif bs is not None:
+        elif isinstance(bs, Bootstrap):
             _bs = bs
             logger.info("Using existing BS solution.")
         bsdisp = BSDISP(
-- 
2.43.0


From 77aeafee87061c782f46135603664546f358e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 55/59] fix: error analysis commands accept the one method that
 they ask for

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 4638579..c8dfd68 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -860,7 +860,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
@@ -890,7 +890,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
-- 
2.43.0


From 39b0bb2f6af2b219811cd76c94c445986c115a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 56/59] fix: analysis-input plot-timeseries passes a list of
 features

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index c8dfd68..0207d32 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -415,7 +415,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
     """
     config = get_config(project_directory=project_directory)
     dh = DataHandler(**config["data"])
-    dh.plot_feature_timeseries(feature_selection=list(feature_idx))
+    dh.plot_feature_timeseries(feature_selection=[feature_idx])
 
 
 @esat_cli.command()
-- 
2.43.0


From 25772fa5679a5f46e544c6a209d6dc695c5e77c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 57/59] fix: analysis-constrained keeps both of its
 contribution plots reachable

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 0207d32..00f5fe7 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1108,10 +1108,10 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
     c_model.plot_g_space(factor_idx1=factor_idx1, factor_idx2=factor_idx2, show_base=show_base, show_delta=show_delta)
 
 
-@analysis_constrained.command(name="plot-contributions")
+@analysis_constrained.command(name="plot-factor-contributions")
 @click.argument("project_directory", type=click.Path(exists=True))
 @click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
-def constrained_profile_contributions(project_directory, feature_idx):
+def constrained_factor_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
 
-- 
2.43.0


From 68068abfb8783279b38063a5bd3c378efd844978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 58/59] fix: SA.initialize 'update' method gives ls-nmf a
 positive W

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index b98f07c..32f1f98 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -281,7 +281,7 @@ class SA:
                 H = V_avg * self.rng.standard_normal(size=(self.factors, self.n)).astype(self.V.dtype, copy=False)
             if "update" in init_method.lower():
                 if self.method == "ls-nmf":
-                    W = np.matmul(self.V, H.T)
+                    W = np.matmul(self.V, np.maximum(H, 1e-12).T)
                 else:
                     W, _ = self.update_step(V=self.V, We=self.We, W=None, H=H)
             if W is None:
-- 
2.43.0


From c1ed140b59045db411dbc4655bc9c0ff4b69049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 59/59] fix: SA uses ws-nmf when the given W matrix has
 negative values

---
 esat/model/sa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 32f1f98..6793f94 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -308,6 +308,12 @@ class SA:
         if self.verbose:
             logger.debug("Completed initializing the factor profile and contribution matrices.")
         self.__validate()
+        if self.__has_neg:
+            # A W matrix with negative values is not supported by ls-nmf.
+            self.update_step = WSNMF.update
+            if self.optimized:
+                import esat_rust
+                self.optimized_update = esat_rust.ws_nmf
 
     def summary(self):
         """
-- 
2.43.0

