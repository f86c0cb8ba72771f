From 26d5501cdd19d01368aba09cde2327da61497143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 01/38] fix: keep the best candidate in the GARCH/DCC
 starting-value grid searches

---
 src/frds/algorithms/_garch.py  | 8 ++++++--
 src/frds/algorithms/_mgarch.py | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9857305..9043fe5 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -229,7 +229,9 @@ class GARCHModel:
             sigma2 = self.compute_variance(
                 params, resids, self.backcast_value, self.var_bounds
             )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            loglikelihood = self.loglikelihood(resids, sigma2)
+            if loglikelihood > max_likelihood:
+                max_likelihood = loglikelihood
                 initial_params = params
         return initial_params
 
@@ -493,7 +495,9 @@ class GJRGARCHModel(GARCHModel):
             omega = var * (1 - p)
             params = [omega, alpha, gamma, beta]
             sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            loglikelihood = self.loglikelihood(resids, sigma2)
+            if loglikelihood > max_likelihood:
+                max_likelihood = loglikelihood
                 initial_params = params
         return initial_params
 
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c2c8a14..f38fdf3 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -313,6 +313,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 continue
             ll = -self.loglikelihood_model([a, b])
             if ll > max_ll:
+                max_ll = ll
                 initial_values = [a, b]
         return initial_values
 
-- 
2.43.0


From fec337bdfb5f7af943de515b535f740311aaae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 02/38] fix: GARCHModel.fit returns the estimates when the
 model is already fitted

---
 src/frds/algorithms/_garch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9043fe5..8f07a14 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -56,7 +56,7 @@ class GARCHModel:
         """
         # No repeated estimation?
         if self.estimation_success:
-            return
+            return self.parameters
 
         starting_vals = self.preparation()
 
-- 
2.43.0


From 73339c96d8c170aa56c4963fbc980e1c726a599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 03/38] fix: do not re-estimate a GJRGARCHModel that is already
 fitted

---
 src/frds/algorithms/_garch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 8f07a14..0e40dd9 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -361,6 +361,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
         """
+        # No repeated estimation
+        if self.estimation_success:
+            return self.parameters
+
         starting_vals = self.preparation()
 
         bounds = [
-- 
2.43.0


From 0aafbd4697d58fb8ee0d7d63e37000dbea8b2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 04/38] fix: pure-Python DCC correlations use the same Q_bar as
 the extension

---
 src/frds/algorithms/_mgarch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index f38fdf3..47d0a45 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -386,9 +386,11 @@ class GARCHModel_DCC(GARCHModel_CCC):
         # z1 and z2 are standardized residuals
         z1 = resids1 / np.sqrt(sigma2_1)
         z2 = resids2 / np.sqrt(sigma2_2)
-        Q_bar = np.corrcoef(z1, z2)
-        q_11_bar, q_12_bar, q_22_bar = Q_bar[0, 0], Q_bar[0, 1], Q_bar[1, 1]
         T = len(z1)
+        # Since z1 z2 have zero mean, use second moments as in the C++ extension
+        q_11_bar = np.dot(z1, z1) / T
+        q_12_bar = np.dot(z1, z2) / T
+        q_22_bar = np.dot(z2, z2) / T
         q11 = np.empty_like(z1)
         q12 = np.empty_like(z1)
         q22 = np.empty_like(z1)
-- 
2.43.0


From 43fdb9a2d11848065c14c5db6b4ecfb35f45de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 05/38] fix: volatility kernels accept strided and non-double
 arrays

---
 src/frds/algorithms/utils/utils_module.cpp | 53 ++++++++++++++++++----
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index dba85ae..523edd4 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -13,6 +13,13 @@
 
 #include "numpy/arrayobject.h"
 
+// The kernels read plain C-contiguous doubles, so convert strided arrays and
+// arrays of other types first. Returns a new reference.
+static PyArrayObject *as_double_array(PyArrayObject *arr) {
+  return (PyArrayObject *)PyArray_FROM_OTF((PyObject *)arr, NPY_DOUBLE,
+                                           NPY_ARRAY_IN_ARRAY);
+}
+
 // The wrapper function to be called from Python
 static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
   PyArrayObject *resids_in;
@@ -24,18 +31,25 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  PyArrayObject *resids = as_double_array(resids_in);
+  if (resids == NULL) {
+    return NULL;
+  }
+
   // Construct the output array
-  int T = PyArray_DIM(resids_in, 0);
+  int T = PyArray_DIM(resids, 0);
   npy_intp dims[1] = {T};
   PyObject *variance_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
   if (variance_out == NULL) {
+    Py_DECREF(resids);
     return NULL;
   }
 
   // Call the core EWMA function
-  ewma((double *)PyArray_DATA(resids_in),
+  ewma((double *)PyArray_DATA(resids),
        (double *)PyArray_DATA((PyArrayObject *)variance_out), T, initial_value,
        lam);
+  Py_DECREF(resids);
 
   return variance_out;
 }
@@ -51,9 +65,14 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
   }
 
   // Extract lower and upper bounds
-  double *bounds_ptr = (double *)PyArray_DATA(var_bounds_in);
+  PyArrayObject *var_bounds = as_double_array(var_bounds_in);
+  if (var_bounds == NULL) {
+    return NULL;
+  }
+  double *bounds_ptr = (double *)PyArray_DATA(var_bounds);
   double lower = bounds_ptr[0];
   double upper = bounds_ptr[1];
+  Py_DECREF(var_bounds);
 
   // Call the core bounds_check function
   double result = bounds_check(sigma2, lower, upper);
@@ -91,19 +110,27 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   }
   Py_DECREF(iter);
 
+  PyArrayObject *resids = as_double_array(resids_in);
+  PyArrayObject *var_bounds = as_double_array(var_bounds_in);
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
   PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
-  if (sigma2_out == NULL) {
+  if (resids == NULL || var_bounds == NULL || sigma2_out == NULL) {
+    Py_XDECREF(resids);
+    Py_XDECREF(var_bounds);
+    Py_XDECREF(sigma2_out);
     return NULL;
   }
 
   // Call the core compute_garch_variance function
   compute_garch_variance((double *)PyArray_DATA((PyArrayObject *)sigma2_out),
-                         (double *)PyArray_DATA(resids_in),
-                         (double *)PyArray_DATA(var_bounds_in), T, params,
+                         (double *)PyArray_DATA(resids),
+                         (double *)PyArray_DATA(var_bounds), T, params,
                          backcast);
+  Py_DECREF(resids);
+  Py_DECREF(var_bounds);
 
   return sigma2_out;
 }
@@ -138,19 +165,27 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   }
   Py_DECREF(iter);
 
+  PyArrayObject *resids = as_double_array(resids_in);
+  PyArrayObject *var_bounds = as_double_array(var_bounds_in);
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
   PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
-  if (sigma2_out == NULL) {
+  if (resids == NULL || var_bounds == NULL || sigma2_out == NULL) {
+    Py_XDECREF(resids);
+    Py_XDECREF(var_bounds);
+    Py_XDECREF(sigma2_out);
     return NULL;
   }
 
   // Call the core compute_gjrgarch_variance function
   compute_gjrgarch_variance((double *)PyArray_DATA((PyArrayObject *)sigma2_out),
-                            (double *)PyArray_DATA(resids_in),
-                            (double *)PyArray_DATA(var_bounds_in), T, params,
+                            (double *)PyArray_DATA(resids),
+                            (double *)PyArray_DATA(var_bounds), T, params,
                             backcast);
+  Py_DECREF(resids);
+  Py_DECREF(var_bounds);
 
   return sigma2_out;
 }
-- 
2.43.0


From 937f0da2784fdb17c839c017f89768d21504bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 06/38] fix: volatility kernels reject arrays and parameters of
 the wrong shape

---
 src/frds/algorithms/utils/utils_module.cpp | 38 ++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index 523edd4..207cc6c 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -95,7 +95,9 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   }
 
   // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2) {
+  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2 ||
+      PyArray_DIM(var_bounds_in, 0) < PyArray_DIM(resids_in, 0) ||
+      PyArray_DIM(var_bounds_in, 1) != 2) {
     PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
     return NULL;
   }
@@ -103,12 +105,22 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   // Extract parameters
   std::vector<double> params;
   PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return NULL;
+  }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
     Py_DECREF(item);
   }
   Py_DECREF(iter);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
+  if (params.size() != 3) {
+    PyErr_SetString(PyExc_ValueError, "Invalid number of parameters");
+    return NULL;
+  }
 
   PyArrayObject *resids = as_double_array(resids_in);
   PyArrayObject *var_bounds = as_double_array(var_bounds_in);
@@ -150,7 +162,9 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   }
 
   // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2) {
+  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2 ||
+      PyArray_DIM(var_bounds_in, 0) < PyArray_DIM(resids_in, 0) ||
+      PyArray_DIM(var_bounds_in, 1) != 2) {
     PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
     return NULL;
   }
@@ -158,12 +172,22 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   // Extract parameters
   std::vector<double> params;
   PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return NULL;
+  }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
     Py_DECREF(item);
   }
   Py_DECREF(iter);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
+  if (params.size() != 4) {
+    PyErr_SetString(PyExc_ValueError, "Invalid number of parameters");
+    return NULL;
+  }
 
   PyArrayObject *resids = as_double_array(resids_in);
   PyArrayObject *var_bounds = as_double_array(var_bounds_in);
@@ -204,6 +228,16 @@ static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
     return NULL;
   }
 
+  // Check dimensions
+  if (PyArray_NDIM(resids1) != 1 || PyArray_NDIM(resids2) != 1 ||
+      PyArray_NDIM(sigma2_1) != 1 || PyArray_NDIM(sigma2_2) != 1 ||
+      PyArray_DIM(resids2, 0) != PyArray_DIM(resids1, 0) ||
+      PyArray_DIM(sigma2_1, 0) != PyArray_DIM(resids1, 0) ||
+      PyArray_DIM(sigma2_2, 0) != PyArray_DIM(resids1, 0)) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+
   std::vector<double> rho =
       DCC::conditional_correlations(a, b, resids1, resids2, sigma2_1, sigma2_2);
 
-- 
2.43.0


From bdabf16ddcd8a01ab4d56e24af4db93908936a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 07/38] fix: absorption ratio stays real when assets outnumber
 days

---
 src/frds/measures/_absorption_ratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_absorption_ratio.py b/src/frds/measures/_absorption_ratio.py
index 14f88e4..6b101e4 100644
--- a/src/frds/measures/_absorption_ratio.py
+++ b/src/frds/measures/_absorption_ratio.py
@@ -48,4 +48,4 @@ class AbsorptionRatio:
         Returns:
             np.ndarray: eigenvalues
         """
-        return np.linalg.eigvals(self.asset_covariance)
+        return np.linalg.eigvalsh(self.asset_covariance)
-- 
2.43.0


From 24645c6dc8a3e89dc233133ca973c3c90f417e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 08/38] fix: start the CCA solver from a point where it
 converges

---
 src/frds/measures/_contingent_claim_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_contingent_claim_analysis.py b/src/frds/measures/_contingent_claim_analysis.py
index f2d955b..ea463f0 100644
--- a/src/frds/measures/_contingent_claim_analysis.py
+++ b/src/frds/measures/_contingent_claim_analysis.py
@@ -47,9 +47,12 @@ class ContingentClaimAnalysis:
 
         # We need to solve a system of non-linear equations for asset price and asset volatility
         # x = [equity, volatility]
+        init_asset = equity + default_barrier * exp(-risk_free_rate * time_to_maturity)
         x = fsolve(
             cca_func,
-            (equity, volatility),  # initial values set to equity and its volatility
+            # initial values set to the square roots of equity plus discounted debt
+            # and of the equity volatility de-levered accordingly
+            (sqrt(init_asset), sqrt(volatility * equity / init_asset)),
             args=(
                 equity,
                 volatility,
-- 
2.43.0


From c33060f1205d18bced08d7692331d6fba46b7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 09/38] fix: import blsprice in modified_merton from where it
 is defined

---
 src/frds/measures/modified_merton/find_face_value_indiv.py | 2 +-
 src/frds/measures/modified_merton/merton_solution.py       | 2 +-
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/find_face_value_indiv.py b/src/frds/measures/modified_merton/find_face_value_indiv.py
index 19de9fa..670d313 100644
--- a/src/frds/measures/modified_merton/find_face_value_indiv.py
+++ b/src/frds/measures/modified_merton/find_face_value_indiv.py
@@ -1,5 +1,5 @@
 import numpy as np
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def find_face_value_indiv(
diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index d844421..fc1d910 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -3,7 +3,7 @@ from scipy.optimize import fsolve
 from scipy.stats import norm
 from typing import Tuple
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def merton_solution(
diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 07c3835..1cc1622 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,7 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
 from frds.measures.modified_merton.mod_merton_create_lookup import (
-- 
2.43.0


From 1ae30e93b3fcbdbc5c7bdaf40b38335d8a53c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 10/38] fix: aggregate SRISK of one firm when no systemic event
 is simulated

---
 src/frds/measures/_srisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index b709b6c..1788e91 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -94,4 +94,4 @@ class SRISK:
         if not aggregate_srisk:
             return srisk
         else:
-            return np.sum(srisk.clip(min=0.0))
+            return np.sum(np.clip(srisk, 0.0, None))
-- 
2.43.0


From c15021064bcab816863a0b44184df04bb7c9f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 11/38] fix: trade directions given as a list or Series are
 used, not ignored

---
 src/frds/measures/price_impact.py | 3 ++-
 src/frds/measures/spread.py       | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 40b8d53..af8b5f9 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -29,7 +29,7 @@ def simple_price_impact(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(midpoint_later - midpoint) / midpoint * 100
@@ -37,6 +37,7 @@ def simple_price_impact(
             spread = 2 * np.absolute(np.log(midpoint_later) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert midpoint.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100
diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index 30504c2..ab90809 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -50,7 +50,7 @@ def effective_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint) / midpoint * 100
@@ -58,6 +58,7 @@ def effective_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint) / midpoint * 100
@@ -98,7 +99,7 @@ def realized_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint_later) / midpoint * 100
@@ -106,6 +107,7 @@ def realized_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint_later))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint_later) / midpoint * 100
-- 
2.43.0


From 4da5a13e76b21ce43447a7b9e525b70e061185a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 12/38] fix: each access to a dataset returns its own copy

---
 src/frds/datasets/_stocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/datasets/_stocks.py b/src/frds/datasets/_stocks.py
index 2a210ff..63b45ca 100644
--- a/src/frds/datasets/_stocks.py
+++ b/src/frds/datasets/_stocks.py
@@ -38,7 +38,8 @@ class _StockReturns(metaclass=SingletonMeta):
         path = f"{os.path.join(_current_directory, 'stocks_us.csv.zip')}"
         if self._stocks_us is None:
             self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])
-        return self._stocks_us
+        # A copy, so that callers changing it do not affect one another
+        return self._stocks_us.copy()
 
 
 StockReturns = _StockReturns()
-- 
2.43.0


From 8635768bbdbb96ca62114144703e66480e61b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 13/38] fix: DIP keeps simulated losses that round up to the
 total liabilities

---
 src/frds/measures/_distress_insurance_premium.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 37dea74..d8fd355 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -67,7 +67,8 @@ class DistressInsurancePremium:
         intervals = 100
         loss_given_default *= intervals
 
-        prob_losses = np.zeros(n_banks * intervals)
+        # There is one more slot than intervals, for losses rounded up to N
+        prob_losses = np.zeros(n_banks * intervals + 1)
         for i in range(n_banks):
             for j in range(n_simulations):
                 # Multiply losses_given_default(i,j) by intervals to find the right slot
@@ -83,7 +84,7 @@ class DistressInsurancePremium:
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks)),
+            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
         ) / (100 * prob_great_losses)
 
-- 
2.43.0


From 96d880587a9c043862287102f0e528a88fa6c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 14/38] fix: DIP thresholds such as 0.29 are not truncated to
 the next lower percent

---
 src/frds/measures/_distress_insurance_premium.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index d8fd355..2c58344 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -78,7 +78,8 @@ class DistressInsurancePremium:
 
         # Convert to probabilities
         prob_losses = prob_losses / n_simulations
-        pct_threshold = int(default_threshold * 100)
+        # Rounded first, because e.g. 0.29 * 100 is slightly less than 29
+        pct_threshold = int(round(default_threshold * 100, 6))
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
-- 
2.43.0


From 55a1a1b288e67c097497975d805dcac3afa96270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 15/38] fix: DIP is zero, not NaN, when no simulated loss
 exceeds the threshold

---
 src/frds/measures/_distress_insurance_premium.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 2c58344..8426ae4 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -83,6 +83,8 @@ class DistressInsurancePremium:
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
+        if prob_great_losses == 0:
+            return 0.0
 
         exp_losses = np.dot(
             np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
-- 
2.43.0


From 5ae8372d693c0db1304cf9ada40018c1d869e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 16/38] fix: each isolation tree is grown from its own sample
 only

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 576d94b..a18ad41 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -151,7 +151,6 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
-    std::vector<size_t> sample;
     // Make use of nObs and randomSeed in later random engine init
     auto random_offset =
         this->nObs %
@@ -162,6 +161,7 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
       static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      std::vector<size_t> sample;
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
-- 
2.43.0


From 5c023336007bd26574ea20e36a64c2c5dbc2d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 17/38] fix: isolation forest scores do not depend on the
 number of worker threads

---
 .../isolation_forest/IsolationForest.cpp        | 17 +++++++++--------
 .../isolation_forest/IsolationForest.hpp        |  2 +-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index a18ad41..5f8d9e0 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -94,7 +94,7 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       nObs(PyArray_DIM(num_data, 1)) {
   this->num_data = num_data;
   this->char_data = char_data;
-  this->trees.reserve(forestSize);
+  this->trees.resize(forestSize);
   this->anomalyScores.resize(this->nObs);
   // this->randomGen = std::mt19937_64(randomSeed);
   this->uniformDist =
@@ -145,9 +145,8 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const unsigned int thread_id,
-                                  const unsigned int jobs) {
-  return std::thread([this, thread_id, jobs] {
+std::thread IsolationForest::grow(const size_t first_tree, const size_t jobs) {
+  return std::thread([this, first_tree, jobs] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -155,19 +154,19 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     auto random_offset =
         this->nObs %
         (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
-    for (size_t i = thread_id * jobs; i < thread_id * jobs + jobs; i++) {
+    for (size_t i = first_tree; i < first_tree + jobs; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      auto randomGen = std::mt19937_64(i + random_offset);
       std::vector<size_t> sample;
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
       growTree(sample, tree->root, 0, randomGen);
       this->mylock.lock();
-      this->trees.push_back(std::move(tree));
+      this->trees[i] = std::move(tree);
       this->mylock.unlock();
     }
   });
@@ -177,6 +176,7 @@ void IsolationForest::grow() {
   const auto jobs_per_processor = this->forestSize / this->workers;
   std::vector<std::thread> ts;
   ts.reserve(this->workers);
+  size_t first_tree = 0;
 
   Py_BEGIN_ALLOW_THREADS
 
@@ -184,7 +184,8 @@ void IsolationForest::grow() {
     auto jobs =
         i == 0 ? this->forestSize - jobs_per_processor * (this->workers - 1)
                : jobs_per_processor;
-    auto t = this->grow(i, jobs);
+    auto t = this->grow(first_tree, jobs);
+    first_tree += jobs;
     ts.push_back(std::move(t));
   }
 
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e7c2ffd..2593957 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -61,7 +61,7 @@ class IsolationForest {
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
                 std::mt19937_64 randomGen);
-  std::thread grow(const unsigned int thread_id, const unsigned int jobs);
+  std::thread grow(const size_t first_tree, const size_t jobs);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
-- 
2.43.0


From d60ecae6958e2b74a23e81b7534c37a9b9e43827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 18/38] fix: score observations with NaN down the branch they
 were grown into

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 5f8d9e0..92e931f 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -123,7 +123,9 @@ double IsolationForest::pathLength(size_t const &ob,
   if (node->splitAttribute < this->n_num_attrs) {
     DataType val =
         *(DataType *)PyArray_GETPTR2(this->num_data, node->splitAttribute, ob);
-    if (val < node->splitValue) {
+    // Go the way growTree sent the observations, NAN included
+    if (isnan(node->splitValue) ? isnan(val)
+                                : isnan(val) || val < node->splitValue) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 11fd16c94db5ea3c7845a9511083328ba1ae8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 19/38] fix: isolation forest reads the longest strings of a
 column correctly

---
 src/frds/algorithms/isolation_forest/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/frds/algorithms/isolation_forest/__init__.py b/src/frds/algorithms/isolation_forest/__init__.py
index 17e3d9b..640a389 100644
--- a/src/frds/algorithms/isolation_forest/__init__.py
+++ b/src/frds/algorithms/isolation_forest/__init__.py
@@ -32,6 +32,8 @@ def anomaly_scores(
     obs = data.index
     # We need to differentiate numeric columns and character ones
     char_data = data.select_dtypes(include=[object]).to_numpy(dtype=np.string_).T
+    # The extension expects strings to be NUL-terminated, the longest ones too
+    char_data = char_data.astype(f"S{char_data.dtype.itemsize + 1}")
     # convert input dataset from an indexed `pd.DataFrame` to a `np.ndarray`
     num_data = data.select_dtypes(include=[np.number]).to_numpy(dtype=np.double).T
     _, n_obs = num_data.shape
-- 
2.43.0


From 686733a8e59de7ddef297ac93952c7bde5d54e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 20/38] fix: every random_seed of the isolation forest selects
 its own forest

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 92e931f..361ac0b 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -152,16 +152,13 @@ std::thread IsolationForest::grow(const size_t first_tree, const size_t jobs) {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
-    // Make use of nObs and randomSeed in later random engine init
-    auto random_offset =
-        this->nObs %
-        (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
     for (size_t i = first_tree; i < first_tree + jobs; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      auto randomGen = std::mt19937_64(i + random_offset);
+      std::seed_seq seeds{this->randomSeed, i};
+      auto randomGen = std::mt19937_64(seeds);
       std::vector<size_t> sample;
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
-- 
2.43.0


From c5f69005aaf1b84602268291e7bbaa47f5b42844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 21/38] fix: variance paths of integer residuals are not
 truncated to integers

---
 src/frds/algorithms/_garch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 0e40dd9..d4a9a1b 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -191,7 +191,7 @@ class GARCHModel:
         if USE_CPP_EXTENSION:
             return ext.compute_garch_variance(params, resids, backcast, var_bounds)
         omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = omega + (alpha + beta) * backcast
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
@@ -433,7 +433,7 @@ class GJRGARCHModel(GARCHModel):
             return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
         # fmt: off
         omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
@@ -459,7 +459,7 @@ class GJRGARCHModel(GARCHModel):
         """
         # fmt: off
         omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = initial_variance
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-- 
2.43.0


From 1fb6cf14587e8eef85d8bf961c409615ae2f46cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 22/38] fix: GARCH fits do not end below the likelihood of
 their starting values

---
 src/frds/algorithms/_garch.py  | 46 +++++++++++++++++++++++++++++-----
 src/frds/algorithms/_mgarch.py |  7 +++---
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index d4a9a1b..8f49872 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -12,6 +12,40 @@ except ImportError:
     USE_CPP_EXTENSION = False
 
 
+def minimize_from(
+    starting_vals: List[float], fun, args: tuple, scale: int, **kwargs
+) -> OptimizeResult:
+    """Minimizes the negative log-likelihood from the starting values.
+
+    The first step of the optimizer may overshoot to where the likelihood is flat, and
+    it then stops there, short of the starting values. If so, the average negative
+    log-likelihood is minimized instead, whose gradient is ``scale`` times smaller.
+
+    Args:
+        starting_vals (List[float]): starting values
+        fun: negative log-likelihood
+        args (tuple): the other arguments of ``fun``
+        scale (int): number of observations
+        **kwargs: bounds and constraints
+
+    Returns:
+        OptimizeResult: not successful if it is worse than the starting values
+    """
+    initial = fun(np.asarray(starting_vals), *args)
+    for n in (1, scale):
+        opt: OptimizeResult = minimize(
+            lambda params: fun(params, *args) / n,
+            starting_vals,
+            method="SLSQP",
+            **kwargs,
+        )
+        opt.fun *= n
+        opt.success = bool(opt.success and not opt.fun > initial)
+        if opt.success:
+            break
+    return opt
+
+
 class GARCHModel:
     """:doc:`/algorithms/garch` model with constant mean and Normal noise
 
@@ -83,11 +117,11 @@ class GARCHModel:
                 "Values in x were outside bounds during a minimize step",
                 RuntimeWarning,
             )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
+            opt = minimize_from(
                 starting_vals,
+                self.loglikelihood_model,
                 args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
+                scale=len(self.returns),
                 bounds=bounds,
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
@@ -389,11 +423,11 @@ class GJRGARCHModel(GARCHModel):
                 "Values in x were outside bounds during a minimize step",
                 RuntimeWarning,
             )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
+            opt = minimize_from(
                 starting_vals,
+                self.loglikelihood_model,
                 args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
+                scale=len(self.returns),
                 bounds=bounds,
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index 47d0a45..8d731ab 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -6,6 +6,7 @@ import numpy as np
 from scipy.optimize import minimize, OptimizeResult
 
 from frds.algorithms import GARCHModel, GJRGARCHModel
+from frds.algorithms._garch import minimize_from
 
 USE_CPP_EXTENSION = True
 
@@ -104,11 +105,11 @@ class GARCHModel_CCC:
                 "Values in x were outside bounds during a minimize step",
                 RuntimeWarning,
             )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
+            opt = minimize_from(
                 starting_vals,
+                self.loglikelihood_model,
                 args=(m1.backcast_value, m2.backcast_value, m1.var_bounds, m2.var_bounds),
-                method="SLSQP",
+                scale=len(self.returns1),
                 bounds=bounds,
                 constraints=[
                     {"type": "ineq", "fun": persistence_smaller_than_one_1},
-- 
2.43.0


From 372fa45b96ae81ca6fa710ae1473c8dc09633a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 23/38] fix: a fitted GARCH model keeps the variances of its
 reported estimates

---
 src/frds/algorithms/_garch.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 8f49872..caecba7 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -76,8 +76,8 @@ class GARCHModel:
         self.estimation_success = False
         self.loglikelihood_final = np.nan
         self.parameters = type(self).Parameters()
-        self.resids = np.empty_like(self.returns)
-        self.sigma2 = np.empty_like(self.returns)
+        self.resids = np.full_like(self.returns, np.nan)
+        self.sigma2 = np.full_like(self.returns, np.nan)
         self.backcast_value = np.nan
         self.var_bounds: np.ndarray = None
         self.zero_mean = zero_mean
@@ -132,6 +132,12 @@ class GARCHModel:
                 else:
                     self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                 self.resids = self.returns - self.parameters.mu
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
 
         return self.parameters
 
@@ -181,13 +187,11 @@ class GARCHModel:
         """
         if zero_mean:
             resids = self.returns
-            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
         else:
             resids = self.returns - params[0]  # params[0] is mu
-            self.sigma2 = self.compute_variance(
-                params[1:], resids, backcast, var_bounds
-            )
-        return -self.loglikelihood(resids, self.sigma2)
+            sigma2 = self.compute_variance(params[1:], resids, backcast, var_bounds)
+        return -self.loglikelihood(resids, sigma2)
 
     @staticmethod
     def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
@@ -442,6 +446,12 @@ class GJRGARCHModel(GARCHModel):
                         *list(opt.x), loglikelihood=-opt.fun
                     )
                 self.resids = self.returns - self.parameters.mu
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
 
         return self.parameters
 
-- 
2.43.0


From d407cb74bac6a5e115fbcce7d9fcdab80afd028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 24/38] fix: EWMA, clamp and correlation kernels reject arrays
 of the wrong shape

---
 src/frds/algorithms/utils/utils_module.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index 207cc6c..c3126eb 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -31,6 +31,12 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  // Check dimensions
+  if (PyArray_NDIM(resids_in) != 1) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+
   PyArrayObject *resids = as_double_array(resids_in);
   if (resids == NULL) {
     return NULL;
@@ -64,6 +70,12 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  // Check dimensions
+  if (PyArray_NDIM(var_bounds_in) != 1 || PyArray_DIM(var_bounds_in, 0) < 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+
   // Extract lower and upper bounds
   PyArrayObject *var_bounds = as_double_array(var_bounds_in);
   if (var_bounds == NULL) {
@@ -231,6 +243,7 @@ static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
   // Check dimensions
   if (PyArray_NDIM(resids1) != 1 || PyArray_NDIM(resids2) != 1 ||
       PyArray_NDIM(sigma2_1) != 1 || PyArray_NDIM(sigma2_2) != 1 ||
+      PyArray_DIM(resids1, 0) < 1 ||
       PyArray_DIM(resids2, 0) != PyArray_DIM(resids1, 0) ||
       PyArray_DIM(sigma2_1, 0) != PyArray_DIM(resids1, 0) ||
       PyArray_DIM(sigma2_2, 0) != PyArray_DIM(resids1, 0)) {
-- 
2.43.0


From 0c0b9f587bcc70402eeab64ad7f09dce5cf06e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 25/38] fix: correlation kernel accepts residuals and variances
 that are not doubles

---
 src/frds/algorithms/utils/utils_module.cpp | 49 ++++++++++++++--------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index c3126eb..49fd01f 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -229,34 +229,47 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
 static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
                                                       PyObject *args) {
   double a, b;
-  PyArrayObject *resids1;
-  PyArrayObject *resids2;
-  PyArrayObject *sigma2_1;
-  PyArrayObject *sigma2_2;
-
-  if (!PyArg_ParseTuple(args, "ddO!O!O!O!", &a, &b, &PyArray_Type, &resids1,
-                        &PyArray_Type, &resids2, &PyArray_Type, &sigma2_1,
-                        &PyArray_Type, &sigma2_2)) {
+  PyArrayObject *in[4];
+
+  if (!PyArg_ParseTuple(args, "ddO!O!O!O!", &a, &b, &PyArray_Type, &in[0],
+                        &PyArray_Type, &in[1], &PyArray_Type, &in[2],
+                        &PyArray_Type, &in[3])) {
     return NULL;
   }
 
   // Check dimensions
-  if (PyArray_NDIM(resids1) != 1 || PyArray_NDIM(resids2) != 1 ||
-      PyArray_NDIM(sigma2_1) != 1 || PyArray_NDIM(sigma2_2) != 1 ||
-      PyArray_DIM(resids1, 0) < 1 ||
-      PyArray_DIM(resids2, 0) != PyArray_DIM(resids1, 0) ||
-      PyArray_DIM(sigma2_1, 0) != PyArray_DIM(resids1, 0) ||
-      PyArray_DIM(sigma2_2, 0) != PyArray_DIM(resids1, 0)) {
-    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
-    return NULL;
+  for (PyArrayObject *arr : in) {
+    if (PyArray_NDIM(arr) != 1 || PyArray_DIM(arr, 0) < 1 ||
+        PyArray_DIM(arr, 0) != PyArray_DIM(in[0], 0)) {
+      PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+      return NULL;
+    }
   }
 
-  std::vector<double> rho =
-      DCC::conditional_correlations(a, b, resids1, resids2, sigma2_1, sigma2_2);
+  PyArrayObject *resids1 = as_double_array(in[0]);
+  PyArrayObject *resids2 = as_double_array(in[1]);
+  PyArrayObject *sigma2_1 = as_double_array(in[2]);
+  PyArrayObject *sigma2_2 = as_double_array(in[3]);
+  std::vector<double> rho;
+  bool converted = resids1 && resids2 && sigma2_1 && sigma2_2;
+  if (converted) {
+    rho = DCC::conditional_correlations(a, b, resids1, resids2, sigma2_1,
+                                        sigma2_2);
+  }
+  Py_XDECREF(resids1);
+  Py_XDECREF(resids2);
+  Py_XDECREF(sigma2_1);
+  Py_XDECREF(sigma2_2);
+  if (!converted) {
+    return NULL;
+  }
 
   npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};
   PyArrayObject *py_rho =
       (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+  if (py_rho == NULL) {
+    return NULL;
+  }
   std::copy(rho.begin(), rho.end(), (double *)PyArray_DATA(py_rho));
 
   return (PyObject *)py_rho;
-- 
2.43.0


From 6219181012f99623bf29067707c1813079cf0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 26/38] fix: LRMES simulation kernel checks and converts the
 arrays it is given

---
 src/frds/measures/measures_module.cpp | 32 ++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/frds/measures/measures_module.cpp b/src/frds/measures/measures_module.cpp
index 6356f96..b4abf14 100644
--- a/src/frds/measures/measures_module.cpp
+++ b/src/frds/measures/measures_module.cpp
@@ -20,26 +20,48 @@ simulation(PyArrayObject *innovation, double C, double firm_var, double mkt_var,
            double alpha_m, double gamma_m, double beta_m);
 
 static PyObject *lrmes_simulation_wrapper(PyObject *self, PyObject *args) {
-  PyArrayObject *innovation;
+  PyObject *innovation_in, *Q_bar_in;
   double C, firm_var, mkt_var, firm_resid, mkt_resid, a, b, rho;
-  PyArrayObject *Q_bar;
   double mu_i, omega_i, alpha_i, gamma_i, beta_i;
   double mu_m, omega_m, alpha_m, gamma_m, beta_m;
 
-  if (!PyArg_ParseTuple(args, "OddddddddOdddddddddd", &innovation, &C,
-                        &firm_var, &mkt_var, &firm_resid, &mkt_resid, &a, &b,
-                        &rho, &Q_bar, &mu_i, &omega_i, &alpha_i, &gamma_i,
+  if (!PyArg_ParseTuple(args, "OddddddddOdddddddddd", &innovation_in,
+                        &C, &firm_var, &mkt_var, &firm_resid, &mkt_resid, &a, &b,
+                        &rho, &Q_bar_in, &mu_i, &omega_i, &alpha_i, &gamma_i,
                         &beta_i, &mu_m, &omega_m, &alpha_m, &gamma_m,
                         &beta_m)) {
     return NULL;
   }
 
+  // The simulation reads doubles, so convert other arrays and sequences first
+  PyArrayObject *innovation = (PyArrayObject *)PyArray_FROM_OTF(
+      innovation_in, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+  PyArrayObject *Q_bar = (PyArrayObject *)PyArray_FROM_OTF(
+      Q_bar_in, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+  if (innovation == NULL || Q_bar == NULL) {
+    Py_XDECREF(innovation);
+    Py_XDECREF(Q_bar);
+    return NULL;
+  }
+
+  // Check dimensions
+  if (PyArray_NDIM(innovation) != 2 || PyArray_DIM(innovation, 1) != 2 ||
+      PyArray_NDIM(Q_bar) != 2 || PyArray_DIM(Q_bar, 0) != 2 ||
+      PyArray_DIM(Q_bar, 1) != 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    Py_DECREF(innovation);
+    Py_DECREF(Q_bar);
+    return NULL;
+  }
+
   double firmret;
   bool systemic_event;
   std::tie(firmret, systemic_event) =
       simulation(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b,
                  rho, Q_bar, mu_i, omega_i, alpha_i, gamma_i, beta_i, mu_m,
                  omega_m, alpha_m, gamma_m, beta_m);
+  Py_DECREF(innovation);
+  Py_DECREF(Q_bar);
 
   return Py_BuildValue("db", firmret, systemic_event);
 }
-- 
2.43.0


From 084182c9b27491cf25e108b7bab06d89f481687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 27/38] fix: isolation forest does not leak an object per score

---
 src/frds/algorithms/isolation_forest/iforest_module.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index a044a4a..e3743b8 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -51,8 +51,7 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
 
   // write the ascores to the output array
   for (npy_intp i = 0; i < nObs; i++) {
-    PyArray_SETITEM(outArr, (char *)PyArray_GETPTR1(outArr, i),
-                    PyFloat_FromDouble(iforest.anomalyScores[i]));
+    *(double *)PyArray_GETPTR1(outArr, i) = iforest.anomalyScores[i];
   }
 
   Py_DECREF(num_arr);
-- 
2.43.0


From 0c5380f6c36461b7b44866d6e2fe8010431c789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 28/38] fix: isolation forest rejects frames and sizes it
 cannot grow a forest from

---
 .../isolation_forest/iforest_module.cpp       | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index e3743b8..1d546cd 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -24,7 +24,10 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
   if (num_arr == NULL) return NULL;
   char_arr = (PyArrayObject *)PyArray_FROM_OTF(char_data, NPY_STRING,
                                                NPY_ARRAY_IN_ARRAY);
-  if (char_arr == NULL) return NULL;
+  if (char_arr == NULL) {
+    Py_DECREF(num_arr);
+    return NULL;
+  }
 
 #if NPY_API_VERSION >= 0x0000000c
   outArr = (PyArrayObject *)PyArray_FROM_OTF(out, NPY_DOUBLE,
@@ -40,6 +43,24 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  // There must be attributes to split on, and the arrays must agree on the
+  // number of observations
+  if (PyArray_NDIM(num_arr) != 2 || PyArray_NDIM(char_arr) != 2 ||
+      PyArray_NDIM(outArr) != 1 ||
+      PyArray_DIM(num_arr, 0) + PyArray_DIM(char_arr, 0) < 1 ||
+      PyArray_DIM(char_arr, 1) != PyArray_DIM(num_arr, 1) ||
+      PyArray_DIM(outArr, 0) < PyArray_DIM(num_arr, 1) || forestSize < 1 ||
+      treeSize < 1) {
+    PyErr_SetString(PyExc_ValueError,
+                    "Isolation forest needs at least one numeric or string "
+                    "column, and positive forest and tree sizes");
+    Py_DECREF(num_arr);
+    Py_DECREF(char_arr);
+    PyArray_DiscardWritebackIfCopy(outArr);
+    Py_DECREF(outArr);
+    return NULL;
+  }
+
   // number of obervations
   auto nObs = PyArray_DIM(num_arr, 1);
 
@@ -56,6 +77,7 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
 
   Py_DECREF(num_arr);
   Py_DECREF(char_arr);
+  PyArray_ResolveWritebackIfCopy(outArr);
   Py_DECREF(outArr);
 
   Py_INCREF(Py_None);
-- 
2.43.0


From 21905131497ed3ae4e3f88831d978bb370e2228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 29/38] fix: variance kernels do not lose the error of a
 parameter that is not a number

---
 src/frds/algorithms/utils/utils_module.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index 49fd01f..8ab0b08 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -124,6 +124,10 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
     Py_DECREF(item);
+    if (PyErr_Occurred()) {
+      Py_DECREF(iter);
+      return NULL;
+    }
   }
   Py_DECREF(iter);
   if (PyErr_Occurred()) {
@@ -191,6 +195,10 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
     Py_DECREF(item);
+    if (PyErr_Occurred()) {
+      Py_DECREF(iter);
+      return NULL;
+    }
   }
   Py_DECREF(iter);
   if (PyErr_Occurred()) {
-- 
2.43.0


From 5724e172f6f31cbcf1c806595caba3dca2d85196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 30/38] fix: variance kernels reject an empty array instead of
 writing past it

---
 src/frds/algorithms/utils/utils_module.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index 8ab0b08..107012e 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -32,7 +32,7 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
   }
 
   // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1) {
+  if (PyArray_NDIM(resids_in) != 1 || PyArray_DIM(resids_in, 0) < 1) {
     PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
     return NULL;
   }
@@ -107,7 +107,8 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   }
 
   // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2 ||
+  if (PyArray_NDIM(resids_in) != 1 || PyArray_DIM(resids_in, 0) < 1 ||
+      PyArray_NDIM(var_bounds_in) != 2 ||
       PyArray_DIM(var_bounds_in, 0) < PyArray_DIM(resids_in, 0) ||
       PyArray_DIM(var_bounds_in, 1) != 2) {
     PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
@@ -178,7 +179,8 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   }
 
   // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2 ||
+  if (PyArray_NDIM(resids_in) != 1 || PyArray_DIM(resids_in, 0) < 1 ||
+      PyArray_NDIM(var_bounds_in) != 2 ||
       PyArray_DIM(var_bounds_in, 0) < PyArray_DIM(resids_in, 0) ||
       PyArray_DIM(var_bounds_in, 1) != 2) {
     PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
-- 
2.43.0


From 8ddc79476be43d0ad2b3a1067895dbdf7fae198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 31/38] fix: Merton errors penalize negative estimates instead
 of adding zero

---
 src/frds/measures/modified_merton/merton_solution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index fc1d910..e7912cd 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -53,7 +53,8 @@ def merton_solution(
     # A includes PV(div), but B-S derivative prices don't
     # Merton asset volatility too high
 
-    penalty = esig * sig**2 + eA * A**2
+    # the size of the violation, not of the values replaced above
+    penalty = esig * x[1] ** 2 + eA * x[0] ** 2
     err = (E - C + penalty, sigE - v + penalty)
 
     return err
-- 
2.43.0


From c23d7d60257540570d368c568f0c14e6bf9f0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 32/38] fix: keep PIN estimation away from zero arrival rates,
 at which the likelihood is undefined and starts were lost

---
 src/frds/measures/_probability_of_informed_trading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index b7e804b..cb6ea44 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -66,8 +66,8 @@ class PIN:
         bounds = [
             (0.0, 1.0),  # Bounds for alpha
             (0.0, 1.0),  # Boudns for delta
-            (0.0, np.inf),  # Lower bound for eB
-            (0.0, np.inf),  # Lower bound for eS
+            (1e-8, np.inf),  # Lower bound for eB
+            (1e-8, np.inf),  # Lower bound for eS
             (0.0, np.inf),  # Lower bound for mu
         ]
 
-- 
2.43.0


From 95eda7f703089d5882f5db01991a1fa92de5dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 33/38] fix: compare a fit with its start held within the
 bounds, so that almost parallel series can be fitted

---
 src/frds/algorithms/_garch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index caecba7..8657b92 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -31,7 +31,11 @@ def minimize_from(
     Returns:
         OptimizeResult: not successful if it is worse than the starting values
     """
-    initial = fun(np.asarray(starting_vals), *args)
+    # A start outside the bounds is moved to them, as the optimizer does
+    lower, upper = np.array(kwargs["bounds"], dtype=float).T
+    # (a missing bound is NaN here, which fmin and fmax ignore)
+    starting_vals = np.fmin(np.fmax(starting_vals, lower), upper)
+    initial = fun(starting_vals, *args)
     for n in (1, scale):
         opt: OptimizeResult = minimize(
             lambda params: fun(params, *args) / n,
-- 
2.43.0


From d018eaf6048e91483af85489967aa89c06790323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 34/38] fix: mark a fit as successful only after its estimates
 are set, so that an interrupted one is not taken for finished

---
 src/frds/algorithms/_garch.py  | 6 ++++--
 src/frds/algorithms/_mgarch.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 8657b92..2e848d7 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -130,7 +130,6 @@ class GARCHModel:
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
             if opt.success:
-                self.estimation_success = True
                 if self.zero_mean:
                     self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
                 else:
@@ -142,6 +141,8 @@ class GARCHModel:
                     self.backcast_value,
                     self.var_bounds,
                 )
+                # Last, so that an interrupted fit is not taken for a finished one
+                self.estimation_success = True
 
         return self.parameters
 
@@ -440,7 +441,6 @@ class GJRGARCHModel(GARCHModel):
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
             if opt.success:
-                self.estimation_success = True
                 if self.zero_mean:
                     self.parameters = type(self).Parameters(
                         0.0, *list(opt.x), loglikelihood=-opt.fun
@@ -456,6 +456,8 @@ class GJRGARCHModel(GARCHModel):
                     self.backcast_value,
                     self.var_bounds,
                 )
+                # Last, so that an interrupted fit is not taken for a finished one
+                self.estimation_success = True
 
         return self.parameters
 
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index 8d731ab..2a9f6b7 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -117,8 +117,9 @@ class GARCHModel_CCC:
                 ],
             )
             if opt.success:
-                self.estimation_success = True
                 self.parameters = type(self).Parameters(*list(opt.x, ), loglikelihood=-opt.fun)
+                # Last, so that an interrupted fit is not taken for a finished one
+                self.estimation_success = True
         return self.parameters
 
     def loglikelihood_model(
@@ -292,11 +293,12 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 ],
             )
             if opt.success:
-                self.estimation_success = True
                 a, b = list(opt.x)
                 self.parameters.a = a
                 self.parameters.b = b
                 self.parameters.loglikelihood=-opt.fun
+                # Last, so that an interrupted fit is not taken for a finished one
+                self.estimation_success = True
         return self.parameters
 
     def starting_values(self) -> Tuple[float, float]:
-- 
2.43.0


From 6f2c171771d24cd60df6e47863386bae9c3f3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:49 +0000
Subject: [PATCH 35/38] fix: refuse prices that do not line up with the trades
 in simple_price_impact

---
 src/frds/measures/price_impact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index af8b5f9..9fe63e0 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -25,10 +25,11 @@ def simple_price_impact(
     Returns:
         float: simple price impact
     """
+    price = np.asarray(price)
     midpoint_later = np.asarray(midpoint_later)
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
-    assert midpoint_later.shape == midpoint.shape == volume.shape
+    assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
         if pct_spread:
-- 
2.43.0


From 24d53df8564d9b26df0fed2169f1d8ada7a0a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 36/38] fix: refuse order-book prices that do not line up with
 the quotes

---
 src/frds/measures/lob_slope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/measures/lob_slope.py b/src/frds/measures/lob_slope.py
index 4793149..6d7a0e7 100644
--- a/src/frds/measures/lob_slope.py
+++ b/src/frds/measures/lob_slope.py
@@ -55,6 +55,7 @@ def DGGW_ask_slope(
     n, k = ask_size.shape
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
+    assert np.shape(ask_price_highest_level) == mid_point.shape
 
     slope = np.sum(ask_size, axis=1) / (ask_price_highest_level - mid_point)
     return np.nanmean(slope)
@@ -94,6 +95,7 @@ def DGGW_bid_slope(
     n, k = bid_size.shape
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
+    assert np.shape(bid_price_highest_level) == mid_point.shape
 
     slope = np.sum(bid_size, axis=1) / np.abs((bid_price_highest_level - mid_point))
     return np.nanmean(slope)
@@ -114,6 +116,7 @@ def DGGW_bid_side_slope_difference(
     assert len(bid_size.shape) > 1
     n, k = bid_size.shape
     assert k > 1  # at least two levels
+    assert bid_price.shape == bid_size.shape
     # fmt: off
     slope_h = (bid_size[:,4] - bid_size[:,2]) / np.abs(bid_price[:,4] - bid_price[:,2])
     slope_l = (bid_size[:,2] - bid_size[:,0]) / np.abs(bid_price[:,2] - bid_price[:,0])
-- 
2.43.0


From 05b90472478e24ab8649852ba9418df4e334cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 37/38] fix: apply the DIP threshold exactly when it is not a
 whole percent

---
 src/frds/measures/_distress_insurance_premium.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 8426ae4..fbab6b5 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -78,17 +78,18 @@ class DistressInsurancePremium:
 
         # Convert to probabilities
         prob_losses = prob_losses / n_simulations
+        # The first slot of losses at or above the threshold, which need not be a whole percent
         # Rounded first, because e.g. 0.29 * 100 is slightly less than 29
-        pct_threshold = int(round(default_threshold * 100, 6))
+        first = math.ceil(round(default_threshold * intervals * n_banks, 6))
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
-        prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
+        prob_great_losses = np.sum(prob_losses[first:])
         if prob_great_losses == 0:
             return 0.0
 
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
-            prob_losses[pct_threshold * n_banks :],
+            np.array(range(first, intervals * n_banks + 1)),
+            prob_losses[first:],
         ) / (100 * prob_great_losses)
 
         return exp_losses * prob_great_losses
-- 
2.43.0


From 053853ec1ce5a758d37c0a05293cd43ba183d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:28 +0000
Subject: [PATCH 38/38] fix: GARCH-DCC assigns margins' parameters by name, so
 GJR margins are refused instead of mislabelled

---
 src/frds/algorithms/_mgarch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index 2a9f6b7..0438ee2 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -260,9 +260,14 @@ class GARCHModel_DCC(GARCHModel_CCC):
         m1.fit()
         m2.fit()
         a, b = self.starting_values()
-        m1_params = list(asdict(m1.parameters).values())[:-1]
-        m2_params = list(asdict(m2.parameters).values())[:-1]
-        self.parameters = type(self).Parameters(*m1_params, *m2_params)
+        # By name, so that parameters of another model are not taken for these
+        margins = {
+            f"{name}{i}": value
+            for i, m in enumerate((m1, m2), 1)
+            for name, value in asdict(m.parameters).items()
+            if name != "loglikelihood"
+        }
+        self.parameters = type(self).Parameters(**margins)
         starting_vals = [a, b]
 
         bounds = [
-- 
2.43.0

