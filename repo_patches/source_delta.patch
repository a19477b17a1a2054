From d14295254826dd727df485243a14016884a44d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:01 +0000
Subject: [PATCH 01/97] fix: inverse_transform must undo the unit scale used
 for zero-scale columns

---
 src/direpack/preprocessing/robcent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index bc6c176..3a1ae96 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -58,7 +58,11 @@ from ..utils.utils import (
     _check_input,
 )
 from ._preproc_utilities import *
-from ._preproc_utilities import _check_trimming, wrap_univ
+from ._preproc_utilities import (
+    _check_trimming,
+    _handle_zeros_in_scale,
+    wrap_univ,
+)
 
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
@@ -194,7 +198,9 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             Xs = self.datas_
 
-        return np.multiply(Xs, self.scale_) + self.center_
+        return (
+            np.multiply(Xs, _handle_zeros_in_scale(self.scale_)) + self.center_
+        )
 
 
 # For backwards compatibility
-- 
2.43.0


From 065886d9ee9ac3bbca31b81654d5536b671a7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 02/97] fix: scaling a single case must not transpose it into a
 column

---
 src/direpack/preprocessing/robcent.py | 11 ++++++-----
 src/direpack/utils/utils.py           | 12 ++++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 3a1ae96..486ff06 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -56,6 +56,7 @@ from ..utils.utils import (
     convert_X_input,
     convert_y_input,
     _check_input,
+    _check_fitted_input,
 )
 from ._preproc_utilities import *
 from ._preproc_utilities import (
@@ -157,8 +158,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Center and/or scale training data to pre-estimated location and scale
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_fitted_input(X, np.size(self.center_))
 
         Xs = scale_data(X, self.center_, self.scale_)
         setattr(self, "datas_", Xs)
@@ -171,7 +172,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_fitted_input(Xn, np.size(self.center_))
         Xns = scale_data(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datans_", Xns)
 
@@ -194,7 +195,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         check_is_fitted(self, ["center_", "scale_"])
         if Xs is not None:
-            Xs = _check_input(Xs)
+            Xs = _check_fitted_input(Xs, np.size(self.center_))
         else:
             Xs = self.datas_
 
@@ -300,8 +301,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Project data points to their wrapped counterparts
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_fitted_input(X, np.size(self.center_))
 
         Xw = wrap(X, self.center_, self.scale_)
         setattr(self, "dataw_", Xw)
@@ -314,7 +315,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_fitted_input(Xn, np.size(self.center_))
         Xnw = wrap(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datanw_", Xnw)
 
diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 4f42933..ee7c9ef 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -80,6 +80,18 @@ def _check_input(X):
     return(X)
 
 
+def _check_fitted_input(X, p):
+    """
+    Checks input like _check_input, yet retains a single case as a row when
+    it matches the number of variables p that a model has been fitted to.
+    """
+
+    X = _check_input(X)
+    if p > 1 and X.shape == (p, 1):
+        X = X.reshape((1, -1))
+    return(X)
+
+
 def nandot(X, y):
 
     p, n = X.shape
-- 
2.43.0


From 74a67ad2c0915e84335f76c8bb95fe8ef9f47978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:26 +0000
Subject: [PATCH 03/97] fix: wrap data about the supplied location and scale,
 also for zero scale

---
 src/direpack/preprocessing/_preproc_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 2d60438..39dd41d 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -333,8 +333,11 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
     if dd.dtype == "O":
         dd = dd.astype("float")
     if scale:
-        locX = median(dd)
-        scaleX = mad(dd)
+        if locX is None:
+            locX = median(dd)
+        if scaleX is None:
+            scaleX = mad(dd)
+        scaleX = _handle_zeros_in_scale(scaleX)
         xi = (dd - locX) / scaleX
     else:
         xi = np.array(dd)
-- 
2.43.0


From c49e72a5a3773f2ad8ee6ba9d1da6ad6fa39ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:26 +0000
Subject: [PATCH 04/97] fix: l1median must accept the documented starting point
 x0

---
 src/direpack/preprocessing/_preproc_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 39dd41d..5630bdb 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -182,7 +182,8 @@ def l1median(X, **kwargs):
     optimization options will crash when provided matrix input.
     """
 
-    if "x0" not in kwargs:
+    x0 = kwargs.pop("x0", None)
+    if x0 is None:
         x0 = median(X)
 
     if type(X) == np.matrix:
-- 
2.43.0


From a486e8e12801a0598eda5be46b0930759fd6c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:26 +0000
Subject: [PATCH 05/97] fix: gen_ss_pp must accept center='None'

---
 src/direpack/preprocessing/gsspp.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index baf33bb..5f8a4a1 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -103,9 +103,6 @@ def gen_ss_pp(X,center='l1median',fun='linear_redescending'):
     Outputs: the pre-processed data 
     """    
     
-    if type(center) is str: 
-        center = eval(center)
-            
     if type(fun) is str: 
         fun = eval(fun)
     
-- 
2.43.0


From 8a4d3f6f07a217b7a9923bafc766af18f0d7e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:26 +0000
Subject: [PATCH 06/97] fix: gen_ss_covmat must return the p x p matrix product
 and accept radial function names

---
 src/direpack/preprocessing/gsspp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 5f8a4a1..33a95c9 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -148,8 +148,10 @@ def gen_ss_covmat(X,center='kstepLTS',fun=linear_redescending):
     rc = VersatileScaler(center=center, scale='None')
     n,p = X.shape
     Xm = rc.fit_transform(X)
+    if type(fun) is str: 
+        fun = eval(fun)
     Xgss = _gsspp(Xm,p,n,fun=fun)
-    return(Xgss.T*Xgss/n)
+    return(np.matmul(Xgss.T,Xgss)/n)
     
     
 
-- 
2.43.0


From 639c37179c3684cf5f673b2f8949c837be48e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:45 +0000
Subject: [PATCH 07/97] fix: preprocessors must return self from fit and accept
 y so they work in sklearn pipelines

---
 src/direpack/preprocessing/gsspp.py   |  5 +++--
 src/direpack/preprocessing/robcent.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 33a95c9..f125353 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -49,7 +49,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         self.center = center
         self.fun = fun 
         
-    def fit(self,X): 
+    def fit(self,X,y=None): 
         
         """ 
         Calculate and store generalized spatial signs
@@ -67,6 +67,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'gss_',gss_)
         setattr(self,'Xm_',Xm)
         setattr(self,'centring_',vs)
+        return(self)
         
     def transform(self,X):
         
@@ -79,7 +80,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'X_gsspp_',Xgss)
         return(Xgss)
 
-    def fit_transform(self,X): 
+    def fit_transform(self,X,y=None): 
 
         self.fit(X)
         self.transform(X)
diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 486ff06..b1209c6 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -106,7 +106,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = scale
         self.trimming = trimming
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -153,6 +153,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Center and/or scale training data to pre-estimated location and scale
@@ -178,7 +180,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xns
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data and scale these data
         """
@@ -249,7 +251,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = "mad"
         self.trimming = 0
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -296,6 +298,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Project data points to their wrapped counterparts
@@ -321,7 +325,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xnw
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data wrap these data
         """
-- 
2.43.0


From 06586a5e822c7e3448966759bf69a9986602e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:25 +0000
Subject: [PATCH 08/97] fix: ball radial function must retain the case at the
 cutoff distance

---
 src/direpack/preprocessing/_gsspp_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/direpack/preprocessing/_gsspp_utils.py b/src/direpack/preprocessing/_gsspp_utils.py
index 173e6ba..dff0e82 100644
--- a/src/direpack/preprocessing/_gsspp_utils.py
+++ b/src/direpack/preprocessing/_gsspp_utils.py
@@ -71,9 +71,7 @@ def ball(dd, p, n):
       xi: radial function
     """
     
-    dWH = np.power(dd,2/3) 
-    dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
-    d_hmed = np.power(dWH_hmed,3/2)
+    d_hmed = np.sort(dd,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     idx = np.where(dd > d_hmed)[0]
     xi = np.ones((n,1))
     xi[idx] =  0
-- 
2.43.0


From cd23913d02815e2672ee6895fc83092b298acdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:25 +0000
Subject: [PATCH 09/97] fix: Huber and Hampel weights must not overwrite their
 argument (wrong weights for cutoffs below 1)

---
 src/direpack/sprm/_m_support_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 1a13cbc..a993850 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -15,13 +15,14 @@ def Fair(x, probct, *args):
 
 
 def Huber(x, probct, *args):
-    x[np.where(x <= probct)[0]] = 1
-    x[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
-    return x
+    wx = np.array(x, dtype="float64")
+    wx[np.where(x <= probct)[0]] = 1
+    wx[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
+    return wx
 
 
 def Hampel(x, probct, hampelb, hampelr):
-    wx = x
+    wx = np.array(x, dtype="float64")
     wx[np.where(x <= probct)[0]] = 1
     wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
         x[np.where((x > probct) & (x <= hampelb))[0]]
-- 
2.43.0


From 555577122972d55376a8dae6cd17c8dc9a7a5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:25 +0000
Subject: [PATCH 10/97] fix: robust_loss must downweight negative residuals as
 well

---
 src/direpack/cross_validation/_cv_support_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 56a7f23..d98c23f 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -52,7 +52,7 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
     if len(y.shape) > 1:
         y = np.array(y).reshape(-1)
     y = y.astype('float64')
-    r = y - ypred
+    r = abs(y - ypred)
     w = fun(r,probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
     
\ No newline at end of file
-- 
2.43.0


From 68ba9ff5ee1d3ac528cb029c0121e60086698875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:06 +0000
Subject: [PATCH 11/97] fix: rm starting weights must downweight negative
 outliers in y as well

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4a2d835..9a72d76 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -135,7 +135,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if [self.centre, self.scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
-            wy = (y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
+            wy = abs(y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
         self.probcty_ = norm.ppf(self.probp1)
         if self.start_cutoff_mode == "specific":
             self.probctx_ = chi2.ppf(self.probp1, p)
-- 
2.43.0


From 3ee094cced481326dfbc9413b5361ae439bdeb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:06 +0000
Subject: [PATCH 12/97] fix: rm without scaling must work for centres other
 than the mean

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 9a72d76..3a60087 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -236,8 +236,8 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                     np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
                 )
         else:
+            ytil = np.array(np.matmul(X, b)).reshape(-1)
             if self.centre == "mean":
-                ytil = np.array(np.matmul(X, b)).reshape(-1)
                 intercept = np.mean(y - ytil)
             else:
                 intercept = np.median(y - ytil)
-- 
2.43.0


From b1ffd0d568c8c49b2b963af85b9d17ddf35e3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:06 +0000
Subject: [PATCH 13/97] fix: rm scaled intercept must be the median of the n
 scaled residuals

---
 src/direpack/sprm/rm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 3a60087..d58f5c0 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -233,7 +233,8 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                 b0 = np.mean(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
             else:
                 b0 = np.median(
-                    np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                    ys.astype("float64")
+                    - np.matmul(Xs.astype("float64"), b).reshape(-1)
                 )
         else:
             ytil = np.array(np.matmul(X, b)).reshape(-1)
-- 
2.43.0


From 0e4254f470d03c4159100d5b7e99163a311c54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:06 +0000
Subject: [PATCH 14/97] fix: rm.predict must not need the copy of the training
 data

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index d58f5c0..e37e297 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -263,7 +263,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
 
     def predict(self, Xn):
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != self.coef_.shape[0]:
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
-- 
2.43.0


From d07a7e675de32727db168d590abed4b68b343556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:22 +0000
Subject: [PATCH 15/97] fix: rescale rm and snipls coefficients with the unit
 scale that zero-scale columns were scaled by

---
 src/direpack/sprm/rm.py     | 8 +++++++-
 src/direpack/sprm/snipls.py | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index e37e297..0630bdb 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -21,6 +21,7 @@ import numpy as np
 import pandas as ps
 from scipy.stats import norm, chi2
 from ..preprocessing.robcent import VersatileScaler
+from ..preprocessing._preproc_utilities import _handle_zeros_in_scale
 from ..utils.utils import MyException, _predict_check_input, _check_input
 from ._m_support_functions import *
 
@@ -221,7 +222,12 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         Xrw = np.array(np.multiply(Xs, np.sqrt(WEmat)).astype("float64"))
         scaling.set_params(scale="None")
         Xrw = scaling.fit_transform(Xrw)
-        b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)
+        b_rescaled = np.multiply(
+            np.reshape(
+                _handle_zeros_in_scale(sy) / _handle_zeros_in_scale(sX), (p, 1)
+            ),
+            b,
+        )
         yp_rescaled = np.matmul(X, b_rescaled).reshape(-1)
         if self.centre == "mean":
             intercept = np.mean(y - yp_rescaled)
diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 9092331..a564dc8 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -12,7 +12,7 @@ import numpy as np
 import pandas as ps
 from ..preprocessing.robcent import VersatileScaler
 from ..utils.utils import MyException, _predict_check_input, _check_input, nandot, nanmatdot
-from ..preprocessing._preproc_utilities import scale_data
+from ..preprocessing._preproc_utilities import scale_data, _handle_zeros_in_scale
 
 
 class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
@@ -247,7 +247,12 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             R = B
             T = np.empty((n, self.n_components))
             T.fill(0)
-        B_rescaled = np.multiply(np.array(sy / sX).reshape((p, 1)), B)
+        B_rescaled = np.multiply(
+            np.array(
+                _handle_zeros_in_scale(sy) / _handle_zeros_in_scale(sX)
+            ).reshape((p, 1)),
+            B,
+        )
         yp_rescaled = dot(X, B_rescaled)
         if self.centre == "mean":
             intercept = np.nanmean(y - yp_rescaled)
-- 
2.43.0


From f56eabb94bac7a903a59d0ec306e06ffecbe1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 16/97] fix: sprm start_X_init other than 'pcapp' must work
 with variable specific cutoffs

---
 src/direpack/sprm/sprm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 46345b3..ef2afe1 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -267,6 +267,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = scaling.fit_transform(Urc)
         else:
             Us = Xs
+            relcomp = p
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
         if [self.centre, self.scale] == ["median", "mad"]:
-- 
2.43.0


From 0034b7393131b93bf581544e959821e571efb74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 17/97] fix: sprm.fit must not overwrite the scale and columns
 parameters

---
 src/direpack/sprm/sprm.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index ef2afe1..3a8d97a 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -189,8 +189,9 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise MyException(
                     "Wrong choise of parameters for Hampel function. Use 0<probp1<hampelp2<hampelp3<=1"
                 )
+        columns = self.columns
         if type(self.columns) is list:
-            self.columns = np.array(self.columns)
+            columns = np.array(self.columns)
         elif type(self.columns) is bool:
             if type(X) != ps.core.frame.DataFrame and self.columns:
                 raise (
@@ -200,20 +201,21 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
         if type(X) == ps.core.frame.DataFrame:
             if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+                columns = X.columns
         X = _check_input(X)
         y = _check_input(y)
         ny = y.shape[0]
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
 
-        if self.scale == "scaleTau2":
+        scale = self.scale
+        if scale == "scaleTau2":
             if (mad(X) == 0).any():
                 # kstepLTS divides by MAD. Zero MAD leads to nan -> detect zero MAD, scale by MAD and remove zero MAD variable.
-                self.scale = "mad"
+                scale = "mad"
                 warnings.warn("Scale set to `mad`")
 
-        scaling = VersatileScaler(center=self.centre, scale=self.scale)
+        scaling = VersatileScaler(center=self.centre, scale=scale)
         Xs = scaling.fit_transform(X).astype("float64")
         mX = scaling.col_loc_
         sX = scaling.col_sca_
@@ -229,10 +231,10 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
-            if type(self.columns) != bool:
+            if type(columns) != bool:
                 warntext = (
                     "Zero scale variables with indices "
-                    + str(self.columns[zero_scale])
+                    + str(columns[zero_scale])
                     + " detected and removed"
                 )
             else:
@@ -247,8 +249,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = Xs[:, vars_to_keep]
             X = X[:, vars_to_keep]
             sX = sX[vars_to_keep]
-            if type(self.columns) != bool:
-                self.columns = self.columns[vars_to_keep]
+            if type(columns) != bool:
+                columns = columns[vars_to_keep]
             p = len(vars_to_keep)
             if self.n_components > p:
                 raise MyException(
@@ -270,7 +272,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             relcomp = p
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-        if [self.centre, self.scale] == ["median", "mad"]:
+        if [self.centre, scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
             wy = (y - np.median(y, axis=0)) / (
@@ -321,7 +323,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.eta,
             self.n_components,
             self.verbose,
-            self.columns,
+            columns,
             "mean",
             "None",
             self.copy,
@@ -337,7 +339,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 r = abs(r) / (1.4826 * np.median(abs(r)))
             else:
                 r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))
-            scalet = self.scale
+            scalet = scale
             if scalet == "None":
                 scalingt.set_params(scale="mad")
             dt = scalingt.fit_transform(T)
@@ -415,7 +417,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             intercept = np.median(y - yp_rescaled, axis=0)
         # This median calculation produces slightly different result in R and Py
         yfit = yp_rescaled + intercept
-        if self.scale != "None":
+        if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
                              np.matmul(Xs.astype("float64"), b))
-- 
2.43.0


From 7cd3e4d9b4587b6478801455460267dbcde268af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 18/97] fix: sprm methods on new data must not need the copy of
 the training data

---
 src/direpack/sprm/sprm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 3a8d97a..63d52be 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -471,7 +471,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Input data.
         """
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -493,7 +493,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
         """
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -513,7 +513,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         """
         n, p, Xn = _predict_check_input(Xn)
         (n, p) = Xn.shape
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -544,7 +544,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         """
         n, p, Xn = _predict_check_input(Xn)
         (n, p) = Xn.shape
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
-- 
2.43.0


From b13ca0dee5799227834b6010967efdc908707b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 19/97] fix: sprm scaled intercept must be the median of the n
 scaled residuals

---
 src/direpack/sprm/sprm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 63d52be..75c9f28 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -423,8 +423,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                              np.matmul(Xs.astype("float64"), b))
             else:
                 b0 = np.median(
-                    np.array(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                    ys.astype("float64") -
+                    np.matmul(Xs.astype("float64"), b).reshape(-1)
                 )
             # yfit2 = (np.matmul(Xrc.Xs.astype("float64"),b) + b0)*yrc.col_sca + yrc.col_loc
             # already more generally included
-- 
2.43.0


From 3a14443220eaed3addeb6c9a7dffc78a797dc4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 20/97] fix: sprm coefficients must be rescaled by the unit
 scale used for a zero-scale y

---
 src/direpack/sprm/sprm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 75c9f28..873c781 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -11,7 +11,7 @@ from ..preprocessing.robcent import VersatileScaler
 from .snipls import snipls
 from ..utils.utils import MyException, _predict_check_input, _check_input
 from ._m_support_functions import *
-from ..preprocessing._preproc_utilities import scale_data, mad
+from ..preprocessing._preproc_utilities import scale_data, mad, _handle_zeros_in_scale
 
 
 class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
@@ -407,7 +407,9 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 + str(res_snipls.colret_)
                 + "\n"
             )
-        b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)
+        b_rescaled = np.multiply(
+            np.reshape(_handle_zeros_in_scale(sy) / sX, (p, 1)), b
+        )
         yp_rescaled = np.matmul(X, b_rescaled)
         if self.centre == "mean":
             intercept = np.mean(y - yp_rescaled, axis=0)
-- 
2.43.0


From ca6443d1c70f5cbac9aa19eefaf3052409233338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 21/97] fix: snipls.fit must not overwrite the columns
 parameter

---
 src/direpack/sprm/snipls.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index a564dc8..c2b0002 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,8 +112,9 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
+        columns = self.columns
         if type(self.columns) is list:
-            self.columns = np.array(self.columns)
+            columns = np.array(self.columns)
         elif type(self.columns) is bool:
             if type(X) != ps.core.frame.DataFrame and self.columns:
                 raise (
@@ -123,7 +124,7 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
         if type(X) == ps.core.frame.DataFrame:
             if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+                columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
@@ -210,10 +211,10 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
             yev[i - 1] = np.nansum(nth ** 2 * (ch ** 2)) / \
                 np.nansum(np.power(y0, 2)) * 100
-            if type(self.columns) == bool:
+            if type(columns) == bool:
                 colret = goodies
             else:
-                colret = self.columns[np.setdiff1d(range(0, p), elimvars)]
+                colret = columns[np.setdiff1d(range(0, p), elimvars)]
             if self.verbose:
                 print(
                     "Variables retained for "
-- 
2.43.0


From 0707fa4579f936eeca1bc3e62e51b2a07b1bc2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:08 +0000
Subject: [PATCH 22/97] fix: dicomo.fit must not overwrite the center parameter

---
 src/direpack/dicomo/dicomo.py | 49 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 8004edb..0acad07 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -141,6 +141,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             order = kwargs.get('order')
             
+        center = self.center
         if self.mode == 'var':
             mode = 'mom' 
             order=2
@@ -148,17 +149,17 @@ class dicomo(_BaseComposition,BaseEstimator):
             mode = 'com'
             order=2
         elif self.mode == 'std':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order=2
             num_power = 0.5
         elif self.mode == 'skew':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 3
             num_power = 1.5
         elif self.mode == 'kurt':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 4
             num_power = 2
@@ -167,7 +168,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 Fisher = kwargs.get('Fisher')
         elif self.mode == 'cos':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -175,7 +176,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'M3':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -183,7 +184,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'cok':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 4
             if 'standardized' not in kwargs:
@@ -217,7 +218,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         if n==0:
             raise(MyException('Please feed data with length > 0'))
             
-        if self.center == 'median':
+        if center == 'median':
             locest = np.median
         else:
             locest = trim_mean
@@ -227,9 +228,9 @@ class dicomo(_BaseComposition,BaseEstimator):
             
             # Variance
             if mode!='com':
-#                if self.center=='mean':
+#                if center=='mean':
 #                    xvar = trimvar(x,trimming)*ntrim/(ntrim-1)
-#                elif self.center=='median':
+#                elif center=='median':
 #                    xvar = srs.mad(x)**2
                 xmom = trim_mom(x,x,locest,order,trimming,option,biascorr) 
                 self.x_moment_ = xmom
@@ -288,10 +289,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 if mode in ['corr','continuum']:
                     
-#                    if self.center=='mean':
+#                    if center=='mean':
 #                        yvar = trimvar(y,trimming)*ntrim/(ntrim-1)
 #                    
-#                    elif self.center=='median':
+#                    elif center=='median':
 #                        yvar = srs.mad(y)
                     ymom = trim_mom(y,y,locest,order,trimming,option,biascorr)
                     
@@ -318,13 +319,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=self.center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=self.center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=self.center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -332,7 +333,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     else:
                         dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric) 
                         bcov_res=Ball.bcov_test(x,y,num_permutations=0)[0]
                         self.moment_ = bcov_res
@@ -340,7 +341,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and self.center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -373,18 +374,18 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 dmx, n1 = distance_matrix_centered(x,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                 
                 # Variance
                 if mode!='com':
                     
-                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         
                     self.x_moment_ = xmom
                     
                     if self.mode in ('std','skew','kurt'):
-                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
                     if mode=='mom':
@@ -404,10 +405,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                     
-                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                     
                     self.co_moment_ = como
                     
@@ -415,14 +416,14 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                         
                     if self.mode in ('cok','cos'):
-                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         x2sd = np.sqrt(x2sd)
-                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         y2sd = np.sqrt(y2sd)
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From cd6d648c3500594bba2b02bf2ebb2c21f0627b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:08 +0000
Subject: [PATCH 23/97] fix: bias corrected standard deviation must be the root
 of the bias corrected variance

---
 src/direpack/dicomo/dicomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 0acad07..59e3798 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -236,7 +236,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 self.x_moment_ = xmom
                 
                 if self.mode in ('std','skew','kurt'):
-                    x2mom = trim_mom(x,x,locest,2,trimming,option,False)
+                    x2mom = trim_mom(x,x,locest,2,trimming,option,biascorr and self.mode == 'std')
                     xmom /= (x2mom**num_power) 
                     if biascorr:
                         if self.mode == 'skew':
-- 
2.43.0


From 98da880a321023404990a1c024e9329a835360c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:08 +0000
Subject: [PATCH 24/97] fix: bias corrected moments of order above 2 lacked a
 factor n (co-moments have it)

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 59e3798..a407cc5 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -233,6 +233,8 @@ class dicomo(_BaseComposition,BaseEstimator):
 #                elif center=='median':
 #                    xvar = srs.mad(x)**2
                 xmom = trim_mom(x,x,locest,order,trimming,option,biascorr) 
+                if (self.mode=='mom' and biascorr and (order > 2)):
+                    xmom *= ntrim
                 self.x_moment_ = xmom
                 
                 if self.mode in ('std','skew','kurt'):
-- 
2.43.0


From 17f2f48f728d3472ca473bb2071870d36dcdc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:08 +0000
Subject: [PATCH 25/97] fix: fast distance (co-)variance must not be nan where
 the naive algorithm takes the absolute value

---
 src/direpack/dicomo/dicomo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index a407cc5..36f08ce 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -346,9 +346,9 @@ class dicomo(_BaseComposition,BaseEstimator):
             elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
-                        xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
+                        xmom = np.sqrt(abs(dc.u_distance_covariance_sqr(x,x)))
                     else:
-                        xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
+                        xmom = np.sqrt(abs(dc.distance_covariance_sqr(x,x)))
                     self.moment_ = xmom
                 if mode !='mom':
                     if 'y' not in kwargs:
@@ -358,17 +358,17 @@ class dicomo(_BaseComposition,BaseEstimator):
                         n1 = len(y)
                     
                     if biascorr:
-                        como = np.sqrt(dc.u_distance_covariance_sqr(x,y))
+                        como = np.sqrt(abs(dc.u_distance_covariance_sqr(x,y)))
                     else:
-                        como = np.sqrt(dc.distance_covariance_sqr(x,y))
+                        como = np.sqrt(abs(dc.distance_covariance_sqr(x,y)))
                     if mode=='com':
                         self.co_moment_ = como
                         self.moment_ = como
                     elif mode in ['corr','continuum','cos','cok']:
                         if biascorr:
-                            ymom = np.sqrt(dc.u_distance_covariance_sqr(y,y))
+                            ymom = np.sqrt(abs(dc.u_distance_covariance_sqr(y,y)))
                         else:
-                            ymom = np.sqrt(dc.distance_covariance_sqr(y,y))
+                            ymom = np.sqrt(abs(dc.distance_covariance_sqr(y,y)))
                         self.y_moment_ = ymom
                         
             
-- 
2.43.0


From f1f1a122993523c492245ec7d9a15e0f63021d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:08 +0000
Subject: [PATCH 26/97] fix: fast distance standard deviation must agree with
 the naive algorithm

---
 src/direpack/dicomo/dicomo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 36f08ce..c00325b 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -349,6 +349,9 @@ class dicomo(_BaseComposition,BaseEstimator):
                         xmom = np.sqrt(abs(dc.u_distance_covariance_sqr(x,x)))
                     else:
                         xmom = np.sqrt(abs(dc.distance_covariance_sqr(x,x)))
+                    self.x_moment_ = xmom
+                    if self.mode == 'std':
+                        xmom = np.sqrt(xmom)
                     self.moment_ = xmom
                 if mode !='mom':
                     if 'y' not in kwargs:
-- 
2.43.0


From 5b84fdfeaee918295596ce7b70ed3dd8e73b4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:08 +0000
Subject: [PATCH 27/97] fix: naive distance co-moments must accept a one
 dimensional y

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index c00325b..b846043 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -407,6 +407,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please feed data with length > 0'))
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length'))
+                    if len(y.shape)==1:
+                        y = np.array(y).reshape((n,1))
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-- 
2.43.0


From d95ef019fe0a5aa34471e8e63e5d2b7493e885b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:08 +0000
Subject: [PATCH 28/97] fix: distance moments of order above 2 must raise the
 distances to the power asked for, not overwrite them

---
 src/direpack/dicomo/_dicomo_utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index fae2edf..8e7b217 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -298,14 +298,8 @@ def distance_moment(dmx,dmy,**kwargs):
         corr4bias = 1
         
     if order>2:
-        i = 1
-        while i < iter_stop_1:  
-            dmx *= dmx
-            i += 1
-        i = 1
-        while i < iter_stop_2:  
-            dmy *= dmy
-            i += 1
+        dmx = np.power(dmx,iter_stop_1)
+        dmy = np.power(dmy,iter_stop_2)
         
         
     if center=='mean':
-- 
2.43.0


From bfdec474f0b117d076d833101ae275bcc39251bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:08 +0000
Subject: [PATCH 29/97] fix: dicomo must accept the documented data frames

---
 src/direpack/dicomo/dicomo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index b846043..86fab5f 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -12,6 +12,7 @@ from sklearn.base import BaseEstimator
 from sklearn.utils.metaestimators import _BaseComposition
 from statsmodels import robust as srs
 from ._dicomo_utils import *
+from ..utils.utils import convert_X_input
 import dcor as dc
 # Optional: if Ballcov required, import Ball 
 # import Ball
@@ -206,6 +207,9 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             option = 0
             
+        x = convert_X_input(x)
+        if 'y' in kwargs:
+            kwargs['y'] = convert_X_input(kwargs['y'])
         n = len(x)
         ntrim = round(n * (1-trimming)) 
         
-- 
2.43.0


From e4348361a9cea4fd2b3d3c813850b047bc36ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 30/97] fix: small sample factor must not be applied to median
 based (co-)moments

---
 src/direpack/dicomo/dicomo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 86fab5f..9837d40 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -237,7 +237,7 @@ class dicomo(_BaseComposition,BaseEstimator):
 #                elif center=='median':
 #                    xvar = srs.mad(x)**2
                 xmom = trim_mom(x,x,locest,order,trimming,option,biascorr) 
-                if (self.mode=='mom' and biascorr and (order > 2)):
+                if (self.mode=='mom' and biascorr and center=='mean' and (order > 2)):
                     xmom *= ntrim
                 self.x_moment_ = xmom
                 
@@ -277,7 +277,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 self.co_moment_ = como
                 
-                if (biascorr and (order > 2)):
+                if (biascorr and center=='mean' and (order > 2)):
                     como *= ntrim
                 
                 if mode=='com':
-- 
2.43.0


From 2e5d33fb31af1c53fb45153388ff2bd782b11f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 31/97] fix: bias corrected co-kurtosis must not depend on the
 scale of the data and agree with the kurtosis

---
 src/direpack/dicomo/dicomo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 9837d40..dc825e3 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -285,12 +285,11 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                     
                 if self.mode in ('cok','cos'):
-                    x2sd = np.sqrt(trim_mom(x,x,locest,2,trimming,option,biascorr))
-                    y2sd = np.sqrt(trim_mom(y,y,locest,2,trimming,option,biascorr))
+                    x2sd = np.sqrt(trim_mom(x,x,locest,2,trimming,option,biascorr and self.mode == 'cos'))
+                    y2sd = np.sqrt(trim_mom(y,y,locest,2,trimming,option,biascorr and self.mode == 'cos'))
                         
                     if ((self.mode == 'cok') and biascorr): # biascorr is only exact if standardized
                         como -= como/(ntrim**2)
-                        como -= 3*(ntrim-1)**2.0 / ((ntrim-2)*(ntrim-3))
 
                 
                 if mode in ['corr','continuum']:
@@ -449,6 +448,8 @@ class dicomo(_BaseComposition,BaseEstimator):
             iter_stop_1 = order - option
             como /= np.power(x2sd,iter_stop_1)
             como /= np.power(y2sd,iter_stop_2)
+            if ((self.mode == 'cok') and biascorr and self.est=='arithmetic'):
+                como -= 3*(ntrim-1)**2.0 / ((ntrim-2)*(ntrim-3))
             if ((self.mode == 'cok') and not Fisher): # Not very meaningful for co-moment
                 como += 3
             self.moment_=como
-- 
2.43.0


From 29f5c6d698f28206b6d39171ef7a11a7d34260ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 32/97] fix: median as first order moment must not take the
 trimming fraction for an axis

---
 src/direpack/dicomo/_dicomo_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index 8e7b217..1fb468b 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -68,6 +68,8 @@ def trim_mom(x,y,locest,order,trimming,option,fscorr=True):
     if order == 0:
         como = 0
     elif order == 1: 
+        if locest == np.median:
+            trimming = 0
         como = locest(x,trimming)
     else:
         if order > 2: 
-- 
2.43.0


From 98053b6dca8395ac568a0993ab8df2d0d46a959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 33/97] fix: MDDM raised for a single conditioning variable

---
 src/direpack/dicomo/_dicomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index 1fb468b..1745e67 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -444,7 +444,7 @@ def MDDM(X,Y):
     
     for i in range(n):
         if(p==1):
-            X_dist = np.abs(X[i]-X)
+            X_dist = np.abs(X[i]-X).reshape(-1,n)
             
         else: 
             X_diff= (( X.T - np.vstack(X[i,:])).T)**2
-- 
2.43.0


From e0f267e82b2435601fef3e196c9afed28c2e3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:42 +0000
Subject: [PATCH 34/97] fix: capi must put the co-moments of a list of options
 in their own place

---
 src/direpack/ppdire/capi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 312faf9..d976957 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -94,8 +94,8 @@ class capi(_BaseComposition, BaseEstimator):
         for i in range(init_moment_calc, self.max_degree + 1):
             fit_arguments["order"] = i
             self.most.set_params(mode=order_kwargs[i - 2])
-            l = min(i - 1, len(options))
-            for j in options[np.arange(0, l)]:
+            # order 2 has a single co-moment, order i has options 1..i-1
+            for j in [1] if i == 2 else options[options < i]:
                 fit_arguments["option"] = j
                 moments[i - 3 + j + k] = self.most.fit(x, **fit_arguments)
             if i == 3:
-- 
2.43.0


From ace34672e7b84c3cad96a57546816c0e1683b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:42 +0000
Subject: [PATCH 35/97] fix: capi.fit must use the present parameters of the
 projection index

---
 src/direpack/ppdire/capi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index d976957..73e6d47 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -90,6 +90,7 @@ class capi(_BaseComposition, BaseEstimator):
         fit_arguments = {"order": 0, "y": y}
         fit_arguments = {**kwargs, **fit_arguments}
         init_moment_calc = 2
+        self.most = self.projection_index(**self.pi_arguments)
         k = 0
         for i in range(init_moment_calc, self.max_degree + 1):
             fit_arguments["order"] = i
-- 
2.43.0


From 6f6d65a3b40c1bb7c19379bdb6e4fc9c5a80c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:42 +0000
Subject: [PATCH 36/97] fix: capi must keep its centring parameter

---
 src/direpack/ppdire/capi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 73e6d47..b517a50 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -67,6 +67,7 @@ class capi(_BaseComposition, BaseEstimator):
         self.pi_arguments = pi_arguments
         self.weights = weights
         self.most = self.projection_index(**self.pi_arguments)
+        self.centring = centring
         self.scaling = scaling
         self.options = options
         self.capi_index_ = None
-- 
2.43.0


From 3d321457eb6da1ea83815ba225f70b3ce4429524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 37/97] fix: ppdire regression options must also be available
 when y is a positional argument

---
 src/direpack/ppdire/ppdire.py | 50 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d7ee7b8..5681fc3 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -251,34 +251,34 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             flag = 'two-block'
             y = kwargs.get('y')
                             
-            if 'quantile' not in kwargs:
-                quantile = .5
+        if 'quantile' not in kwargs:
+            quantile = .5
+        else:
+            quantile = kwargs.get('quantile')
+            
+        if self.regopt == 'robust':
+        
+            if 'fun' not in kwargs:
+                fun = 'Hampel'
             else:
-                quantile = kwargs.get('quantile')
-                
-            if self.regopt == 'robust':
+                fun = kwargs.get('fun')
             
-                if 'fun' not in kwargs:
-                    fun = 'Hampel'
-                else:
-                    fun = kwargs.get('fun')
-                
-                if 'probp1' not in kwargs:
-                    probp1 = 0.95
-                else:
-                    probp1 = kwargs.get('probp1')
-                
-                if 'probp2' not in kwargs:
-                    probp2 = 0.975
-                else:
-                    probp2 = kwargs.get('probp2')
-                
-                if 'probp3' not in kwargs:
-                    probp3 = 0.99
-                else:
-                    probp3 = kwargs.get('probp3')
-
+            if 'probp1' not in kwargs:
+                probp1 = 0.95
+            else:
+                probp1 = kwargs.get('probp1')
             
+            if 'probp2' not in kwargs:
+                probp2 = 0.975
+            else:
+                probp2 = kwargs.get('probp2')
+            
+            if 'probp3' not in kwargs:
+                probp3 = 0.99
+            else:
+                probp3 = kwargs.get('probp3')
+
+        
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
-- 
2.43.0


From a87bb8daacd1c544619408fcb45a2c44cc518103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 38/97] fix: ppdire.fit with y=None must be a one block fit
 (scikit-learn passes y=None)

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 5681fc3..af0cf19 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -241,7 +241,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             
         if 'y' not in kwargs:
             na = len(args)
-            if na > 0: #Use of *args makes it sklearn consistent
+            if na > 0 and args[0] is not None: #Use of *args makes it sklearn consistent
                 flag = 'two-block'
                 y = args[0]
             else:
-- 
2.43.0


From a21e82906b27fe30f8ccbb13eb08e4ee5b1908ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 39/97] fix: ppdire.fit must not overwrite the n_components
 parameter

---
 src/direpack/ppdire/ppdire.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index af0cf19..e7bbc21 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -227,7 +227,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             h = self.n_components
         else:
             h = kwargs.pop('h')
-            self.n_components = h
             
         if 'dmetric' not in kwargs:
             dmetric = 'euclidean'
-- 
2.43.0


From aca6f04120c215182183698c485ac5dd425bda3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 40/97] fix: ppdire grid must not write into the optimizer
 options and must have a default for both

---
 src/direpack/ppdire/ppdire.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index e7bbc21..b22d9c2 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -424,8 +424,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
-            if 'ndir' not in self.optimizer_options:
-                self.optimizer_options['ndir'] = 1000
+            grid_options = {'ndir': 1000, 'maxiter': 100000, **self.optimizer_options}
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
@@ -434,7 +433,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             stop0c = np.arccos(optrange[1])
             anglestart = max(stop0c,stop0s)
             anglestop = max(stop1c,stop1s)
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=False)            
+            nangle = np.linspace(anglestart,anglestop,grid_options['ndir'],endpoint=False)            
             alphamat = np.array([np.cos(nangle), np.sin(nangle)])
             opt_args['_stop0c'] = stop0c
             opt_args['_stop0s'] = stop0s
@@ -449,15 +448,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-                nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+                nangle = np.linspace(anglestart,anglestop,grid_options['ndir'],endpoint=True)
                 alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
                 if optmax != 1:
                     alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
-            opt_args['ndir'] = self.optimizer_options['ndir'],
-            opt_args['maxiter'] = self.optimizer_options['maxiter']
+            opt_args['ndir'] = grid_options['ndir'],
+            opt_args['maxiter'] = grid_options['maxiter']
             if type(opt_args['ndir'] is tuple): 
                 opt_args['ndir'] = opt_args['ndir'][0]
             
@@ -465,7 +464,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             grid_args_2 = { 
                      'alpha': self.alpha,
                      'alphamat': alphamat2,
-                     'ndir': self.optimizer_options['ndir'],
+                     'ndir': grid_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
                      'dmetric' : 'euclidean',
@@ -530,9 +529,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     objf = -1000
                     afinbest = afin
                     ii = 0
-                    maxiter_2j = 2**round(np.log2(self.optimizer_options['maxiter'])) 
+                    maxiter_2j = 2**round(np.log2(grid_options['maxiter'])) 
                 
-                    while ((ii < self.optimizer_options['maxiter'] + 1) and (abs(objfold - objf)/abs(objf) > 1e-4)):
+                    while ((ii < grid_options['maxiter'] + 1) and (abs(objfold - objf)/abs(objf) > 1e-4)):
                         for j in np.arange(0,p):
                             projmat = np.array([np.array(Zopt[:,0]).reshape(-1),
                                          np.array(Z[:,j]).reshape(-1)]).T
-- 
2.43.0


From fcdead09a06e30f70030ae5acf03543358bbea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 41/97] fix: ppdire grid must work for two variables

---
 src/direpack/ppdire/ppdire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index b22d9c2..b2de835 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -445,6 +445,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if optmax != 1:
                 alphamat *= optmax
         
+            alphamat2 = None
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
@@ -491,6 +492,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
+                    Maxobjf[i] = maximo
            
                 elif p>2:
                 
-- 
2.43.0


From 746da378faa97f8dbcd93169bdd327c1dcb00f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 42/97] fix: ppdire.transform must return cases by components
 without centring

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index b2de835..989b53f 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -355,8 +355,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             sX = centring.col_sca_
         else:
             Xs = X
-            mX = np.zeros((1,p))
-            sX = np.ones((1,p))
+            mX = np.zeros(p)
+            sX = np.ones(p)
 
         fit_arguments = {}
             
-- 
2.43.0


From e077fad403da10486b6eb6de5529aadbedf44403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 43/97] fix: ppdire must accept y as data frame

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 989b53f..4eb08dd 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -374,7 +374,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             
             ny = y.shape[0]
             y = convert_y_input(y)
-            if len(y.shape) < 2:
+            if y.shape[0] != ny or len(y.shape) < 2:
                 y = np.array(y).reshape((ny,1))
 #            py = y.shape[1]
             if ny != n:
-- 
2.43.0


From 453ea1cc24020a05217dfa664f59b423fabd5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 44/97] fix: ppdire scaling object must be the one fitted on X

---
 src/direpack/ppdire/ppdire.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 4eb08dd..bbfff9d 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -384,9 +384,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 self.y0 = y0
                 
             if self.center_data:
-                ys = centring.fit_transform(y)
-                my = centring.col_loc_
-                sy = centring.col_sca_ 
+                centring_y = VersatileScaler(center=self.center,scale=scale,trimming=trimming)
+                ys = centring_y.fit_transform(y)
+                my = centring_y.col_loc_
+                sy = centring_y.col_sca_ 
             else:
                 ys = y
                 my = 0
-- 
2.43.0


From bd68a6d7543d8a14c28609dcd74e9c6b2a01d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 45/97] fix: ppdire quantile regression must regress the scaled
 response, as the other options do

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index bbfff9d..a188caf 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -677,7 +677,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     linfit.fit(ti,ys)
                     ci = linfit.coef_
                 elif self.regopt == 'quantile':
-                    linfit = QuantReg(y,ti)
+                    linfit = QuantReg(ys,ti)
                     model = linfit.fit(q=quantile)
                     ci = model.params
                 # end regression if
-- 
2.43.0


From e961302dcafc73382ef49b0bd3acb16466754021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 46/97] fix: ppdire scaled intercept must use the scaled
 coefficients

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index a188caf..91b9609 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -720,9 +720,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             yfit = np.matmul(X,bi) + intercept
             if not(scale == 'None'):
                 if (self.center == "mean"):
-                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi))
+                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),B_scaled[:,[h-1]]))
                 else:
-                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi)))
+                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),B_scaled[:,[h-1]])))
             else:
                 b0 = intercept
             
-- 
2.43.0


From 19fd63fb026df6b5b2f8bae458f00d11c24e1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:27 +0000
Subject: [PATCH 47/97] fix: ppdire must report the explained variance of X
 instead of zeros

---
 src/direpack/ppdire/ppdire.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 91b9609..6c6e8fb 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -639,6 +639,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 Maxobjf[i] = self.most.fit(np.dot(E,wi),**opt_args)
             nti = np.linalg.norm(ti)
             pi = np.dot(E.T,ti) / (nti**2)
+            Xev[i] = (nti*np.linalg.norm(pi))**2 / np.sum(np.square(Xs)) * 100
             if self.whiten_data:
                 wi /= np.sqrt((wi**2).sum())
                 wi = K*wi
-- 
2.43.0


From d0544063e0b99b3d48ae3281c083f8a15b3863b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:21 +0000
Subject: [PATCH 48/97] fix: grid refinement must skip the undefined direction
 when the present direction is one of the variables

---
 src/direpack/ppdire/_ppdire_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 7095569..da1cc03 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -179,7 +179,7 @@ def gridplane_2(X,most,q,div,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
 
-    maximo = np.max(meas)
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
-- 
2.43.0


From edb357cf017f61c7b13cba04a5cb074dad58c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:47 +0000
Subject: [PATCH 49/97] fix: ppdire must pass the co-moment option and distance
 metric given to fit on to the projection index

---
 src/direpack/ppdire/ppdire.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 6c6e8fb..5757563 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -278,6 +278,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 probp3 = kwargs.get('probp3')
 
         
+        option = None
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
@@ -420,8 +421,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     'alpha': self.alpha,
                     'trimming': self.trimming,
                     'biascorr': biascorr, 
-                    'dmetric' : 'euclidean',
+                    'dmetric' : dmetric,
                     }
+        if option is not None:
+            opt_args['option'] = option
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
@@ -469,7 +472,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'ndir': grid_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
-                     'dmetric' : 'euclidean',
+                     'dmetric' : dmetric,
                      '_stop0c' : stop0c,
                      '_stop0s' : stop0s,
                      '_stop1c' : stop1c,
@@ -478,6 +481,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'optrange' : self.optrange,
                      'square_pi' : self.square_pi
                      }
+            if option is not None:
+                grid_args_2['option'] = option
             if flag=='two-block':
                 grid_args_2['y'] = f
         
-- 
2.43.0


From 9d17e95a41cfaafd135920e8f6e1d5194469b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:47 +0000
Subject: [PATCH 50/97] fix: ppdire must provide the documented attributes
 x_Rweights_, C_ and y_ev_

---
 src/direpack/ppdire/ppdire.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 5757563..b7ff5ae 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -742,12 +742,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             setattr(self,"residuals_",r)
             setattr(self,"fitted_",yfit)
             setattr(self,"y_loadings_",C)
+            setattr(self,"C_",C)
+            setattr(self,"y_ev_",np.square(C * np.linalg.norm(T,axis=0).reshape((h,1))) / np.sum(np.square(ys)) * 100)
             setattr(self,"y_loc_",my)
             setattr(self,"y_sca_",sy)
                 
         setattr(self,"x_weights_",W)
         setattr(self,"x_loadings_",P)
         setattr(self,"x_rotations_",R)
+        setattr(self,"x_Rweights_",R)
         setattr(self,"x_scores_",T)
         setattr(self,"x_ev_",Xev)
         setattr(self,"crit_values_",assovec)
-- 
2.43.0


From dc32cadd55535537087c46a17ac770c4c4084171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:33 +0000
Subject: [PATCH 51/97] fix: rescale ppdire coefficients with the unit scale
 that zero-scale columns were scaled by

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index b7ff5ae..b697c92 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -27,7 +27,7 @@ from ..dicomo.dicomo import dicomo
 from ..dicomo._dicomo_utils import * 
 from .capi import capi
 from ._ppdire_utils import *
-from ..preprocessing._preproc_utilities import scale_data
+from ..preprocessing._preproc_utilities import scale_data, _handle_zeros_in_scale
 from ..utils.utils import MyException, convert_X_input, convert_y_input
 import inspect
 from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
@@ -691,7 +691,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 C[i] = ci
                 bi = np.dot(R,C[0:(i+1)])
                 bi_scaled = bi
-                bi = np.multiply(np.reshape(sy/sX,(p,1)),bi)
+                bi = np.multiply(np.reshape(_handle_zeros_in_scale(sy)/_handle_zeros_in_scale(sX),(p,1)),bi)
                 B[:,i] = bi[:,0]
                 B_scaled[:,i] = bi_scaled[:,0]
 
-- 
2.43.0


From 2a20b415bcfcb5652ce71035b964c11825a28b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:53 +0000
Subject: [PATCH 52/97] fix: sudire must use the converted data, so data frames
 work without centring and copy=False works

---
 src/direpack/sudire/sudire.py | 1654 ++++++++++++++++-----------------
 1 file changed, 827 insertions(+), 827 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 62d8474..2883e16 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -1,827 +1,827 @@
-# -*- coding: utf-8 -*-
-
-import numpy as np
-from scipy.linalg import inv, sqrtm
-import copy
-from sklearn.utils.metaestimators import _BaseComposition
-from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
-from ..preprocessing.robcent import VersatileScaler
-from ._sudire_utils import *
-from scipy.linalg import orth
-import warnings
-import statsmodels.robust.scale as srs
-from scipy.stats import trim_mean
-import dcor as dc
-
-# import Ball
-import statsmodels.api as sm
-import inspect
-from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
-from ..ipopt_temp.jacobian import (
-    FunctionWithApproxJacobianCentral,
-    FunctionWithApproxJacobian,
-)
-from ..dicomo._dicomo_utils import *
-from ..utils.utils import *
-
-
-class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
-
-    """SUDIRE Sufficient Dimension Reduction 
-    
-    The class allows for Sufficient Dimension Reduction using a variety of 
-    methods. If the method requires optimization of a function, 
-    This optimization is done through the Interior Point Optimizer (IPOPT)
-    algorithm. 
-        
-    Parameters
-    ----------
-        sudiremeth: function or class. sudiremeth in this package can also be used, 
-        but user defined functions  can be processed. Built in options are : 
-
-            save : Sliced Average Variance Estimation
-
-            sir  : Slices Inverse Regression
-
-            dr   : Directional Regression 
-
-            iht  : Iterative Hessian Transformations
-
-            dcov-sdr : SDR via Distance Covariance 
-            
-            mdd-sdr : SDR via Martingale Difference Divergence.
-
-            bcov-sdr : SDR via ball covariance
-            
-        n_components : int 
-                      dimension of the central subspace.
-            
-        trimming : float
-                 trimming percentage to be entered as pct/100 
-        
-        optimizer_options : dict 
-                            with options to pass on to the optimizer.Includes: 
-
-        max_iter : int
-                     Maximal number of iterations.
-
-        tol: float
-             relative convergence tolerance
-
-        constr_viol_tol : float
-                        Desired threshold for the constraint violation.
-            
-        optimizer_constraints : dict or list of dicts
-                                 further constraints to be passed on to the 
-                                 optimizer function.
-            
-        optimizer_arguments: dict
-                             extra arguments to be passed to the sudiremeth 
-                             function during optimization.
-        
-        optimizer_start : numpy array
-                         starting value for the optimization.
-        
-        center : str
-             how to center the data. options accepted are options from sprm.preprocessing 
-            
-        center_data : bool 
-                    If True, the data will be centered before the dimension reduction   
-        
-        scale_data : bool
-                    if set to False, convergence to correct optimum  is not a given.
-                    Will throw a warning. 
-            
-        compression : bool
-                     Use internal data compresion step for flat data. 
-        
-        n_slices :  int
-                    The number of slices for SAVE, SIR, DR
-    
-        is_distance_mat : bool 
-                         if the inputed matrices for x and y are distance matrices.
-            
-        dmetric :  str
-                 distance metric used internally. Defaults to 'euclidean'
-        
-        fit_ols :  bool 
-                 if True, an OLS model is fitted after the dimension reduction.
-        
-        copy : bool
-              Whether to make a deep copy of the input data or not. 
-        
-        verbose : bool
-                 Set to True prints the iteration number. 
-        
-        return_scaling_object: bool. 
-                                If True, the scaling object will be return after the 
-                                dimension reduction. 
-
-    Attributes
-    ----------
-    Attributes always provided 
-        -  `x_loadings_`: Estimated basis of the central subspace 
-        -  `x_scores_`: The projected X data. 
-        -  `x_loc_`:  location estimate for X 
-        -  `x_sca_`:  scale estimate for X
-        - ` ols_obj` : fitted OLS objected
-        -  `y_loc_`: y location estimate
-        -  `y_sca_`: y scale estimate
-
-    Attributes created only when corresponding input flags are `True`:
-        -   `whitening_`: whitened data matrix (usually denoted K)
-        -   `scaling_object_`: scaling object from `VersatileScaler`  
-        
-    
-        
-    
-    """
-
-    def __init__(
-        self,
-        sudiremeth="dcov-sdr",
-        n_components=2,
-        trimming=0,
-        optimizer_options={"max_iter": 1000},
-        optimizer_constraints=None,
-        optimizer_arguments=None,
-        optimizer_start=None,
-        center_data=True,
-        center="mean",
-        scale_data=True,
-        whiten_data=False,
-        compression=False,
-        n_slices=6,
-        dmetric="euclidean",
-        fit_ols=True,
-        copy=True,
-        response_type="continuous",
-        verbose=True,
-        return_scaling_object=True,
-    ):
-        # Called arguments
-        self.sudiremeth = sudiremeth
-        self.n_components = n_components
-        self.trimming = trimming
-        self.optimizer_options = optimizer_options
-        self.optimizer_constraints = optimizer_constraints
-        self.optimizer_arguments = optimizer_arguments
-        self.optimizer_start = optimizer_start
-        self.center = center
-        self.center_data = center_data
-        self.scale_data = scale_data
-        self.whiten_data = whiten_data
-        self.compression = compression
-        self.n_slices = n_slices
-        self.dmetric = dmetric
-        self.fit_ols = fit_ols
-        self.copy = copy
-        self.response_type = response_type
-        self.verbose = verbose
-        self.return_scaling_object = return_scaling_object
-
-        # Other global parameters
-        self.licenter = ["mean", "median"]
-        if not (self.center in self.licenter):
-            raise (
-                ValueError(
-                    'Only location estimator classes allowed are: "mean", "median"'
-                )
-            )
-        self.limeths = [
-            "sir",
-            "save",
-            "dr",
-            "dcov-sdr",
-            "bcov-sdr",
-            "mdd-sdr",
-            "phd",
-            "iht",
-        ]
-        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
-            raise (
-                ValueError(
-                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
-                )
-            )
-
-    def fit(self, X, y, *args, **kwargs):
-
-        """
-        Fit a Sufficient Dimension Reduction Model. 
-        
-        Parameters
-        ----------
-                X : matrix or data frame 
-                    Input data of predictors  
-
-                y :  vector or 1D matrix
-                    Response data
-                
-                args or kwargs : 
-                                Further parameters to user defined sudiremeth can be passed here  
-        Returns
-        -------
-            self
-        
-        -------
-        """
-
-        # Collect optional fit arguments
-
-        if "dmetric" not in kwargs:
-            dmetric = "euclidean"
-        else:
-            dmetric = kwargs.get("dmetric")
-        if "biascorr" not in kwargs:
-            biascorr = False
-        else:
-            biascorr = kwargs.get("biascorr")
-        if "flag" not in kwargs:
-            flag = "two-block"
-        else:
-            flag = kwargs.get("flag")
-        if "is_distance_mat" not in kwargs:
-            is_distance_mat = False
-        else:
-            is_distance_mat = kwargs.pop("is_distance_mat")
-        # Initiate some parameters and data frames
-        if self.copy:
-            X0 = copy.deepcopy(X)
-            self.X0 = X0
-        else:
-            X0 = X
-        X = convert_X_input(X0)
-        n, p = X0.shape
-        trimming = self.trimming
-
-        # Check dimensions
-        if self.n_components > min(n, p):
-            raise (
-                MyException(
-                    "number of components cannot exceed number of variables or sample size"
-                )
-            )
-        # Pre-processing adjustment if whitening
-        if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
-            print("All results produced are for whitened data")
-        # Store original X data mean and varcov matrix.
-        varmatx = np.cov(X, rowvar=0)
-        meanx = X.mean(axis=0)
-        N2 = inv(sqrtm(varmatx))
-
-        # Data Compression for flat tables if required
-        if (p > n) and self.compression:
-            V, S, U = np.linalg.svd(X.T, full_matrices=False)
-            X = np.matmul(U.T, np.diag(S))
-            n, p = X.shape
-
-            if (srs.mad(X) == 0).any():
-                warnings.warn(
-                    "Due to low scales in data, compression would induce zero scales."
-                    + "\n"
-                    + "Proceeding without compression."
-                )
-                dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
-            else:
-                dimensions = True
-        else:
-            dimensions = False
-
-            # Centring and scaling
-            # centering :
-        if self.center_data:
-            if self.center != "mean":
-                centring = VersatileScaler(
-                    center=self.center, scale="None", trimming=self.trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                Xs = X - trim_mean(X, self.trimming, axis=0)
-                mX = trim_mean(X, self.trimming, axis=0)
-                sX = np.sqrt(np.diag(varmatx))
-        else:
-            Xs = X0
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
-        if self.scale_data:
-            if self.center == "mean":
-                scale = "std"
-                N2 = inv(sqrtm(varmatx))
-                Xs = np.matmul(Xs, N2)
-            elif (self.center == "median") or (self.center == "l1median"):
-                scale = "mad"
-                centring = VersatileScaler(
-                    center=self.center, scale=scale, trimming=trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                raise (
-                    MyException(
-                        'centering options have to be either "mean", "median", or "l1median"'
-                    )
-                )
-        else:
-            scale = "None"
-            warnings.warn("Without scaling, convergence to optima is not given")
-        # Initiate centring object and scale X data
-
-        if self.whiten_data:
-            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
-            del U
-            K = (V / S)[:, :p]
-            del S
-            Xs = np.matmul(Xs, K)
-            Xs *= np.sqrt(p)
-        # Pre-process y data
-        ny = y.shape[0]
-        y = convert_y_input(y)
-        if len(y.shape) < 2:
-            y = np.array(y).reshape((ny, 1))
-        if ny != n:
-            raise (MyException("X and y number of rows must agree"))
-        # Pre-process y data when available
-        if flag != "one-block":
-            ny = y.shape[0]
-            y = convert_y_input(y)
-            if len(y.shape) < 2:
-                y = np.array(y).reshape((ny, 1))
-            if ny != n:
-                raise (MyException("X and y number of rows must agree"))
-            if self.copy:
-                y0 = copy.deepcopy(y)
-                self.y0 = y0
-            if self.center_data:
-                ys = y  # dont center y
-                my = np.mean(y, axis=0)
-                sy = np.sqrt(np.var(y, axis=0))
-            else:
-                ys = y
-                my = 0
-                sy = 1
-            ys = ys.astype("float64")
-        else:
-            ys = None
-        if self.sudiremeth == "sir":
-            P = SIR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "save":
-            P = SAVE(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "dr":
-            P = DR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        else:  # SDR obtained through optimization of some function
-
-            ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
-                save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    save_start = np.matmul(N2, save_start)
-                sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    sir_start = np.matmul(N2, sir_start)
-                beta_save = orth(save_start)
-                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
-                beta_sir = orth(sir_start)
-                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
-                DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    DR_start = np.matmul(N2, DR_start)
-                beta_DR = orth(DR_start)
-                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
-                if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
-                elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
-                else:
-                    self.optimizer_start = DR_start.flatten(order="F")
-            ## add constraints for the optimization
-            if self.optimizer_constraints is None:
-                const_x = []
-                const_z = []
-                for i in range(0, self.n_components):
-                    for j in range(0, self.n_components):
-                        const_x.append(
-                            {
-                                "type": "eq",
-                                "fun": const_xscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )  # change const2 to const_func
-                        const_z.append(
-                            {
-                                "type": "eq",
-                                "fun": const_zscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )
-                if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
-                else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
-                    Xs,
-                    ys,
-                    self.n_components,
-                    N2,
-                    is_distance_mat,
-                    self.trimming,
-                    self.center,
-                    dmetric,
-                    biascorr,
-                )
-            # perform DCOV-SDR optimization
-            res = minimize_ipopt(
-                dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
-                options=self.optimizer_options,
-            )
-            if self.scale_data:
-                dcov_res = np.matmul(
-                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
-                )
-            else:
-                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
-            if self.sudiremeth == "dcov-sdr":
-                P = dcov_res
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
-                res_ball = minimize_ipopt(
-                    ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
-                res_mdd = minimize_ipopt(
-                    mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
-                opt_res = minimize_ipopt(
-                    self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-        # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
-
-        # Re-adjust estimates to original dimensions if data have been compressed
-        if dimensions:
-            P = np.matmul(V[:, 0:p], P)
-        setattr(self, "x_loadings_", P)
-        setattr(self, "x_scores_", T)
-        setattr(self, "proj_mat_", projMat)
-        if self.whiten_data:
-            setattr(self, "whitening_", K)
-        setattr(self, "x_loc_", mX)
-        setattr(self, "x_sca_", sX)
-        setattr(self, "scaling_", scale)
-        setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
-            setattr(self, "scaling_object_", centring)
-        return self
-
-    def transform(self, Xn, distance_mat=False):
-        """
-        Computes the dimension reduction of the data Xn based on the fitted sudire model.
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                distance_mat : numpy array 
-                                 distance matrix to represent similarity between observations. 
-                
-                args or kwargs: 
-                                Further parameters to user defined sufdiremeth can be passed here  
-        Returns
-        -------
-        transformed_data : numpy array
-                             the dimension reduced data 
-
-         -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        return np.matmul(Xn, self.x_loadings_)
-
-    def predict(self, Xn, is_distance_mat=False):
-        """
-        predicts the response  on new data Xn
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                is_distance_mat : bool 
-                                 if True, Xn is treated as a distance matrix 
-                
-        Returns
-        -------
-        predictions : numpy array 
-                      The predictions from the dimension reduction model
-        -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
-        ys = self.ols_obj_.predict(Xns)
-        return ys
-
-    @classmethod
-    def _get_param_names(cls):
-        """Get parameter names for the estimator"""
-        # fetch the constructor or the original constructor before
-        # deprecation wrapping if any
-        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
-        if init is object.__init__:
-            # No explicit constructor to introspect
-            return []
-        # introspect the constructor arguments to find the model parameters
-        # to represent
-        init_signature = inspect.signature(init)
-        # Consider the constructor parameters excluding 'self'
-        parameters = [
-            p
-            for p in init_signature.parameters.values()
-            if p.name != "self" and p.kind != p.VAR_KEYWORD
-        ]
-        for p in parameters:
-            if p.kind == p.VAR_POSITIONAL:
-                raise RuntimeError(
-                    "scikit-learn estimators should always "
-                    "specify their parameters in the signature"
-                    " of their __init__ (no varargs)."
-                    " %s with constructor %s doesn't "
-                    " follow this convention." % (cls, init_signature)
-                )
-        # Extract and sort argument names excluding 'self'
-        return sorted([p.name for p in parameters])
-
-    def get_params(self, deep=False):
-        """Get parameters for this estimator.
-        Parameters
-        ----------
-        deep : boolean, optional
-            If True, will return the parameters for this estimator and
-            contained subobjects that are estimators.
-        Returns
-        -------
-        params : mapping of string to any
-            Parameter names mapped to their values.
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        out = dict()
-        for key in self._get_param_names():
-            value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
-                deep_items = value.get_params().items()
-                out.update((key + "__" + k, val) for k, val in deep_items)
-            out[key] = value
-        return out
-
-    def set_params(self, **params):
-        """Set the parameters of this estimator.
-        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
-        
-        Returns
-        -------
-        self
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        if not params:
-            # Simple optimization to gain speed (inspect is slow)
-            return self
-        valid_params = self.get_params()
-
-        nested_params = defaultdict(dict)  # grouped by prefix
-        for key, value in params.items():
-            key, delim, sub_key = key.partition("__")
-            if key not in valid_params:
-                raise ValueError(
-                    "Invalid parameter %s for estimator %s. "
-                    "Check the list of available parameters "
-                    "with `estimator.get_params().keys()`." % (key, self)
-                )
-            if delim:
-                nested_params[key][sub_key] = value
-            else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        return self
-
-
-def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
-    """
-    Estimates the dimension of the central subspace using 
-    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
-    
-    Parameters
-    ----------
-
-        sudiremeth : str
-                    the SDR method to use in the estimation.
-
-        X :  numpy array or dataframe
-            Input X data
-
-        Y : vector or 1d matrix
-            Input Y data as 
-
-        B : int 
-            Number of bootstrap replications
-
-        kwargs:
-
-            n_slices: number of slices for SIR/SAVE/DR
-
-            center_data, bool : if the data  should be centered 
-
-            scale_data, bool :  if the data should be scaled
-
-            center, string :   which centering('mean', 'median')
-            
-    Returns
-    ----------     
-
-    h : int 
-        representing the dimension of the central subspace
-
-    ----------
-    """
-    if "n_slices" not in kwargs:
-        n_slices = 6
-    else:
-        n_slices = kwargs.pop("n_slices")
-    if "center_data" not in kwargs:
-        center_data = True
-    else:
-        center_data = kwargs.pop("center_data")
-    if "scale_data" not in kwargs:
-        scale_data = True
-    else:
-        scale_data = kwargs.pop("scale_data")
-    if "center" not in kwargs:
-        center = "mean"
-    else:
-        center = kwargs.pop("center")
-    Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
-    n, p = Xn.shape
-
-    diff_b = []
-    mean_diff = []
-    for k in range(1, p + 1):
-        print("possible dim", k)
-        sdr = sudire(
-            sudiremeth,
-            center_data=center_data,
-            scale_data=scale_data,
-            center=center,
-            n_slices=n_slices,
-            n_components=k,
-        )
-        sdr.fit(Xn, y=y)
-        projMat = sdr.proj_mat_
-
-        for b in range(B):
-            idx = np.random.randint(0, n, n)
-            X_b = Xn[idx, :].copy()
-            sdr_b = sudire(
-                sudiremeth,
-                center_data=center_data,
-                scale_data=scale_data,
-                center=center,
-                n_slices=n_slices,
-                n_components=k,
-            )
-            sdr_b.fit(X_b, y=y)
-            projMat_b = sdr_b.proj_mat_
-            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
-            diff_b.append(np.nanmax(sh))
-        mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+# -*- coding: utf-8 -*-
+
+import numpy as np
+from scipy.linalg import inv, sqrtm
+import copy
+from sklearn.utils.metaestimators import _BaseComposition
+from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
+from ..preprocessing.robcent import VersatileScaler
+from ._sudire_utils import *
+from scipy.linalg import orth
+import warnings
+import statsmodels.robust.scale as srs
+from scipy.stats import trim_mean
+import dcor as dc
+
+# import Ball
+import statsmodels.api as sm
+import inspect
+from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
+from ..ipopt_temp.jacobian import (
+    FunctionWithApproxJacobianCentral,
+    FunctionWithApproxJacobian,
+)
+from ..dicomo._dicomo_utils import *
+from ..utils.utils import *
+
+
+class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+
+    """SUDIRE Sufficient Dimension Reduction 
+    
+    The class allows for Sufficient Dimension Reduction using a variety of 
+    methods. If the method requires optimization of a function, 
+    This optimization is done through the Interior Point Optimizer (IPOPT)
+    algorithm. 
+        
+    Parameters
+    ----------
+        sudiremeth: function or class. sudiremeth in this package can also be used, 
+        but user defined functions  can be processed. Built in options are : 
+
+            save : Sliced Average Variance Estimation
+
+            sir  : Slices Inverse Regression
+
+            dr   : Directional Regression 
+
+            iht  : Iterative Hessian Transformations
+
+            dcov-sdr : SDR via Distance Covariance 
+            
+            mdd-sdr : SDR via Martingale Difference Divergence.
+
+            bcov-sdr : SDR via ball covariance
+            
+        n_components : int 
+                      dimension of the central subspace.
+            
+        trimming : float
+                 trimming percentage to be entered as pct/100 
+        
+        optimizer_options : dict 
+                            with options to pass on to the optimizer.Includes: 
+
+        max_iter : int
+                     Maximal number of iterations.
+
+        tol: float
+             relative convergence tolerance
+
+        constr_viol_tol : float
+                        Desired threshold for the constraint violation.
+            
+        optimizer_constraints : dict or list of dicts
+                                 further constraints to be passed on to the 
+                                 optimizer function.
+            
+        optimizer_arguments: dict
+                             extra arguments to be passed to the sudiremeth 
+                             function during optimization.
+        
+        optimizer_start : numpy array
+                         starting value for the optimization.
+        
+        center : str
+             how to center the data. options accepted are options from sprm.preprocessing 
+            
+        center_data : bool 
+                    If True, the data will be centered before the dimension reduction   
+        
+        scale_data : bool
+                    if set to False, convergence to correct optimum  is not a given.
+                    Will throw a warning. 
+            
+        compression : bool
+                     Use internal data compresion step for flat data. 
+        
+        n_slices :  int
+                    The number of slices for SAVE, SIR, DR
+    
+        is_distance_mat : bool 
+                         if the inputed matrices for x and y are distance matrices.
+            
+        dmetric :  str
+                 distance metric used internally. Defaults to 'euclidean'
+        
+        fit_ols :  bool 
+                 if True, an OLS model is fitted after the dimension reduction.
+        
+        copy : bool
+              Whether to make a deep copy of the input data or not. 
+        
+        verbose : bool
+                 Set to True prints the iteration number. 
+        
+        return_scaling_object: bool. 
+                                If True, the scaling object will be return after the 
+                                dimension reduction. 
+
+    Attributes
+    ----------
+    Attributes always provided 
+        -  `x_loadings_`: Estimated basis of the central subspace 
+        -  `x_scores_`: The projected X data. 
+        -  `x_loc_`:  location estimate for X 
+        -  `x_sca_`:  scale estimate for X
+        - ` ols_obj` : fitted OLS objected
+        -  `y_loc_`: y location estimate
+        -  `y_sca_`: y scale estimate
+
+    Attributes created only when corresponding input flags are `True`:
+        -   `whitening_`: whitened data matrix (usually denoted K)
+        -   `scaling_object_`: scaling object from `VersatileScaler`  
+        
+    
+        
+    
+    """
+
+    def __init__(
+        self,
+        sudiremeth="dcov-sdr",
+        n_components=2,
+        trimming=0,
+        optimizer_options={"max_iter": 1000},
+        optimizer_constraints=None,
+        optimizer_arguments=None,
+        optimizer_start=None,
+        center_data=True,
+        center="mean",
+        scale_data=True,
+        whiten_data=False,
+        compression=False,
+        n_slices=6,
+        dmetric="euclidean",
+        fit_ols=True,
+        copy=True,
+        response_type="continuous",
+        verbose=True,
+        return_scaling_object=True,
+    ):
+        # Called arguments
+        self.sudiremeth = sudiremeth
+        self.n_components = n_components
+        self.trimming = trimming
+        self.optimizer_options = optimizer_options
+        self.optimizer_constraints = optimizer_constraints
+        self.optimizer_arguments = optimizer_arguments
+        self.optimizer_start = optimizer_start
+        self.center = center
+        self.center_data = center_data
+        self.scale_data = scale_data
+        self.whiten_data = whiten_data
+        self.compression = compression
+        self.n_slices = n_slices
+        self.dmetric = dmetric
+        self.fit_ols = fit_ols
+        self.copy = copy
+        self.response_type = response_type
+        self.verbose = verbose
+        self.return_scaling_object = return_scaling_object
+
+        # Other global parameters
+        self.licenter = ["mean", "median"]
+        if not (self.center in self.licenter):
+            raise (
+                ValueError(
+                    'Only location estimator classes allowed are: "mean", "median"'
+                )
+            )
+        self.limeths = [
+            "sir",
+            "save",
+            "dr",
+            "dcov-sdr",
+            "bcov-sdr",
+            "mdd-sdr",
+            "phd",
+            "iht",
+        ]
+        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
+            raise (
+                ValueError(
+                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
+                )
+            )
+
+    def fit(self, X, y, *args, **kwargs):
+
+        """
+        Fit a Sufficient Dimension Reduction Model. 
+        
+        Parameters
+        ----------
+                X : matrix or data frame 
+                    Input data of predictors  
+
+                y :  vector or 1D matrix
+                    Response data
+                
+                args or kwargs : 
+                                Further parameters to user defined sudiremeth can be passed here  
+        Returns
+        -------
+            self
+        
+        -------
+        """
+
+        # Collect optional fit arguments
+
+        if "dmetric" not in kwargs:
+            dmetric = "euclidean"
+        else:
+            dmetric = kwargs.get("dmetric")
+        if "biascorr" not in kwargs:
+            biascorr = False
+        else:
+            biascorr = kwargs.get("biascorr")
+        if "flag" not in kwargs:
+            flag = "two-block"
+        else:
+            flag = kwargs.get("flag")
+        if "is_distance_mat" not in kwargs:
+            is_distance_mat = False
+        else:
+            is_distance_mat = kwargs.pop("is_distance_mat")
+        # Initiate some parameters and data frames
+        if self.copy:
+            X0 = copy.deepcopy(X)
+            self.X0 = X0
+        else:
+            X0 = X
+        X = convert_X_input(X0)
+        n, p = X0.shape
+        trimming = self.trimming
+
+        # Check dimensions
+        if self.n_components > min(n, p):
+            raise (
+                MyException(
+                    "number of components cannot exceed number of variables or sample size"
+                )
+            )
+        # Pre-processing adjustment if whitening
+        if self.whiten_data:
+            self.center_data = True
+            self.scale_data = False
+            self.compression = False
+            print("All results produced are for whitened data")
+        # Store original X data mean and varcov matrix.
+        varmatx = np.cov(X, rowvar=0)
+        meanx = X.mean(axis=0)
+        N2 = inv(sqrtm(varmatx))
+
+        # Data Compression for flat tables if required
+        if (p > n) and self.compression:
+            V, S, U = np.linalg.svd(X.T, full_matrices=False)
+            X = np.matmul(U.T, np.diag(S))
+            n, p = X.shape
+
+            if (srs.mad(X) == 0).any():
+                warnings.warn(
+                    "Due to low scales in data, compression would induce zero scales."
+                    + "\n"
+                    + "Proceeding without compression."
+                )
+                dimensions = False
+                if copy:
+                    X = copy.deepcopy(X0)
+                else:
+                    X = X0
+            else:
+                dimensions = True
+        else:
+            dimensions = False
+
+            # Centring and scaling
+            # centering :
+        if self.center_data:
+            if self.center != "mean":
+                centring = VersatileScaler(
+                    center=self.center, scale="None", trimming=self.trimming
+                )
+                Xs = centring.fit_transform(X)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                Xs = X - trim_mean(X, self.trimming, axis=0)
+                mX = trim_mean(X, self.trimming, axis=0)
+                sX = np.sqrt(np.diag(varmatx))
+        else:
+            Xs = X
+            mX = np.zeros((1, p))
+            sX = np.ones((1, p))
+        if self.scale_data:
+            if self.center == "mean":
+                scale = "std"
+                N2 = inv(sqrtm(varmatx))
+                Xs = np.matmul(Xs, N2)
+            elif (self.center == "median") or (self.center == "l1median"):
+                scale = "mad"
+                centring = VersatileScaler(
+                    center=self.center, scale=scale, trimming=trimming
+                )
+                Xs = centring.fit_transform(X)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                raise (
+                    MyException(
+                        'centering options have to be either "mean", "median", or "l1median"'
+                    )
+                )
+        else:
+            scale = "None"
+            warnings.warn("Without scaling, convergence to optima is not given")
+        # Initiate centring object and scale X data
+
+        if self.whiten_data:
+            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
+            del U
+            K = (V / S)[:, :p]
+            del S
+            Xs = np.matmul(Xs, K)
+            Xs *= np.sqrt(p)
+        # Pre-process y data
+        ny = y.shape[0]
+        y = convert_y_input(y)
+        if len(y.shape) < 2:
+            y = np.array(y).reshape((ny, 1))
+        if ny != n:
+            raise (MyException("X and y number of rows must agree"))
+        # Pre-process y data when available
+        if flag != "one-block":
+            ny = y.shape[0]
+            y = convert_y_input(y)
+            if len(y.shape) < 2:
+                y = np.array(y).reshape((ny, 1))
+            if ny != n:
+                raise (MyException("X and y number of rows must agree"))
+            if self.copy:
+                y0 = copy.deepcopy(y)
+                self.y0 = y0
+            if self.center_data:
+                ys = y  # dont center y
+                my = np.mean(y, axis=0)
+                sy = np.sqrt(np.var(y, axis=0))
+            else:
+                ys = y
+                my = 0
+                sy = 1
+            ys = ys.astype("float64")
+        else:
+            ys = None
+        if self.sudiremeth == "sir":
+            P = SIR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X, P)
+        elif self.sudiremeth == "save":
+            P = SAVE(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X, P)
+        elif self.sudiremeth == "dr":
+            P = DR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X, P)
+        elif self.sudiremeth == "phd":
+            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X, P)
+        elif self.sudiremeth == "iht":
+            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(X, P)
+        else:  # SDR obtained through optimization of some function
+
+            ## choose starting value for DCOV-SDR
+            if self.optimizer_start is None:
+                save_start = SAVE(
+                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    save_start = np.matmul(N2, save_start)
+                sir_start = SIR(
+                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    sir_start = np.matmul(N2, sir_start)
+                beta_save = orth(save_start)
+                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
+                beta_sir = orth(sir_start)
+                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
+                DR_start = DR(
+                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    DR_start = np.matmul(N2, DR_start)
+                beta_DR = orth(DR_start)
+                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
+                if dc_save >= dc_sir and dc_save >= dc_DR:
+                    self.optimizer_start = save_start.flatten(order="F")
+                elif dc_sir >= dc_save and dc_sir >= dc_DR:
+                    self.optimizer_start = sir_start.flatten(order="F")
+                else:
+                    self.optimizer_start = DR_start.flatten(order="F")
+            ## add constraints for the optimization
+            if self.optimizer_constraints is None:
+                const_x = []
+                const_z = []
+                for i in range(0, self.n_components):
+                    for j in range(0, self.n_components):
+                        const_x.append(
+                            {
+                                "type": "eq",
+                                "fun": const_xscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )  # change const2 to const_func
+                        const_z.append(
+                            {
+                                "type": "eq",
+                                "fun": const_zscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )
+                if self.scale_data:
+                    self.optimizer_constraints = tuple(const_z)
+                else:
+                    self.optimizer_constraints = tuple(const_x)
+            if self.optimizer_arguments is None:
+                N2 = inv(sqrtm(varmatx))
+                self.optimizer_arguments = (
+                    Xs,
+                    ys,
+                    self.n_components,
+                    N2,
+                    is_distance_mat,
+                    self.trimming,
+                    self.center,
+                    dmetric,
+                    biascorr,
+                )
+            # perform DCOV-SDR optimization
+            res = minimize_ipopt(
+                dcov_trim,
+                self.optimizer_start,
+                args=self.optimizer_arguments,
+                constraints=self.optimizer_constraints,
+                options=self.optimizer_options,
+            )
+            if self.scale_data:
+                dcov_res = np.matmul(
+                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
+                )
+            else:
+                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
+            if self.sudiremeth == "dcov-sdr":
+                P = dcov_res
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(X, P)
+            elif self.sudiremeth == "bcov-sdr":
+                self.optimizer_start = dcov_res.flatten(order="F")
+                res_ball = minimize_ipopt(
+                    ballcov_func,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(X, P)
+            elif self.sudiremeth == "mdd-sdr":
+                self.optimizer_start = dcov_res.flatten(order="F")
+                res_mdd = minimize_ipopt(
+                    mdd_trim,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(X, P)
+            else:  ## user defined function
+                self.optimizer_start = dcov_res.flatten(order="F")
+                opt_res = minimize_ipopt(
+                    self.sudiremeth,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(X, P)
+        # perform OLS regression
+        T_reg = sm.add_constant(T)  # adding a constant
+        ols_obj = sm.OLS(ys, T_reg).fit()
+
+        # Re-adjust estimates to original dimensions if data have been compressed
+        if dimensions:
+            P = np.matmul(V[:, 0:p], P)
+        setattr(self, "x_loadings_", P)
+        setattr(self, "x_scores_", T)
+        setattr(self, "proj_mat_", projMat)
+        if self.whiten_data:
+            setattr(self, "whitening_", K)
+        setattr(self, "x_loc_", mX)
+        setattr(self, "x_sca_", sX)
+        setattr(self, "scaling_", scale)
+        setattr(self, "ols_obj_", ols_obj)
+        if self.return_scaling_object and self.center != "mean":
+            setattr(self, "scaling_object_", centring)
+        return self
+
+    def transform(self, Xn, distance_mat=False):
+        """
+        Computes the dimension reduction of the data Xn based on the fitted sudire model.
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                distance_mat : numpy array 
+                                 distance matrix to represent similarity between observations. 
+                
+                args or kwargs: 
+                                Further parameters to user defined sufdiremeth can be passed here  
+        Returns
+        -------
+        transformed_data : numpy array
+                             the dimension reduced data 
+
+         -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        return np.matmul(Xn, self.x_loadings_)
+
+    def predict(self, Xn, is_distance_mat=False):
+        """
+        predicts the response  on new data Xn
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                is_distance_mat : bool 
+                                 if True, Xn is treated as a distance matrix 
+                
+        Returns
+        -------
+        predictions : numpy array 
+                      The predictions from the dimension reduction model
+        -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        Xns = self.transform(Xn)
+        Xns = sm.add_constant(Xns)  # adding a constant
+        ys = self.ols_obj_.predict(Xns)
+        return ys
+
+    @classmethod
+    def _get_param_names(cls):
+        """Get parameter names for the estimator"""
+        # fetch the constructor or the original constructor before
+        # deprecation wrapping if any
+        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
+        if init is object.__init__:
+            # No explicit constructor to introspect
+            return []
+        # introspect the constructor arguments to find the model parameters
+        # to represent
+        init_signature = inspect.signature(init)
+        # Consider the constructor parameters excluding 'self'
+        parameters = [
+            p
+            for p in init_signature.parameters.values()
+            if p.name != "self" and p.kind != p.VAR_KEYWORD
+        ]
+        for p in parameters:
+            if p.kind == p.VAR_POSITIONAL:
+                raise RuntimeError(
+                    "scikit-learn estimators should always "
+                    "specify their parameters in the signature"
+                    " of their __init__ (no varargs)."
+                    " %s with constructor %s doesn't "
+                    " follow this convention." % (cls, init_signature)
+                )
+        # Extract and sort argument names excluding 'self'
+        return sorted([p.name for p in parameters])
+
+    def get_params(self, deep=False):
+        """Get parameters for this estimator.
+        Parameters
+        ----------
+        deep : boolean, optional
+            If True, will return the parameters for this estimator and
+            contained subobjects that are estimators.
+        Returns
+        -------
+        params : mapping of string to any
+            Parameter names mapped to their values.
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        out = dict()
+        for key in self._get_param_names():
+            value = getattr(self, key, None)
+            if deep and hasattr(value, "get_params"):
+                deep_items = value.get_params().items()
+                out.update((key + "__" + k, val) for k, val in deep_items)
+            out[key] = value
+        return out
+
+    def set_params(self, **params):
+        """Set the parameters of this estimator.
+        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
+        
+        Returns
+        -------
+        self
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        if not params:
+            # Simple optimization to gain speed (inspect is slow)
+            return self
+        valid_params = self.get_params()
+
+        nested_params = defaultdict(dict)  # grouped by prefix
+        for key, value in params.items():
+            key, delim, sub_key = key.partition("__")
+            if key not in valid_params:
+                raise ValueError(
+                    "Invalid parameter %s for estimator %s. "
+                    "Check the list of available parameters "
+                    "with `estimator.get_params().keys()`." % (key, self)
+                )
+            if delim:
+                nested_params[key][sub_key] = value
+            else:
+                setattr(self, key, value)
+                valid_params[key] = value
+        for key, sub_params in nested_params.items():
+            valid_params[key].set_params(**sub_params)
+        return self
+
+
+def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
+    """
+    Estimates the dimension of the central subspace using 
+    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
+    
+    Parameters
+    ----------
+
+        sudiremeth : str
+                    the SDR method to use in the estimation.
+
+        X :  numpy array or dataframe
+            Input X data
+
+        Y : vector or 1d matrix
+            Input Y data as 
+
+        B : int 
+            Number of bootstrap replications
+
+        kwargs:
+
+            n_slices: number of slices for SIR/SAVE/DR
+
+            center_data, bool : if the data  should be centered 
+
+            scale_data, bool :  if the data should be scaled
+
+            center, string :   which centering('mean', 'median')
+            
+    Returns
+    ----------     
+
+    h : int 
+        representing the dimension of the central subspace
+
+    ----------
+    """
+    if "n_slices" not in kwargs:
+        n_slices = 6
+    else:
+        n_slices = kwargs.pop("n_slices")
+    if "center_data" not in kwargs:
+        center_data = True
+    else:
+        center_data = kwargs.pop("center_data")
+    if "scale_data" not in kwargs:
+        scale_data = True
+    else:
+        scale_data = kwargs.pop("scale_data")
+    if "center" not in kwargs:
+        center = "mean"
+    else:
+        center = kwargs.pop("center")
+    Xn = convert_X_input(Xn)
+    y = convert_y_input(y)
+    n, p = Xn.shape
+
+    diff_b = []
+    mean_diff = []
+    for k in range(1, p + 1):
+        print("possible dim", k)
+        sdr = sudire(
+            sudiremeth,
+            center_data=center_data,
+            scale_data=scale_data,
+            center=center,
+            n_slices=n_slices,
+            n_components=k,
+        )
+        sdr.fit(Xn, y=y)
+        projMat = sdr.proj_mat_
+
+        for b in range(B):
+            idx = np.random.randint(0, n, n)
+            X_b = Xn[idx, :].copy()
+            sdr_b = sudire(
+                sudiremeth,
+                center_data=center_data,
+                scale_data=scale_data,
+                center=center,
+                n_slices=n_slices,
+                n_components=k,
+            )
+            sdr_b.fit(X_b, y=y)
+            projMat_b = sdr_b.proj_mat_
+            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
+            diff_b.append(np.nanmax(sh))
+        mean_diff.append(np.mean(diff_b))
+    return (np.argmin(mean_diff) + 1, mean_diff)
-- 
2.43.0


From 690f6f90c96bf04e85b1402f0a26bf5f4252855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:53 +0000
Subject: [PATCH 53/97] fix: sudire must accept y as a data frame

---
 src/direpack/sudire/sudire.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 2883e16..2568868 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -346,19 +346,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs *= np.sqrt(p)
         # Pre-process y data
         ny = y.shape[0]
-        y = convert_y_input(y)
-        if len(y.shape) < 2:
-            y = np.array(y).reshape((ny, 1))
+        y = np.array(convert_y_input(y)).reshape((ny, -1))
         if ny != n:
             raise (MyException("X and y number of rows must agree"))
         # Pre-process y data when available
         if flag != "one-block":
-            ny = y.shape[0]
-            y = convert_y_input(y)
-            if len(y.shape) < 2:
-                y = np.array(y).reshape((ny, 1))
-            if ny != n:
-                raise (MyException("X and y number of rows must agree"))
             if self.copy:
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
-- 
2.43.0


From cccbbb40fc3da0571ee0f3f45dbaadfa0047e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:53 +0000
Subject: [PATCH 54/97] fix: sudire.predict must work for a single case
 (statsmodels skips the constant)

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 2568868..32b24c7 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -636,7 +636,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
         return ys
 
-- 
2.43.0


From 27b2c09dcfc5dc5ce89258bf241e289dc4fc52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:53 +0000
Subject: [PATCH 55/97] fix: sudire loadings must be put back on the scale the
 data were scaled by with center='median'

---
 src/direpack/sudire/sudire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 32b24c7..d95ddd2 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -23,6 +23,7 @@ from ..ipopt_temp.jacobian import (
 )
 from ..dicomo._dicomo_utils import *
 from ..utils.utils import *
+from ..preprocessing._preproc_utilities import _handle_zeros_in_scale
 
 
 class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
@@ -326,6 +327,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Xs = centring.fit_transform(X)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
+                N2 = np.diag(1 / _handle_zeros_in_scale(np.ravel(sX)))
             else:
                 raise (
                     MyException(
-- 
2.43.0


From e36737c1d3d8b9de46dd1ff3fdfcd4100df3ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:53 +0000
Subject: [PATCH 56/97] fix: slice based methods must use all classes of y,
 also when there are fewer or more of them than n_slices

---
 src/direpack/sudire/_sudire_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 781d1c7..7606d27 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -225,6 +225,7 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
@@ -289,6 +290,7 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     for i in range(n_slices):
         prob.append(len(ydis[ydis == ylabel[i]]) / n)
@@ -360,6 +362,7 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
-- 
2.43.0


From 8a7c6053bf8c68e11afe360180f13ad83aefeeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:53 +0000
Subject: [PATCH 57/97] fix: iterative Hessian transformations must iterate the
 Hessian (powers of the identity leave all but the first direction
 undetermined)

---
 src/direpack/sudire/_sudire_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 7606d27..70fd807 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -488,10 +488,10 @@ def IHT(x, y, d, center_data=True, scale_data=True):
         x = np.matmul(x, signsqrt)
 
     covxy = np.cov(x, y, rowvar=0)[-1, :-1]
-    covx = np.cov(x, rowvar=0)
+    hessian = np.matmul(np.multiply(x, y - np.mean(y, axis=0)).T, x) / x.shape[0]
     mat = covxy
     for i in range(1, p):
-        mat = np.column_stack((mat, np.matmul(matpower(covx, i), covxy)))
+        mat = np.column_stack((mat, np.matmul(matpower(hessian, i), covxy)))
 
     out = np.matmul(mat, mat.T)
     eig_vals, eig_vecs = np.linalg.eigh(out)
-- 
2.43.0


From 6c5df2f3a7be02eb4cd580c3bd1a889f4720e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:53 +0000
Subject: [PATCH 58/97] fix: the bootstrap of the structural dimension must
 resample y along with X

---
 src/direpack/sudire/sudire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index d95ddd2..78f38d3 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -805,6 +805,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
         for b in range(B):
             idx = np.random.randint(0, n, n)
             X_b = Xn[idx, :].copy()
+            y_b = y[idx].copy()
             sdr_b = sudire(
                 sudiremeth,
                 center_data=center_data,
@@ -813,7 +814,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
                 n_slices=n_slices,
                 n_components=k,
             )
-            sdr_b.fit(X_b, y=y)
+            sdr_b.fit(X_b, y=y_b)
             projMat_b = sdr_b.proj_mat_
             uh, sh, vh = np.linalg.svd(projMat - projMat_b)
             diff_b.append(np.nanmax(sh))
-- 
2.43.0


From 8fbaaa9a27048586bfb3889ebf83d321ea1512a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:53 +0000
Subject: [PATCH 59/97] fix: bootstrap differences of the smaller dimensions
 must not enter the mean of the larger ones

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 78f38d3..25ba1fb 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -787,7 +787,6 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
     y = convert_y_input(y)
     n, p = Xn.shape
 
-    diff_b = []
     mean_diff = []
     for k in range(1, p + 1):
         print("possible dim", k)
@@ -801,6 +800,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
         )
         sdr.fit(Xn, y=y)
         projMat = sdr.proj_mat_
+        diff_b = []
 
         for b in range(B):
             idx = np.random.randint(0, n, n)
-- 
2.43.0


From c353883e9e1d1b14b3516dcd132942ace446476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 60/97] fix: sudire and the structural dimension must take the
 rows of a data frame y for cases

---
 src/direpack/sudire/sudire.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 25ba1fb..4703857 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -348,7 +348,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs *= np.sqrt(p)
         # Pre-process y data
         ny = y.shape[0]
-        y = np.array(convert_y_input(y)).reshape((ny, -1))
+        y = convert_y_input(y)
+        if y.shape[0] != ny:
+            y = y.T
+        if len(y.shape) < 2:
+            y = np.array(y).reshape((ny, 1))
         if ny != n:
             raise (MyException("X and y number of rows must agree"))
         # Pre-process y data when available
@@ -784,8 +788,10 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
     else:
         center = kwargs.pop("center")
     Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
     n, p = Xn.shape
+    y = convert_y_input(y)
+    if y.shape[0] != n:
+        y = y.T
 
     mean_diff = []
     for k in range(1, p + 1):
-- 
2.43.0


From 2b907af1f7c2a310bc250f9bf7b939bec64aed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 61/97] fix: the structural dimension estimate must not always
 be p (the full projection has no bootstrap variability)

---
 src/direpack/sudire/sudire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 4703857..5b9f997 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -825,4 +825,5 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
             uh, sh, vh = np.linalg.svd(projMat - projMat_b)
             diff_b.append(np.nanmax(sh))
         mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+    # the projection onto all p dimensions does not vary: it is no candidate
+    return (np.argmin(mean_diff[:-1] or mean_diff) + 1, mean_diff)
-- 
2.43.0


From d5b1ee6f3bf9e839860512204f79d23733872bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 62/97] fix: sudire must provide the documented attributes
 y_loc_ and y_sca_

---
 src/direpack/sudire/sudire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 5b9f997..ac58769 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -576,6 +576,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             setattr(self, "whitening_", K)
         setattr(self, "x_loc_", mX)
         setattr(self, "x_sca_", sX)
+        setattr(self, "y_loc_", my)
+        setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
         if self.return_scaling_object and self.center != "mean":
-- 
2.43.0


From 3ea475d34ea130bb7c1189a69f51bf1299f49717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 63/97] fix: sudire with center_data=False must not centre the
 data at the median

---
 src/direpack/sudire/sudire.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index ac58769..d9cd127 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -322,7 +322,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             elif (self.center == "median") or (self.center == "l1median"):
                 scale = "mad"
                 centring = VersatileScaler(
-                    center=self.center, scale=scale, trimming=trimming
+                    center=self.center if self.center_data else "None",
+                    scale=scale,
+                    trimming=trimming,
                 )
                 Xs = centring.fit_transform(X)
                 mX = centring.col_loc_
-- 
2.43.0


From 906bfdd77e34da7b6ec93b43ea925b5c2e000bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 64/97] fix: minimize_ipopt must not write into the caller's
 options

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index a855b0c..281a707 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -207,6 +207,7 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
 
     if options is None:
         options = {}
+    options = dict(options)
 
     nlp = cyipopt.Problem(n = len(_x0),
                           m = len(cl),
-- 
2.43.0


From fd64d9b52a05d77459421bae3fc43e36a2de8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 65/97] fix: sudire.fit must not store start, constraints and
 data in its parameters (a second fit optimised the first data)

---
 src/direpack/sudire/sudire.py | 52 +++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index d9cd127..e9d94b7 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -429,8 +429,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             T = np.matmul(X, P)
         else:  # SDR obtained through optimization of some function
 
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
+
             ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
+            if optimizer_start is None:
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components, self.center_data, self.scale_data
                 )
@@ -453,13 +457,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
+                    optimizer_start = save_start.flatten(order="F")
                 elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
+                    optimizer_start = sir_start.flatten(order="F")
                 else:
-                    self.optimizer_start = DR_start.flatten(order="F")
+                    optimizer_start = DR_start.flatten(order="F")
             ## add constraints for the optimization
-            if self.optimizer_constraints is None:
+            if optimizer_constraints is None:
                 const_x = []
                 const_z = []
                 for i in range(0, self.n_components):
@@ -479,12 +483,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                             }
                         )
                 if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
+                    optimizer_constraints = tuple(const_z)
                 else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
                 N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
+                optimizer_arguments = (
                     Xs,
                     ys,
                     self.n_components,
@@ -498,9 +502,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             # perform DCOV-SDR optimization
             res = minimize_ipopt(
                 dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
             if self.scale_data:
@@ -514,12 +518,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X, P)
             elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
                     ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -531,12 +535,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X, P)
             elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
                     mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -548,12 +552,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(X, P)
             else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
-- 
2.43.0


From e16e9437cd318e68396a03b196fb05b3d6859d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 66/97] fix: sudire must use the distance metric it is given as
 parameter

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index e9d94b7..01287e4 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -231,7 +231,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Collect optional fit arguments
 
         if "dmetric" not in kwargs:
-            dmetric = "euclidean"
+            dmetric = self.dmetric
         else:
             dmetric = kwargs.get("dmetric")
         if "biascorr" not in kwargs:
-- 
2.43.0


From b714382d56e4317e4b6cc6530aa7d67e15434397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 67/97] fix: sudire starting values must be computed with the
 response type and centring flags in their own place

---
 src/direpack/sudire/sudire.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 01287e4..9adae94 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -436,12 +436,24 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             ## choose starting value for DCOV-SDR
             if optimizer_start is None:
                 save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                    Xs,
+                    ys,
+                    3,
+                    self.n_components,
+                    self.response_type,
+                    self.center_data,
+                    self.scale_data,
                 )
                 if self.scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                    Xs,
+                    ys,
+                    6,
+                    self.n_components,
+                    self.response_type,
+                    self.center_data,
+                    self.scale_data,
                 )
                 if self.scale_data:
                     sir_start = np.matmul(N2, sir_start)
@@ -450,7 +462,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_sir = orth(sir_start)
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                    Xs,
+                    y,
+                    6,
+                    self.n_components,
+                    self.response_type,
+                    self.center_data,
+                    self.scale_data,
                 )
                 if self.scale_data:
                     DR_start = np.matmul(N2, DR_start)
-- 
2.43.0


From 74e572956634b4a25790087666bf6084f8bd4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:06 +0000
Subject: [PATCH 68/97] fix: sudire must put optimised loadings back on the
 scale the data were scaled by with center='median'

---
 src/direpack/sudire/sudire.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 9adae94..596ce5b 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -505,7 +505,6 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     optimizer_constraints = tuple(const_x)
             if optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
                 optimizer_arguments = (
                     Xs,
                     ys,
-- 
2.43.0


From e4d98cf585e95d44ac1fa226b979ec68b0462ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:06 +0000
Subject: [PATCH 69/97] fix: sudire with center='median' must work without
 centring and scaling

---
 src/direpack/sudire/sudire.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 596ce5b..ce08ae5 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -603,7 +603,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
+        if (
+            self.return_scaling_object
+            and self.center != "mean"
+            and (self.center_data or self.scale_data)
+        ):
             setattr(self, "scaling_object_", centring)
         return self
 
-- 
2.43.0


From 3cb994af54ecc4789e04c1a3552777cacb774d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:15 +0000
Subject: [PATCH 70/97] fix: minimize_ipopt must evaluate the constraints at
 the start vector, also for a scalar start

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index 281a707..a2e985b 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -203,7 +203,7 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
                                   hessp=hessp, constraints=constraints)
     lb, ub = get_bounds(bounds)
 
-    cl, cu = get_constraint_bounds(constraints, x0)
+    cl, cu = get_constraint_bounds(constraints, _x0)
 
     if options is None:
         options = {}
-- 
2.43.0


From fd9851ea65bf21b117000ea21a2f66a1a92d399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 71/97] fix: plots must annotate the last case name as well

---
 src/direpack/plot/ppdire_plot.py | 314 +++++++++++++++----------------
 src/direpack/plot/sprm_plot.py   |  12 +-
 src/direpack/plot/sudire_plot.py | 310 +++++++++++++++---------------
 3 files changed, 318 insertions(+), 318 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 147bbf3..65875c2 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -1,157 +1,157 @@
-# -*- coding: utf-8 -*-
-"""
-Created on Sat Apr 11 17:25:42 2020
-
-@author: Emmanuel Jordy Menvouta & Sven Serneels
-"""
-
-from __future__ import absolute_import, division, print_function
-from __future__ import unicode_literals
-
-
-
-from ..ppdire.ppdire import ppdire
-from ..utils.utils import MyException
-import matplotlib.pyplot as pp 
-import numpy as np
-
-
-class ppdire_plot(ppdire):
-    
-    def __init__(self,res_ppdire,colors,markers=['o','d','v'],*args):
-        """
-        Initialize with 
-        res_ppdire, a ppdire class object
-        
-        Only mandatory input is colors, a list of colors for 
-            [0] borders of pane 
-            [1] plot background
-            [2] marker fill
-            [3] diagonal line 
-            [4] marker contour, if different from fill
-            [5] marker color for new cases, if applicable
-               
-        """
-        if not(isinstance(res_ppdire,ppdire)):
-            raise(MyException("Object supplied to ppdireplot needs to be a ppdire object"))
-        self.res_ppdire = res_ppdire
-        self.colors = colors
-        self.markers = markers
-        
-    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        """
-        plot_yyp will plot y vs y predicted for ppdire M opbjects
-        Optional inputs: 
-            ytruev: array (new_cases,) of predictands
-            Xn: array (new_cases,variables) of predictors 
-            If these arguments are supplied, ppdire predictions for ytrue will be 
-                made from Xn through res_ppdire.predict()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            ytruec = self.res_ppdire.y0
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
-            ypredc = np.array(self.res_ppdire.fitted_).T.reshape(-1)
-            labelcr = label + ' Training'
-            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=labelcr,
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-            
-        else:
-            if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
-            ypredv = self.res_ppdire.predict(Xn)
-            ypredv = np.array(ypredv).reshape(-1).astype('float64')
-            labelvr = label + ' Test'   
-            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=labelvr,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-           
-        x_abline = np.array(ax1.get_xbound())
-        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
-                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        
-        """
-        plot_projections will plot the score space  
-        Optional inputs: 
-            Xn: array (new_cases,variables) of predictors 
-            If supplied, ppdire projections for new cases will be 
-                made from Xn through res_ppdire.transform()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            Tc = np.array(self.res_ppdire.x_scores_)
-            labelcr = label + ' Training'
-            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=labelcr, 
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        else:
-            if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            Tv = np.array(self.res_ppdire.transform(Xn))
-            labelvr = label + ' Test'  
-            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=labelvr,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
-                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-        
-        
-
+# -*- coding: utf-8 -*-
+"""
+Created on Sat Apr 11 17:25:42 2020
+
+@author: Emmanuel Jordy Menvouta & Sven Serneels
+"""
+
+from __future__ import absolute_import, division, print_function
+from __future__ import unicode_literals
+
+
+
+from ..ppdire.ppdire import ppdire
+from ..utils.utils import MyException
+import matplotlib.pyplot as pp 
+import numpy as np
+
+
+class ppdire_plot(ppdire):
+    
+    def __init__(self,res_ppdire,colors,markers=['o','d','v'],*args):
+        """
+        Initialize with 
+        res_ppdire, a ppdire class object
+        
+        Only mandatory input is colors, a list of colors for 
+            [0] borders of pane 
+            [1] plot background
+            [2] marker fill
+            [3] diagonal line 
+            [4] marker contour, if different from fill
+            [5] marker color for new cases, if applicable
+               
+        """
+        if not(isinstance(res_ppdire,ppdire)):
+            raise(MyException("Object supplied to ppdireplot needs to be a ppdire object"))
+        self.res_ppdire = res_ppdire
+        self.colors = colors
+        self.markers = markers
+        
+    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        """
+        plot_yyp will plot y vs y predicted for ppdire M opbjects
+        Optional inputs: 
+            ytruev: array (new_cases,) of predictands
+            Xn: array (new_cases,variables) of predictors 
+            If these arguments are supplied, ppdire predictions for ytrue will be 
+                made from Xn through res_ppdire.predict()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            ytruec = self.res_ppdire.y0
+            if len(ytruec.shape) >1:
+                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ypredc = np.array(self.res_ppdire.fitted_).T.reshape(-1)
+            labelcr = label + ' Training'
+            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=labelcr,
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+            
+        else:
+            if (len(Xn)==0):
+                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            if len(ytruev.shape) >1:
+                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ypredv = self.res_ppdire.predict(Xn)
+            ypredv = np.array(ypredv).reshape(-1).astype('float64')
+            labelvr = label + ' Test'   
+            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=labelvr,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+           
+        x_abline = np.array(ax1.get_xbound())
+        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        
+        """
+        plot_projections will plot the score space  
+        Optional inputs: 
+            Xn: array (new_cases,variables) of predictors 
+            If supplied, ppdire projections for new cases will be 
+                made from Xn through res_ppdire.transform()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            Tc = np.array(self.res_ppdire.x_scores_)
+            labelcr = label + ' Training'
+            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=labelcr, 
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        else:
+            if (len(Xn)==0):
+                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            Tv = np.array(self.res_ppdire.transform(Xn))
+            labelvr = label + ' Test'  
+            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=labelvr,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+        
+        
+
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 948ebdc..d4581aa 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -137,10 +137,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -256,10 +256,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
@@ -325,10 +325,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (name_indices[i+1],wc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index d4024c3..3d9f843 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -1,155 +1,155 @@
-# -*- coding: utf-8 -*-
-"""
-Created on Sat Apr 11 17:25:42 2020
-
-@author: Emmanuel Jordy Menvouta
-"""
-
-from __future__ import absolute_import, division, print_function
-from __future__ import unicode_literals
-
-
-
-from ..sudire.sudire import sudire
-from ..utils.utils import MyException
-import matplotlib.pyplot as pp 
-import numpy as np
-
-
-class sudire_plot(sudire):
-    
-    def __init__(self,res_sudire,colors,markers=['o','d','v'],*args):
-        """
-        Initialize with 
-        res_sudire, a sudire class object
-        
-        Only mandatory input is colors, a list of colors for 
-            [0] borders of pane 
-            [1] plot background
-            [2] marker fill
-            [3] diagonal line 
-            [4] marker contour, if different from fill
-            [5] marker color for new cases, if applicable
-               
-        """
-        if not(isinstance(res_sudire,sudire)):
-            raise(MyException("Object supplied to sudireplot needs to be a sudire object"))
-        self.res_sudire = res_sudire
-        self.colors = colors
-        self.markers = markers
-        
-    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        """
-        plot_yyp will plot y vs y predicted for sudire M opbjects
-        Optional inputs: 
-            ytruev: array (new_cases,) of predictands
-            Xn: array (new_cases,variables) of predictors 
-            If these arguments are supplied, sudire predictions for ytrue will be 
-                made from Xn through res_sudire.predict()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            ytruec = self.res_sudire.y0
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
-            ypredc = np.array(self.res_sudire.ols_obj_.fittedvalues).T.reshape(-1)
-            
-            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=label,
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-            
-        else:
-            if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
-            ypredv = self.res_sudire.predict(Xn)
-            ypredv = np.array(ypredv).reshape(-1).astype('float64')
-                
-            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=label,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-            pp.xlabel("y-true")
-            pp.ylabel("y-pred")
-           
-        x_abline = np.array(ax1.get_xbound())
-        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
-                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
-        
-        """
-        plot_projections will plot the score space  
-        Optional inputs: 
-            Xn: array (new_cases,variables) of predictors 
-            If supplied, sudire projections for new cases will be 
-                made from Xn through res_sudire.transform()
-            label: string: name of variable to be plotted. Will show in legend.
-            names: list or tuple of strings, casenames from training set
-            namesv: list or tuple of strings, casenames from test set
-            title: String containing plot title
-            legend_pos: string containing legend position
-            onlyval: boolean: only plot validation cases
-        """
-        
-        if len(label)==0:
-            label = 'none'
-        fig = pp.figure()
-        fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
-        if (not(onlyval)):
-            Tc = np.array(self.res_sudire.x_scores_)
-            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
-                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        else:
-            if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
-        if not(len(Xn)==0):
-            Tv = np.array(self.res_sudire.transform(Xn))
-            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
-                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
-        if len(label)==0:
-            ax1.legend_.remove()
-        else:
-            pp.legend(loc=legend_pos)
-        if len(names)>0:
-            if not(onlyval):
-                for i in range(0,len(names)-1):
-                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
-        if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
-                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
-        if len(title)>0:
-            pp.title(title)
-        pp.show()
-        
-        
-        
-
+# -*- coding: utf-8 -*-
+"""
+Created on Sat Apr 11 17:25:42 2020
+
+@author: Emmanuel Jordy Menvouta
+"""
+
+from __future__ import absolute_import, division, print_function
+from __future__ import unicode_literals
+
+
+
+from ..sudire.sudire import sudire
+from ..utils.utils import MyException
+import matplotlib.pyplot as pp 
+import numpy as np
+
+
+class sudire_plot(sudire):
+    
+    def __init__(self,res_sudire,colors,markers=['o','d','v'],*args):
+        """
+        Initialize with 
+        res_sudire, a sudire class object
+        
+        Only mandatory input is colors, a list of colors for 
+            [0] borders of pane 
+            [1] plot background
+            [2] marker fill
+            [3] diagonal line 
+            [4] marker contour, if different from fill
+            [5] marker color for new cases, if applicable
+               
+        """
+        if not(isinstance(res_sudire,sudire)):
+            raise(MyException("Object supplied to sudireplot needs to be a sudire object"))
+        self.res_sudire = res_sudire
+        self.colors = colors
+        self.markers = markers
+        
+    def plot_yyp(self,ytruev=[],Xn=[],label=[],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        """
+        plot_yyp will plot y vs y predicted for sudire M opbjects
+        Optional inputs: 
+            ytruev: array (new_cases,) of predictands
+            Xn: array (new_cases,variables) of predictors 
+            If these arguments are supplied, sudire predictions for ytrue will be 
+                made from Xn through res_sudire.predict()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            ytruec = self.res_sudire.y0
+            if len(ytruec.shape) >1:
+                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ypredc = np.array(self.res_sudire.ols_obj_.fittedvalues).T.reshape(-1)
+            
+            ax1.scatter(ytruec, ypredc, c=self.colors[2], label=label,
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+            
+        else:
+            if (len(Xn)==0):
+                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            if len(ytruev.shape) >1:
+                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ypredv = self.res_sudire.predict(Xn)
+            ypredv = np.array(ypredv).reshape(-1).astype('float64')
+                
+            ax1.scatter(ytruev,ypredv,c=self.colors[5],label=label,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+            pp.xlabel("y-true")
+            pp.ylabel("y-pred")
+           
+        x_abline = np.array(ax1.get_xbound())
+        ax1.add_line(pp.Line2D(x_abline,x_abline,color=self.colors[3]))
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (ytruec[i],ypredc[i]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+    def plot_projections(self,Xn=[],label=[],components = [0,1],names=[],namesv=[],title=[],legend_pos='lower right',onlyval=False):
+        
+        """
+        plot_projections will plot the score space  
+        Optional inputs: 
+            Xn: array (new_cases,variables) of predictors 
+            If supplied, sudire projections for new cases will be 
+                made from Xn through res_sudire.transform()
+            label: string: name of variable to be plotted. Will show in legend.
+            names: list or tuple of strings, casenames from training set
+            namesv: list or tuple of strings, casenames from test set
+            title: String containing plot title
+            legend_pos: string containing legend position
+            onlyval: boolean: only plot validation cases
+        """
+        
+        if len(label)==0:
+            label = 'none'
+        fig = pp.figure()
+        fig.set_facecolor(self.colors[0])
+        pp.rcParams['axes.facecolor'] = self.colors[1]
+        ax1 = fig.add_subplot(111)
+        if (not(onlyval)):
+            Tc = np.array(self.res_sudire.x_scores_)
+            ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
+                    zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        else:
+            if (len(Xn)==0):
+                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+        if not(len(Xn)==0):
+            Tv = np.array(self.res_sudire.transform(Xn))
+            ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
+                        zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
+        if len(label)==0:
+            ax1.legend_.remove()
+        else:
+            pp.legend(loc=legend_pos)
+        if len(names)>0:
+            if not(onlyval):
+                for i in range(0,len(names)):
+                    ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
+        if len(namesv)>0:
+            for i in range(0,len(namesv)):
+                ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
+        if len(title)>0:
+            pp.title(title)
+        pp.show()
+        
+        
+        
+
-- 
2.43.0


From 77769dc2819e991a0e9209da4536d3a140fe41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 72/97] fix: plot_caseweights must put the names of training
 cases at their own bar

---
 src/direpack/plot/sprm_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index d4581aa..99c5ade 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -326,7 +326,7 @@ class sprm_plot(sprm):
         if len(names)>0:
             if not(onlyval):
                 for i in range(0,len(names)):
-                    ax1.annotate(names[i], (name_indices[i+1],wc[i]))
+                    ax1.annotate(names[i], (name_indices[i],wc[i]))
         if len(namesv)>0:
             for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
-- 
2.43.0


From 8eb97d38f3da2f56a793fd7e71ab569daf61da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 73/97] fix: plots must raise the errors they construct for
 requests without new cases or with an unknown mode

---
 src/direpack/plot/ppdire_plot.py | 4 ++--
 src/direpack/plot/sprm_plot.py   | 8 ++++----
 src/direpack/plot/sudire_plot.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 65875c2..7c172cb 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -73,7 +73,7 @@ class ppdire_plot(ppdire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -131,7 +131,7 @@ class ppdire_plot(ppdire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_ppdire.transform(Xn))
             labelvr = label + ' Test'  
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 99c5ade..9d25844 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -107,7 +107,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -231,7 +231,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_sprm.transform(Xn))
             labelvr = label[0] + ' Test' + ' Regular'
@@ -301,13 +301,13 @@ class sprm_plot(sprm):
             elif mode == 'y':
                 wc = self.res_sprm.y_caseweights_
             else:
-                ValueError('Options for mode are overall, x or y')
+                raise ValueError('Options for mode are overall, x or y')
             labelc = label[0] + ' Training' 
         else:
             wc = []
             labelc=[]
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             wv = self.res_sprm.weightnewx(Xn)
             labelv = label[0] + ' Test'
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index 3d9f843..1815b73 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -73,7 +73,7 @@ class sudire_plot(sudire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -130,7 +130,7 @@ class sudire_plot(sudire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_sudire.transform(Xn))
             ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
-- 
2.43.0


From f5f515c467ecce8f15a3831adfb7b529c0d0a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 74/97] fix: sprm plots must show the documented string label,
 not its first character

---
 src/direpack/plot/sprm_plot.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 9d25844..0c7882b 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -81,7 +81,9 @@ class sprm_plot(sprm):
         """
         
         if len(label)==0:
-            label = 'none'
+            label = ['none']
+        elif isinstance(label,str):
+            label = [label]
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
         pp.rcParams['axes.facecolor'] = self.colors[1]
@@ -208,7 +210,9 @@ class sprm_plot(sprm):
         """
         
         if len(label)==0:
-            label = 'none'
+            label = ['none']
+        elif isinstance(label,str):
+            label = [label]
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
         pp.rcParams['axes.facecolor'] = self.colors[1]
@@ -288,7 +292,9 @@ class sprm_plot(sprm):
         """
         
         if len(label)==0:
-            label = 'none'
+            label = ['none']
+        elif isinstance(label,str):
+            label = [label]
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
         pp.rcParams['axes.facecolor'] = self.colors[1]
-- 
2.43.0


From 52791ccec3b32ffa60138961fc919eed2c588600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 75/97] fix: plot_coeffs must accept the documented list or
 tuple of variable names

---
 src/direpack/plot/sprm_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 0c7882b..0cc2d50 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -165,8 +165,8 @@ class sprm_plot(sprm):
         ax1 = fig.add_subplot(111)
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
-            x_plot = columns[self.res_sprm.non_zero_scale_vars_]
-            x_labels = columns[self.res_sprm.non_zero_scale_vars_]
+            x_plot = np.array(columns)[self.res_sprm.non_zero_scale_vars_]
+            x_labels = x_plot
         else:
             x_plot = np.arange(0,p)
        
-- 
2.43.0


From a1664c641c9717a7e8d5359d21000bfa207c81de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 76/97] fix: plot_coeffs must label truncated bars with their
 own variables

---
 src/direpack/plot/sprm_plot.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 0cc2d50..d40e1e3 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -172,14 +172,13 @@ class sprm_plot(sprm):
        
         b_orig = np.array(getattr(self.res_sprm,entity)).reshape(-1)
         if truncation > 0:
-            ind_sort = np.argsort(np.argsort(b_orig))
-            b_sort = np.sort(b_orig)
+            ind_sort = np.argsort(b_orig)
             left = np.ceil(p*(truncation/2)).astype(int)
             right = (p-np.ceil(p*(truncation/2)).astype(int))
-            b_plot = b_sort[np.union1d(np.arange(0,left),
-                                       np.arange(right,p))]
-            x_labels = np.union1d(x_plot[ind_sort[0:left]],
-                                x_plot[ind_sort[right:p]])
+            ind_plot = ind_sort[np.union1d(np.arange(0,left),
+                                           np.arange(right,p))]
+            b_plot = b_orig[ind_plot]
+            x_labels = x_plot[ind_plot]
             x_plot = np.arange(0,len(x_labels))
             ax1.bar(x_plot,b_plot,color=self.colors[2],edgecolor=self.colors[4],tick_label=x_labels)
         else:
-- 
2.43.0


From 09caf07fb702306017e09619c5977b6b13ab82b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:57 +0000
Subject: [PATCH 77/97] fix: sprm plot_yyp must work for a response given as a
 series

---
 src/direpack/plot/sprm_plot.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index d40e1e3..d208b3c 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -89,9 +89,7 @@ class sprm_plot(sprm):
         pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
         if (not(onlyval)):
-            ytruec = self.res_sprm.y
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ytruec = np.array(self.res_sprm.y).reshape(-1).astype('float64')
             ypredc = np.array(self.res_sprm.fitted_).T.reshape(-1)
             labelcr = label[0] + ' Training' + ' Regular'
             labelcm = label[0] + ' Training' + ' Moderate'
-- 
2.43.0


From 44e12967d46fe008dc7a342fcbfe33a37f488fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:03 +0000
Subject: [PATCH 78/97] fix: ppdire must accept the documented list of
 optimizer constraints

---
 src/direpack/ppdire/ppdire.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index b697c92..c518f4f 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -591,7 +591,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                               'fun': lambda x: np.linalg.norm(x) -1,
                               }
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    if isinstance(self.optimizer_constraints,(list,tuple)):
+                        constraint = [constraint,*self.optimizer_constraints]
+                    else:
+                        constraint = [constraint,self.optimizer_constraints]
                 wi = minimize_ipopt(
                     pp_objective,
                     E[0,:].transpose(),
@@ -605,7 +608,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             elif self.optimizer == 'differential_evolution':
                 constraint = NonlinearConstraint(lambda x: np.linalg.norm(x) -1, lb=0, ub=0)
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    if isinstance(self.optimizer_constraints,(list,tuple)):
+                        constraint = [constraint,*self.optimizer_constraints]
+                    else:
+                        constraint = [constraint,self.optimizer_constraints]
                 wi = differential_evolution(
                     pp_objective,
                     [(-1e8,1e8) for i in range(p)],
@@ -627,7 +633,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                               'fun': lambda x: np.linalg.norm(x) -1,
                               }
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    if isinstance(self.optimizer_constraints,(list,tuple)):
+                        constraint = [constraint,*self.optimizer_constraints]
+                    else:
+                        constraint = [constraint,self.optimizer_constraints]
                 wi = minimize(pp_objective,
                               E[0,:].transpose(),
                               args=(self.most,E,opt_args),
-- 
2.43.0


From d3f1dfb2fff47eb75f11061c65f684ed966acdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 79/97] fix: scaling and wrapping must refuse data with another
 number of columns

---
 src/direpack/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index ee7c9ef..8d0dd84 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -89,6 +89,8 @@ def _check_fitted_input(X, p):
     X = _check_input(X)
     if p > 1 and X.shape == (p, 1):
         X = X.reshape((1, -1))
+    if X.shape[1] != p:
+        raise(ValueError("Number of columns needs to match the data fitted to"))
     return(X)
 
 
-- 
2.43.0


From e9fc2eb8b3348aa889d51da6d63f9c263b4f1667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 80/97] fix: sudire must refuse a number of components that is
 not positive

---
 src/direpack/sudire/sudire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index ce08ae5..24336b0 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -257,6 +257,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         trimming = self.trimming
 
         # Check dimensions
+        if self.n_components < 1:
+            raise (MyException("number of components has to be positive"))
         if self.n_components > min(n, p):
             raise (
                 MyException(
-- 
2.43.0


From 7bb7a9653b30285439242b02c326308210f0f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 81/97] fix: dicomo must refuse options outside the allowed
 ones set by set_params

---
 src/direpack/dicomo/dicomo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index dc825e3..c4dd57d 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -73,6 +73,12 @@ class dicomo(_BaseComposition,BaseEstimator):
         self.liest = ['arithmetic','distance','sign','entropy']
         self.limo = ['mom','var','std','skew','kurt','com','cov','cok','cos','corr','continuum','M3', 'mdd','ballcov']
         self.licenter = ['mean','median']
+        self._check_options()
+        if (self.mode=='ballcov'): 
+            print("To use the Ballcov functionality, uncomment the import statement and comment this line")
+
+
+    def _check_options(self):
         if not(self.mode in self.limo):
             raise(MyException("Only models allowed are: 'mom','var','skew','kurt','com','cov','cos','cok','corr','continuum','M3','mdd','mdc','ballcov'"))
         if not(self.est in self.liest):
@@ -81,8 +87,6 @@ class dicomo(_BaseComposition,BaseEstimator):
             raise(MyException('Only centring classes allowed are: "mean", "median"'))
         if (self.est=='arithmetic' and self.mode in ['mdd','mdc']):
             raise(MyException('MDD only defined when est="distance"'))
-        if (self.mode=='ballcov'): 
-            print("To use the Ballcov functionality, uncomment the import statement and comment this line")
         
         
         
@@ -111,6 +115,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             `calcmode`, str, to use the efficient or naive algorithm to calculate distance statistics. Defaults to `fast` when available.
         """
         
+        self._check_options() # options may have been set by set_params
         
         if 'trimming' not in kwargs:
             trimming = 0
-- 
2.43.0


From 0371acf57cd6c42b7eb1352c4e8a9dff753868ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 82/97] fix: snipls must refuse an eta outside [0,1) set by
 set_params

---
 src/direpack/sprm/snipls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index c2b0002..ac23e6b 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,6 +112,7 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
+        assert self.eta >= 0 and self.eta < 1,  "eta needs to be in [0,1)"
         columns = self.columns
         if type(self.columns) is list:
             columns = np.array(self.columns)
-- 
2.43.0


From 946d010d8020d6be929cf53dabfe03b19040fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 83/97] fix: snipls must refuse a response that does not fit
 before it overwrites the fitted model

---
 src/direpack/sprm/snipls.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index ac23e6b..9cc2c37 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -134,10 +134,9 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         y = _check_input(y)
         ny = y.shape[0]
         if ny != n:
-            if y.ndim == 2:
-                y = y.T
-            else:
-                raise (MyException("Number of cases in X and y needs to agree"))
+            raise (MyException("Number of cases in X and y needs to agree"))
+        if y.shape[1] != 1:
+            raise (MyException("y needs to be a vector or 1D matrix"))
         y = y.astype("float64")
         if self.copy:
             X0 = copy.deepcopy(X)
@@ -145,8 +144,7 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         else:
             X0 = X
             y0 = y
-        self.X = X0
-        self.y = y0
+        Xfit, yfit0 = X0, y0
         X0 = X0.astype("float64")
         centring = VersatileScaler(center=self.centre, scale=self.scale)
         X0 = centring.fit_transform(X0).astype("float64")
@@ -265,6 +263,8 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         yfit = yp_rescaled + intercept
         yfit = yfit.reshape(-1)
         r = y.ravel() - yfit
+        self.X = Xfit
+        self.y = yfit0
         setattr(self, "x_weights_", W)
         setattr(self, "x_loadings_", P)
         setattr(self, "C_", C)
-- 
2.43.0


From 37202de1663bb046cc74406aea33ae985c61ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 84/97] fix: sprm must refuse what it cannot fit before it
 overwrites the fitted model

---
 src/direpack/sprm/sprm.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 873c781..c74d2b0 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -156,9 +156,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Response data
 
         """
-        if self.copy:
-            self.X = copy.deepcopy(X)
-            self.y = copy.deepcopy(y)
+        X0, y0 = X, y
         (n, p) = X.shape
         if not (type(self.n_components) == int) | (self.n_components <= 0):
             raise MyException(
@@ -207,6 +205,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         ny = y.shape[0]
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
+        if y.shape[1] != 1:
+            raise MyException("y needs to be a vector or 1D matrix")
 
         scale = self.scale
         if scale == "scaleTau2":
@@ -222,13 +222,20 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         ys = scaling.fit_transform(y).astype("float64")
         my = scaling.col_loc_
         sy = scaling.col_sca_
+        zero_scale = np.where(sX < 1e-5)[0]
+        if self.n_components > p - len(zero_scale):
+            raise MyException(
+                f"Upon removal of zero scale variables, the number of components is too large. Please reduce to {p - len(zero_scale)} maximally."
+            )
+        if self.copy:
+            self.X = copy.deepcopy(X0)
+            self.y = copy.deepcopy(y0)
         setattr(self, "x_loc_", mX)
         setattr(self, "y_loc_", my)
         setattr(self, "x_sca_", sX)
         setattr(self, "y_sca_", sy)
         ys = np.array(ys).reshape(-1)
 
-        zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
             if type(columns) != bool:
@@ -252,10 +259,6 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if type(columns) != bool:
                 columns = columns[vars_to_keep]
             p = len(vars_to_keep)
-            if self.n_components > p:
-                raise MyException(
-                    "Upon removal of zero scale variables, the number of components is too large. Please reduce to {p} maximally."
-                )
 
         self.non_zero_scale_vars_ = vars_to_keep
 
-- 
2.43.0


From bf6e564c17e50a7a6d1bc95729656220601be5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 85/97] fix: rm must not overwrite its data when it refuses a
 request

---
 src/direpack/sprm/rm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 0630bdb..c06dbae 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -90,9 +90,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         self.hampelry_ = "irrelevant"
 
     def fit(self, X, y):
-        if self.copy:
-            self.X = copy.deepcopy(X)
-            self.y = copy.deepcopy(y)
+        X0, y0 = X, y
         (n, p) = X.shape
         if not (self.fun in ("Hampel", "Huber", "Fair")):
             raise MyException(
@@ -121,6 +119,9 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         ny = y.shape[0]
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
+        if self.copy:
+            self.X = copy.deepcopy(X0)
+            self.y = copy.deepcopy(y0)
 
         scaling = VersatileScaler(center=self.centre, scale=self.scale)
         Xs = scaling.fit_transform(X).astype("float64")
-- 
2.43.0


From 162361a60a2e9bb96c529f46ca6ec7a08a8eba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 86/97] fix: Hampel weights must be defined for the allowed
 probp3=1

---
 src/direpack/sprm/_m_support_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index a993850..db07a24 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -27,6 +27,9 @@ def Hampel(x, probct, hampelb, hampelr):
     wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
         x[np.where((x > probct) & (x <= hampelb))[0]]
     )
+    if np.isinf(hampelr):  # no rejection
+        wx[np.where(x > hampelb)[0]] = probct / abs(x[np.where(x > hampelb)[0]])
+        return wx
     wx[np.where((x > hampelb) & (x <= hampelr))[0]] = np.divide(
         probct * (hampelr - (x[np.where((x > hampelb) & (x <= hampelr))[0]])),
         (hampelr - hampelb) * abs(x[np.where((x > hampelb) & (x <= hampelr))[0]]),
-- 
2.43.0


From d4120d2da3577898bc5fe9cd2a0cd16179e892aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:58 +0000
Subject: [PATCH 87/97] fix: dicomo must store the distance co-moment of a
 correlation it computes the fast way

---
 src/direpack/dicomo/dicomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index c4dd57d..1d24f5e 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -372,8 +372,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         como = np.sqrt(abs(dc.u_distance_covariance_sqr(x,y)))
                     else:
                         como = np.sqrt(abs(dc.distance_covariance_sqr(x,y)))
+                    self.co_moment_ = como
                     if mode=='com':
-                        self.co_moment_ = como
                         self.moment_ = como
                     elif mode in ['corr','continuum','cos','cok']:
                         if biascorr:
-- 
2.43.0


From b30c22c3be031766e970422958fb9c06f8042349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:19 +0000
Subject: [PATCH 88/97] fix: dicomo must not ignore a distance metric given to
 the default calculation mode

---
 src/direpack/dicomo/dicomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 1d24f5e..d27fb4e 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -351,7 +351,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2 and dmetric=='euclidean'):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(abs(dc.u_distance_covariance_sqr(x,x)))
-- 
2.43.0


From f2b97b76ded493a07ee03652c6b280c21ba792b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:53 +0000
Subject: [PATCH 89/97] fix: get_params(deep=True) must work for parameters
 that are classes

---
 src/direpack/ppdire/capi.py   | 2 +-
 src/direpack/ppdire/ppdire.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index b517a50..a8cce9c 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -155,7 +155,7 @@ class capi(_BaseComposition, BaseEstimator):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
+            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + "__" + k, val) for k, val in deep_items)
             out[key] = value
diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index c518f4f..5fd2db3 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -869,7 +869,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, 'get_params'):
+            if deep and hasattr(value, 'get_params') and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + '__' + k, val) for k, val in deep_items)
             out[key] = value
-- 
2.43.0


From b0ef780e7eda652879e05b9c7df08fc694d3a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 90/97] fix: martingale difference divergence must use the
 distance metric asked for

---
 src/direpack/dicomo/_dicomo_utils.py |  5 +++--
 src/direpack/dicomo/dicomo.py        |  2 +-
 src/direpack/sudire/_sudire_utils.py | 14 ++++++++++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index 1745e67..8d7d9be 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -326,6 +326,7 @@ def difference_divergence(X,Y,**kwargs):
         X : A  matrix or data frame, where rows represent samples, and columns represent variables.
         Y : The response variable or matrix.
         biascorr, bool : if True, uses U centering to produce an unbiased estimator of MDD
+        dmetric, str : distance metric for X. Default is euclidean distance.
         
     output:
         returns the squared martingale difference divergence of Y given X.
@@ -355,8 +356,8 @@ def difference_divergence(X,Y,**kwargs):
     
     
     
-    A, Adim = distance_matrix_centered(X,biascorr=biascorr,trimming=trimming,center=center)  
-    dy=  spp.distance.squareform(spp.distance.pdist(Y.reshape(-1, 1),metric=dmetric)**2)
+    A, Adim = distance_matrix_centered(X,biascorr=biascorr,trimming=trimming,center=center,dmetric=dmetric)  
+    dy=  spp.distance.squareform(spp.distance.pdist(Y.reshape(-1, 1))**2)
     B,Bdim = double_center_flex(0.5*dy,biascorr=biascorr,trimming=trimming,center=center)
     if biascorr:
         return(U_inner(A,B,trimming))
diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d27fb4e..67e4641 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -329,7 +329,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr,dmetric=dmetric))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 70fd807..c21ca10 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -48,7 +48,12 @@ def mdd_trim(beta, *args):
         X_dat = np.matmul(X_coord, beta)
         res = np.sqrt(
             difference_divergence(
-                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr
+                X_dat,
+                Y,
+                center=center,
+                trimming=trimming,
+                biascorr=biascorr,
+                dmetric=dmetric,
             )
         )
         return -10 * res
@@ -56,7 +61,12 @@ def mdd_trim(beta, *args):
         X_dat = np.matmul(X, beta)
         res = np.sqrt(
             difference_divergence(
-                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr
+                X_dat,
+                Y,
+                center=center,
+                trimming=trimming,
+                biascorr=biascorr,
+                dmetric=dmetric,
             )
         )
         return -10 * res
-- 
2.43.0


From 2b73d87c2a0a7f6985078afdf86849498da86e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:33 +0000
Subject: [PATCH 91/97] fix: ppdire grid must work for one variable

---
 src/direpack/ppdire/ppdire.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 5fd2db3..9013551 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -494,7 +494,14 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         for i in range(0,h):
 
             if self.optimizer=='grid':
-                if p==2:
+                if p==1:
+                    # one variable has one direction
+                    wi = np.ones((1,1))
+                    Maxobjf[i] = self.most.fit(E,**opt_args)
+                    if self.square_pi:
+                        Maxobjf[i] **= 2
+                        
+                elif p==2:
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
-- 
2.43.0


From 677e10f90bee5bcfe165066a235a8c5f7dda3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:34 +0000
Subject: [PATCH 92/97] fix: sudire must work for one variable

---
 src/direpack/sudire/_sudire_utils.py | 12 ++++++------
 src/direpack/sudire/sudire.py        |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index c21ca10..abadeb1 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -215,7 +215,7 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
     """
     y = np.asarray(y).flatten()
     n = x.shape[0]  ## zxception if d> p or x.shape[0] != y.shape[0]
-    signsqrt = matpower(np.cov(x, rowvar=0), -0.5)
+    signsqrt = matpower(np.atleast_2d(np.cov(x, rowvar=0)), -0.5)
     #     xc = x - x.mean(axis=0)
     #     xstd= np.matmul(xc,signsqrt)
 
@@ -279,7 +279,7 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
     y = np.asarray(y).flatten()
     p = x.shape[1]
     n = x.shape[0]  ## zxception if d> p or x.shape[0] != y.shape[0]
-    signsqrt = matpower(np.cov(x, rowvar=0), -0.5)
+    signsqrt = matpower(np.atleast_2d(np.cov(x, rowvar=0)), -0.5)
     #     xc = x - x.mean(axis=0)
     #     xstd= np.matmul(xc,signsqrt)
     if center_data:
@@ -353,7 +353,7 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
     y = np.asarray(y).flatten()
     p = x.shape[1]
     n = x.shape[0]  ## zxception if d> p or x.shape[0] != y.shape[0]
-    signsqrt = matpower(np.cov(x, rowvar=0), -0.5)
+    signsqrt = matpower(np.atleast_2d(np.cov(x, rowvar=0)), -0.5)
 
     if center_data:
         x = x - x.mean(axis=0)
@@ -448,7 +448,7 @@ def PHD(x, y, d, center_data=True, scale_data=True):
     n = x.shape[0]
     if len(y.shape) < 2:
         y = y.reshape((-1, 1))
-    signsqrt = matpower(np.cov(x, rowvar=0), -0.5)
+    signsqrt = matpower(np.atleast_2d(np.cov(x, rowvar=0)), -0.5)
     if center_data:
         x = x - x.mean(axis=0)
     if scale_data:
@@ -490,7 +490,7 @@ def IHT(x, y, d, center_data=True, scale_data=True):
     ## zxception if d> p or x.shape[0] != y.shape[0]
     if len(y.shape) < 2:
         y = y.reshape((-1, 1))
-    signsqrt = matpower(np.cov(x, rowvar=0), -0.5)
+    signsqrt = matpower(np.atleast_2d(np.cov(x, rowvar=0)), -0.5)
 
     if center_data:
         x = x - x.mean(axis=0)
@@ -499,7 +499,7 @@ def IHT(x, y, d, center_data=True, scale_data=True):
 
     covxy = np.cov(x, y, rowvar=0)[-1, :-1]
     hessian = np.matmul(np.multiply(x, y - np.mean(y, axis=0)).T, x) / x.shape[0]
-    mat = covxy
+    mat = covxy.reshape((-1, 1))
     for i in range(1, p):
         mat = np.column_stack((mat, np.matmul(matpower(hessian, i), covxy)))
 
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 24336b0..1bb9d79 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -272,7 +272,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.compression = False
             print("All results produced are for whitened data")
         # Store original X data mean and varcov matrix.
-        varmatx = np.cov(X, rowvar=0)
+        varmatx = np.atleast_2d(np.cov(X, rowvar=0))
         meanx = X.mean(axis=0)
         N2 = inv(sqrtm(varmatx))
 
-- 
2.43.0


From 624e56185718db2f5a33d8e74e005471adb38ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:58 +0000
Subject: [PATCH 93/97] fix: wrap_univ must wrap distances that need no scaling
 (its default)

---
 src/direpack/preprocessing/_preproc_utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 5630bdb..24feaa0 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -341,6 +341,7 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
         scaleX = _handle_zeros_in_scale(scaleX)
         xi = (dd - locX) / scaleX
     else:
+        locX, scaleX = 0, 1
         xi = np.array(dd)
     indMid = np.where((np.abs(xi) < c) & (np.abs(xi) >= b))[0]
     indHigh = np.where(np.abs(xi) >= c)[0]
-- 
2.43.0


From 7c15f894c9245e3100d55d7003b37a0610a52751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:07 +0000
Subject: [PATCH 94/97] fix: unit covariance constraint of sudire must work for
 a single variable

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 8d0dd84..c57cc27 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -34,7 +34,7 @@ def const_xscale(beta, *args):
     i = args[2]
     j = args[3]
     beta = np.reshape(beta, (-1, h), order='F')
-    covx = np.cov(X, rowvar=False)
+    covx = np.atleast_2d(np.cov(X, rowvar=False))
     ans = np.matmul(np.matmul(beta.T, covx), beta) - np.identity(h)
     return(ans[i, j])
 
-- 
2.43.0


From caf9a1b08060328b879bd5a95d09103b4afb6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:07 +0000
Subject: [PATCH 95/97] fix: a scaler must refuse a column of as many cases as
 it has variables

---
 src/direpack/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index c57cc27..608f232 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -86,8 +86,9 @@ def _check_fitted_input(X, p):
     it matches the number of variables p that a model has been fitted to.
     """
 
+    single = np.ndim(X) == 1 or np.shape(X)[0] == 1
     X = _check_input(X)
-    if p > 1 and X.shape == (p, 1):
+    if single and p > 1 and X.shape == (p, 1):
         X = X.reshape((1, -1))
     if X.shape[1] != p:
         raise(ValueError("Number of columns needs to match the data fitted to"))
-- 
2.43.0


From 270708ec6d7c73af48e527990dec3e54e39bc17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:44 +0000
Subject: [PATCH 96/97] fix: scaleTau2 failed on integer data (in-place float
 update of an integer copy)

---
 src/direpack/preprocessing/_preproc_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 24feaa0..3885435 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -246,7 +246,7 @@ def scaleTau2(x0, c1=4.5, c2=3, consistency=True, **kwargs):
         the scale estimate
     """
 
-    x = copy.deepcopy(x0)
+    x = x0.astype("float64")
     n, p = x.shape
     if np.isnan(x).any():
         summ = np.nansum
-- 
2.43.0


From 375731f256775e6d420cd1a5d5baf81549f0b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:44 +0000
Subject: [PATCH 97/97] fix: l1median and kstepLTS failed on single precision
 data

---
 src/direpack/preprocessing/_preproc_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 3885435..4aaa224 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -197,6 +197,8 @@ def l1median(X, **kwargs):
     if p < 2:
         return median(X)
     else:
+        # the optimizer only accepts double precision
+        X, x0 = X.astype("float64"), np.asarray(x0, dtype="float64")
         return _l1median(X, x0, **kwargs).x
 
 
-- 
2.43.0

