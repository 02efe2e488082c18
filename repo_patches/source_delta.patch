From ff4a1747751280c2fbcd3f938fd20c54e06250c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:24 +0000
Subject: [PATCH 01/22] fix: matrix decomposition queries describe the current
 contents

In-place vector arithmetic and fill_diagonal left stale decompositions in the
cache, get_eigenvalue_decomposition_V handed out the cached matrix itself and
get_singular_values depended on an earlier SVD query.
---
 src/wai/ma/core/matrix/_Matrix.py | 4 +++-
 src/wai/ma/core/matrix/helper.py  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 11be11c..97d289c 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -85,7 +85,7 @@ class Matrix(Serialisable):
 
     def get_eigenvalue_decomposition_V(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-        return self.eigenvalue_decomposition[1]
+        return self.eigenvalue_decomposition[1].copy()
 
     def get_eigenvalue_decomposition_D(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
@@ -141,6 +141,7 @@ class Matrix(Serialisable):
         return Matrix(np.array(raw, dtype=real))
 
     def get_singular_values(self) -> 'Matrix':
+        self.make_singular_value_decomposition()
         return self.singular_value_decomposition[1].transpose()
 
     def sum(self, axis: Optional[int] = None) -> Union['Matrix', real]:
@@ -550,6 +551,7 @@ class Matrix(Serialisable):
     def vector_op_modify(self, vector: 'Matrix', op: np.ufunc):
         must_be_vector(vector)
         self.ensure_vector_size_matches(vector)
+        self.reset_cache()
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 695f151..e1c9383 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -222,6 +222,7 @@ def column_stdevs(mat: Matrix) -> Matrix:
 
 
 def fill_diagonal(mat: Matrix, value: Number):
+    mat.reset_cache()
     i = 0
     while i < mat.num_rows() and i < mat.num_columns():
         mat.data[i][i] = real(value)
-- 
2.43.0


From c3507a9943d97fb8e1dd2ea4ac0efbff0e74b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 02/22] fix: seeded random matrices leave numpy's global
 generator alone

rand/randn reseeded the process-wide generator: callers lost their own random
stream and concurrent callers could get each other's numbers. The same values
now come from a generator of their own.
---
 src/wai/ma/core/matrix/factory.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/factory.py b/src/wai/ma/core/matrix/factory.py
index 48960d5..50f3bf9 100644
--- a/src/wai/ma/core/matrix/factory.py
+++ b/src/wai/ma/core/matrix/factory.py
@@ -148,8 +148,7 @@ def randn(rows: int, columns: int, seed: int = 1, mean: real = real(0), std: rea
     :param std:         The standard deviation of the normal distribution.
     :return:            The matrix.
     """
-    random.seed(seed)
-    data = random.rand(rows, columns)
+    data = random.RandomState(seed).rand(rows, columns)
     np.multiply(data, std)
     np.add(data, mean)
     return Matrix(data)
@@ -178,8 +177,7 @@ def rand(rows: int, columns: int, seed: int = 1) -> Matrix:
     :param seed:        The seed value to initialise the PRNG with.
     :return:            The matrix.
     """
-    random.seed(seed)
-    return Matrix(random.rand(rows, columns))
+    return Matrix(random.RandomState(seed).rand(rows, columns))
 
 
 def rand_like(other: Matrix, seed: int) -> Matrix:
-- 
2.43.0


From 1448d47fac69a54e57f83433a0c09974e8e62a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 03/22] fix: DIPLS forgets domain sizes and strategy of earlier
 trainings

A plain initialize() silently reused the domain sizes of an earlier training
instead of being refused, and changing the adaption strategy (also by a
training call that then failed) kept serving a model trained under the old
strategy.
---
 src/wai/ma/algorithm/pls/_DIPLS.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index e301149..33fad73 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -53,7 +53,12 @@ class DIPLS(AbstractSingleResponsePLS):
             self.X_t_center = Center()
             self.X_s_center = Center()
         else:
-            return super().initialize(predictors, response)
+            try:
+                return super().initialize(predictors, response)
+            finally:
+                # The domain sizes only describe this training's data
+                self.ns = 0
+                self.nt = 0
 
     def reset(self):
         super().reset()
@@ -67,6 +72,10 @@ class DIPLS(AbstractSingleResponsePLS):
         self.b_di = None
         self.b_0 = NAN
 
+    @staticmethod
+    def validate_model_adaption_strategy(value: 'ModelAdaptionStrategy') -> bool:
+        return True
+
     @staticmethod
     def validate_lambda_(value: real) -> bool:
         return abs(value) >= 1e-8
@@ -246,11 +255,11 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_source_domain:      Response from source domain.
         :return:                            Result, None if no errors, else error string.
         """
-        self.ns = predictors_source_domain.num_rows()
-        self.nt = predictors_target_domain.num_rows()
-        self.model_adaption_strategy = ModelAdaptionStrategy.UNSUPERVISED
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain
+        self.model_adaption_strategy = ModelAdaptionStrategy.UNSUPERVISED
+        self.ns = predictors_source_domain.num_rows()
+        self.nt = predictors_target_domain.num_rows()
 
         return self.initialize(X, y)
 
@@ -268,11 +277,11 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_target_domain:      Response from target domain.
         :return:                            Result, None if no errors, else error string.
         """
-        self.ns = predictors_source_domain.num_rows()
-        self.nt = predictors_target_domain.num_rows()
-        self.model_adaption_strategy = ModelAdaptionStrategy.SUPERVISED
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
+        self.model_adaption_strategy = ModelAdaptionStrategy.SUPERVISED
+        self.ns = predictors_source_domain.num_rows()
+        self.nt = predictors_target_domain.num_rows()
 
         return self.initialize(X, y)
 
@@ -292,13 +301,13 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_target_domain:              Response from target domain.
         :return:                                    Result, None if no errors, else error string.
         """
-        self.ns = predictors_source_domain.num_rows()
-        self.nt = predictors_target_domain.num_rows()
-        self.model_adaption_strategy = ModelAdaptionStrategy.SEMISUPERVISED
         X: Matrix = predictors_source_domain\
                     .concat_along_rows(predictors_target_domain)\
                     .concat_along_rows(predictors_target_domain_unlabeled)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
+        self.model_adaption_strategy = ModelAdaptionStrategy.SEMISUPERVISED
+        self.ns = predictors_source_domain.num_rows()
+        self.nt = predictors_target_domain.num_rows()
 
         return self.initialize(X, y)
 
-- 
2.43.0


From bcb6d09f66edfd8bb9d2f3067f832eb7bfd927cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:19 +0000
Subject: [PATCH 04/22] fix: CCAFilter centers with the data it is trained on

The centering fitted in the first training was kept for ever: training again
on other data used the old means, or failed when the shape differed.
---
 src/wai/ma/algorithm/_CCAFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9885a07..b8cec99 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -50,6 +50,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
 
     def reset(self):
         super().reset()
+        self.center_X = Center()
+        self.center_Y = Center()
         self.proj_X = None
         self.proj_Y = None
 
@@ -59,8 +61,6 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
             self.kcca = 1
             self.lambda_X = real(1e-2)
             self.lambda_Y = real(1e-2)
-            self.center_X = Center()
-            self.center_Y = Center()
         else:
             x = x.copy()
             y = y.copy()
-- 
2.43.0


From 232bab9a5e277a315ed887de8de9a483bf453479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 05/22] fix: FastICA fits every data set from scratch

The centering of the first data set was reused for all later ones, and the
num_components the user had set was overwritten whenever the data had fewer
dimensions (or whitening was off), for good. The number of components usable
for the data at hand is now local to the fit.
---
 src/wai/ma/algorithm/ica/_FastICA.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index e6107ee..33a7afe 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -66,11 +66,12 @@ class FastICA(AbstractAlgorithm, Filter):
         self.tol = 1e-4
         self.whiten = True
         self.algorithm = Algorithm.DEFLATION
-        self.center = Center()
 
     def reset(self):
         super().reset()
         self.components = None
+        self.sources = None
+        self.center = Center()
         self.mixing = None
         self.whitening = None
 
@@ -83,14 +84,15 @@ class FastICA(AbstractAlgorithm, Filter):
         X1: Optional[Matrix] = None
 
         min_NP: int = min(n, p)
+        num_components: int = self.num_components
 
         if not self.whiten:
-            self.num_components = min_NP
+            num_components = min_NP
             self.logger.warning('Ignoring num_components when $whiten=False')
 
-        if self.num_components > min_NP:
+        if num_components > min_NP:
             self.logger.warning('num_components is too large and will be set to ' + str(min_NP))
-            self.num_components = min_NP
+            num_components = min_NP
 
         # Whiten data
         if self.whiten:
@@ -101,7 +103,7 @@ class FastICA(AbstractAlgorithm, Filter):
             d = d.get_rows((0, k))  # Only get non-zero singular values
             d_inv_elements: Matrix = d.apply_elementwise(lambda a: 1.0 / a)
             tmp: Matrix = U.scale_by_row_vector(d_inv_elements).transpose()
-            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), self.num_components)))
+            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), num_components)))
 
             X1 = self.whitening.mul(X)
             X1 = X1.mul(sqrt(p))
@@ -109,7 +111,7 @@ class FastICA(AbstractAlgorithm, Filter):
             X1 = X
 
         # Randomly initialise weights from normal dist
-        W_init: Matrix = randn(self.num_components, self.num_components, 1)
+        W_init: Matrix = randn(num_components, num_components, 1)
 
         # Use deflation algorithm
         if self.algorithm is Algorithm.DEFLATION:
@@ -135,9 +137,10 @@ class FastICA(AbstractAlgorithm, Filter):
         :param X:       Input.
         :return:        Weights
         """
-        W: Matrix = zeros(self.num_components, self.num_components)
+        num_components: int = W_init.num_rows()
+        W: Matrix = zeros(num_components, num_components)
 
-        for j in range(self.num_components):
+        for j in range(num_components):
             w: Matrix = W_init.get_row(j).transpose().copy()
             w = w.div(w.pow_elementwise(2).sum(-1).sqrt().as_real())
             for i in range(self.max_iter):
-- 
2.43.0


From 4aeeedf2806c276ba08909e18967ad095af90b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:28 +0000
Subject: [PATCH 06/22] fix: PCA and FastICA keep their own copy of the
 transformed data

The matrix returned by transform() was the one stored as scores/sources, so
editing the result changed the model (and FastICA's reconstruction).
---
 src/wai/ma/algorithm/_PCA.py         | 2 +-
 src/wai/ma/algorithm/ica/_FastICA.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 6b92331..97dc77a 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -264,7 +264,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.reset()
         self.configure(data)
         result = self.do_transform(data)
-        self.scores = result
+        self.scores = result.copy()
         self.loadings = self.extract_loadings()
 
         return result
diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 33a7afe..9360394 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -244,7 +244,7 @@ class FastICA(AbstractAlgorithm, Filter):
         :param data:    The original data to transform.
         :return:        The transformed data.
         """
-        return self.sources
+        return self.sources.copy()
 
     def transform(self, data: Matrix) -> Matrix:
         self.reset()
-- 
2.43.0


From 2cc199f7703f9a5eadc8873f76c2af72d841729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 07/22] fix: kernels with automatic gamma adapt to every data
 set

The gamma derived from the first data set was stored as if the user had set
it, so a kernel used again with another number of columns kept the old one.
---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 10 ++++------
 src/wai/ma/transformation/kernel/_RBFKernel.py  |  5 ++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index be5ac88..dfa0dcb 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -40,19 +40,17 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        if self.gamma is NAN:
-            self.gamma = ONE / X.num_columns()
+        gamma: real = ONE / X.num_columns() if self.gamma is NAN else self.gamma
         result: Matrix = X.mul(Y.transpose())
-        result = result.mul(self.gamma)
+        result = result.mul(gamma)
         result = result.add(self.coef_0)
         result = result.pow_elementwise(self.degree)
         return result
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return pow(self.gamma * linear_term + self.coef_0, self.degree)
+        gamma: real = ONE / x.num_columns() if self.gamma is NAN else self.gamma
+        return pow(gamma * linear_term + self.coef_0, self.degree)
 
     def __str__(self):
         return 'Polynomial Kernel: K(x,y)=(gamma*x^T*y + coef_0)^d, ' +\
diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index a7d30ba..9a484f2 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -33,9 +33,8 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return exp(-ONE * self.gamma * norm_2)
+        gamma: real = ONE / x.num_columns() if self.gamma is NAN else self.gamma
+        return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
         return 'RBF Kernel: K(x,y) = exp(-1*gamma*||x - y||^2), gamma=' + str(self.gamma)
-- 
2.43.0


From a22f6ef4b80542f8fa8b29863a9fe0deb2975cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 08/22] fix: reset leaves no model matrices behind

SIMPLS kept its Q matrix and OPLS its cleaned data after a reset, and asking
an untrained PRM for W crashed instead of answering None.
---
 src/wai/ma/algorithm/pls/_OPLS.py   | 1 +
 src/wai/ma/algorithm/pls/_PRM.py    | 2 +-
 src/wai/ma/algorithm/pls/_SIMPLS.py | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 5237fc9..ab11baa 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -54,6 +54,7 @@ class OPLS(AbstractSingleResponsePLS):
         self.P_orth = None
         self.W_orth = None
         self.T_orth = None
+        self.X_osc = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 073b0a4..353a4be 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -100,7 +100,7 @@ class PRM(AbstractSingleResponsePLS):
                 return self.W_r
             if case('Wx'):
                 return self.W_x
-            if case('W'):
+            if case('W') and self.W_r is not None:
                 return self.W_r.mul_elementwise(self.W_x)
         return None
 
diff --git a/src/wai/ma/algorithm/pls/_SIMPLS.py b/src/wai/ma/algorithm/pls/_SIMPLS.py
index 48e826c..7ccd264 100644
--- a/src/wai/ma/algorithm/pls/_SIMPLS.py
+++ b/src/wai/ma/algorithm/pls/_SIMPLS.py
@@ -46,6 +46,7 @@ class SIMPLS(AbstractSingleResponsePLS, Serialisable):
         super().reset()
         self.B = None
         self.W = None
+        self.Q = None
 
     @staticmethod
     def validate_num_coefficients(value: int) -> bool:
-- 
2.43.0


From 73bb549bf90553046db5afd022cbf7ff5d66a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 09/22] fix: OPLS reports a failed training of its base model

The error result of the base algorithm was dropped, so OPLS claimed to be
trained although its base model was not.
---
 src/wai/ma/algorithm/pls/_OPLS.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index ab11baa..ddc6d4e 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -148,9 +148,7 @@ class OPLS(AbstractSingleResponsePLS):
             self.P_orth.set_column(current_component, p_orth)
 
         self.X_osc = X.copy()
-        self.base_PLS.initialize(self.do_transform(predictors), response)
-
-        return None
+        return self.base_PLS.initialize(self.do_transform(predictors), response)
 
     def inv_L2_squared(self, v: Matrix) -> real:
         """
-- 
2.43.0


From b8f62e0a72ae1a837ea30d8196139b85a433bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:36 +0000
Subject: [PATCH 10/22] fix: a failed training leaves no parts of a model
 behind

Matrices computed before the failure stayed available through get_matrix,
get_loadings, scores, sources and the like of an object that is not trained.
PCA also never recorded that it had been trained.
---
 src/wai/ma/algorithm/_PCA.py             | 14 ++++++++++----
 src/wai/ma/algorithm/ica/_FastICA.py     |  7 ++++++-
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 15 ++++++++++-----
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 97dc77a..25b6602 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -262,10 +262,16 @@ class PCA(AbstractAlgorithm, Filter):
         :return:        The transformed data.
         """
         self.reset()
-        self.configure(data)
-        result = self.do_transform(data)
-        self.scores = result.copy()
-        self.loadings = self.extract_loadings()
+        try:
+            self.configure(data)
+            result = self.do_transform(data)
+            self.scores = result.copy()
+            self.loadings = self.extract_loadings()
+            self.initialised = True
+        finally:
+            # Don't leave parts of a model behind
+            if not self.initialised:
+                self.reset()
 
         return result
 
diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 9360394..78f8a36 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -248,7 +248,12 @@ class FastICA(AbstractAlgorithm, Filter):
 
     def transform(self, data: Matrix) -> Matrix:
         self.reset()
-        self.configure(data)
+        try:
+            self.configure(data)
+        finally:
+            # Don't leave parts of a model behind
+            if not self.initialised:
+                self.reset()
         result: Matrix = self.do_transform(data)
 
         return result
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index ea6e2ae..e08a81c 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -50,11 +50,16 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
 
             self.reset()
 
-            result = self.check(predictors, response)
-
-            if result is None:
-                result = self.do_initialize(predictors, response)
-                self.initialised = result is None
+            try:
+                result = self.check(predictors, response)
+
+                if result is None:
+                    result = self.do_initialize(predictors, response)
+                    self.initialised = result is None
+            finally:
+                # Don't leave parts of a model behind
+                if not self.initialised:
+                    self.reset()
 
             return result
 
-- 
2.43.0


From 1cc8ed2b42f2b2f4f15e892dab5cc4cf2a11c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:11 +0000
Subject: [PATCH 11/22] fix: every parameter change invalidates the model
 trained under the old value

Changing norm_Y_weights/deflation_mode (NIPALS), fun/algorithm (FastICA),
standardise (PowerTransformer), the numeric options of QuantileTransformer
and with_centering/with_scaling (RobustScaler) kept using the old model.
---
 src/wai/ma/algorithm/ica/_FastICA.py              |  8 ++++++++
 src/wai/ma/algorithm/pls/_NIPALS.py               |  8 ++++++++
 src/wai/ma/transformation/_PowerTransformer.py    |  3 +++
 src/wai/ma/transformation/_QuantileTransformer.py | 12 ++++++++++++
 src/wai/ma/transformation/_RobustScaler.py        |  6 ++++++
 5 files changed, 37 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 78f8a36..b327bd7 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -50,6 +50,14 @@ class FastICA(AbstractAlgorithm, Filter):
     def validate_whiten(value: bool) -> bool:
         return True
 
+    @staticmethod
+    def validate_fun(value: NegEntropyApproximationFunction) -> bool:
+        return True
+
+    @staticmethod
+    def validate_algorithm(value: 'Algorithm') -> bool:
+        return True
+
     @staticmethod
     def validate_max_iter(value: int) -> bool:
         return value >= 0
diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9bf596b..4b2b733 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -76,6 +76,14 @@ class NIPALS(AbstractMultiResponsePLS):
     def validate_tol(value: real) -> bool:
         return value >= ZERO
 
+    @staticmethod
+    def validate_norm_Y_weights(value: bool) -> bool:
+        return True
+
+    @staticmethod
+    def validate_deflation_mode(value: 'DeflationMode') -> bool:
+        return True
+
     def get_min_columns_response(self) -> int:
         return 1
 
diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index ccdd96f..0edd067 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -50,6 +50,9 @@ class PowerTransformer(AbstractTransformation):
             raise ValueError(f"Method was {method} but must be one of: " +
                              ", ".join(PowerTransformer.METHODS))
 
+    def validate_standardise(self, standardise: bool):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index b161ad4..564455c 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -53,6 +53,18 @@ class QuantileTransformer(AbstractTransformation):
             raise ValueError(f"Output distribution was {selection} but must be one of: " +
                              ", ".join(QuantileTransformer.OUTPUT_DISTRIBUTIONS))
 
+    def validate_n_quantiles(self, n_quantiles: int):
+        pass
+
+    def validate_ignore_implicit_zeroes(self, ignore_implicit_zeroes: bool):
+        pass
+
+    def validate_subsample(self, subsample: int):
+        pass
+
+    def validate_random_state(self, random_state: Optional[int]):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 884dbb8..f3b76cb 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -46,6 +46,12 @@ class RobustScaler(AbstractTransformation):
 
         super().__setattr__(key, value)
 
+    def validate_with_centering(self, with_centering: bool):
+        pass
+
+    def validate_with_scaling(self, with_scaling: bool):
+        pass
+
     def validate_quantile_range(self, selection: Tuple[float, float]):
         if not (0.0 < selection[0] < selection[1] < 100.0):
             raise ValueError(f"Quantile range must be 0.0 < q_min < q_max < 100.0. "
-- 
2.43.0


From c7047bc04060d2c7b0365f780c8f8382aaf7afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:16 +0000
Subject: [PATCH 12/22] fix: a failed configuration is not mixed with the
 previous one

When configuring on new data failed half-way, the transformation stayed marked
as configured: Standardize combined new means with old deviations, the
scikit-learn based ones answered with an unfitted estimator.
---
 src/wai/ma/transformation/_PowerTransformer.py    | 1 +
 src/wai/ma/transformation/_QuantileTransformer.py | 1 +
 src/wai/ma/transformation/_RobustScaler.py        | 1 +
 src/wai/ma/transformation/_Standardize.py         | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index 0edd067..fe9e4a3 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -58,6 +58,7 @@ class PowerTransformer(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
+        self.reset()
         self._intern = Intern(method=self.method, standardize=self.standardise)
         self._intern.fit(data.data)
         self.configured = True
diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index 564455c..276e574 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -70,6 +70,7 @@ class QuantileTransformer(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
+        self.reset()
         self._intern = Intern(n_quantiles=self.n_quantiles,
                               output_distribution=self.output_distribution,
                               ignore_implicit_zeros=self.ignore_implicit_zeroes,
diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index f3b76cb..bc0cac0 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -62,6 +62,7 @@ class RobustScaler(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
+        self.reset()
         self._intern = Intern(with_centering=self.with_centering,
                               with_scaling=self.with_scaling,
                               quantile_range=self.quantile_range)
diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 22b31fc..911f7ab 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -34,6 +34,7 @@ class Standardize(AbstractTransformation, Serialisable):
         self.std_devs = None
 
     def configure(self, data: Matrix):
+        self.reset()
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-- 
2.43.0


From b0838f4595fe1ed4b4a0d3370ded9d2757f2b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:22 +0000
Subject: [PATCH 13/22] fix: RowNorm uses the rows of the matrix it is given
 after an inverse transform

inverse_transform() marked the row normaliser as configured, so that all later
matrices were normalised with the row statistics of that one. Every other
transformation marks itself configured in configure().
---
 src/wai/ma/transformation/_AbstractTransformation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wai/ma/transformation/_AbstractTransformation.py b/src/wai/ma/transformation/_AbstractTransformation.py
index da1bc57..ceb0e09 100644
--- a/src/wai/ma/transformation/_AbstractTransformation.py
+++ b/src/wai/ma/transformation/_AbstractTransformation.py
@@ -47,7 +47,6 @@ class AbstractTransformation(Filter, ABC):
     def inverse_transform(self, data: Matrix) -> Matrix:
         if not self.configured:
             self.configure(data)
-            self.configured = True
         return self.do_inverse_transform(data)
 
     @classmethod
-- 
2.43.0


From 0ebfee427f9a1e859721cd2f0d7cc6fef3e33a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:47 +0000
Subject: [PATCH 14/22] fix: save_state keeps the existing file when there is
 no state to save

Saving an untrained object emptied the target file before refusing, and a
plain file name (without a directory) could not be saved to at all.
---
 src/wai/ma/core/_Serialisable.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 7890553..9463025 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -43,14 +43,18 @@ class Serialisable(ABC):
 
         :param filename:    The name of the file to save to.
         """
+        # Serialise before touching the file, in case there is nothing to save
+        stream = BytesIO()
+        self.serialise_state(stream)
+
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
-        if not os.path.exists(path):
+        if path != '' and not os.path.exists(path):
             os.makedirs(path, exist_ok=True)
 
         # Save the file
         with open(filename, 'wb') as file:
-            self.serialise_state(file)
+            file.write(stream.getvalue())
 
     def get_serialised_state(self) -> bytes:
         """
-- 
2.43.0


From f308212c6dcbe44654adde293a54086bb50b1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:53 +0000
Subject: [PATCH 15/22] fix: Log serialises integral parameters as the doubles
 the format calls for

base = 10 was written as a 4-byte integer, giving a file of another layout.
---
 src/wai/ma/transformation/_Log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_Log.py b/src/wai/ma/transformation/_Log.py
index 913b018..4990b76 100644
--- a/src/wai/ma/transformation/_Log.py
+++ b/src/wai/ma/transformation/_Log.py
@@ -86,6 +86,6 @@ class Log(AbstractTransformation, Serialisable):
 
     def serialise_state(self, stream: IO[bytes]):
         # Serialise out our base, base-conversion factor and offset
-        stream.write(self.serialise_to_bytes(self.base))
+        stream.write(self.serialise_to_bytes(float(self.base)))
         stream.write(self.serialise_to_bytes(self._base_conversion_factor()))
-        stream.write(self.serialise_to_bytes(self.offset))
+        stream.write(self.serialise_to_bytes(float(self.offset)))
-- 
2.43.0


From 48fd54d0583f0ef00a89b00dc5b7bd1d7b9888e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 16/22] fix: reading an empty stream reports that there are no
 rows

The error message concatenated the stream object and failed with a TypeError.
---
 src/wai/ma/core/matrix/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index e1c9383..85c0fc3 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -109,12 +109,12 @@ def read(filename: Union[str, IO[str]], header: bool, separator: str) -> Matrix:
         lines = [line for line in filename]
 
     if len(lines) == 0:
-        raise RuntimeError('No rows in file: ' + filename)
+        raise RuntimeError('No rows in file: ' + str(filename))
 
     if header:
         lines = lines[1:]
     if len(lines) == 0:
-        raise RuntimeError('No data rows in file: ' + filename)
+        raise RuntimeError('No data rows in file: ' + str(filename))
 
     sep = separator
     cells = lines[0].split(sep)
-- 
2.43.0


From d8a9a9a30a17daea98cdaa201dbcfcb9531efc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:34 +0000
Subject: [PATCH 17/22] fix: CCAFilter does not take a training call without
 response as success

initialize(X, None) reset all parameters to their defaults and returned None,
the sign of a successful training. It now fails like the other algorithms.
---
 src/wai/ma/algorithm/_CCAFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index b8cec99..f0e01a6 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -56,7 +56,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         self.proj_Y = None
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
-        if x is None or y is None:
+        if x is None and y is None:
             super().initialize()
             self.kcca = 1
             self.lambda_X = real(1e-2)
-- 
2.43.0


From 0a90f0f1a00fc8a047a449925f451c9d2b45151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:43 +0000
Subject: [PATCH 18/22] fix: Standardize offers its statistics only when both
 were computed

A configuration that failed while computing the deviations left the new means
readable on an unconfigured object.
---
 src/wai/ma/transformation/_Standardize.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 911f7ab..adde11c 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -35,12 +35,14 @@ class Standardize(AbstractTransformation, Serialisable):
 
     def configure(self, data: Matrix):
         self.reset()
-        self.means = column_means(data)
-        self.std_devs = column_stdevs(data)
+        means = column_means(data)
+        std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-        for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
-                self.std_devs.set(i, 0, 1)
+        for i in range(std_devs.num_rows()):
+            if std_devs.get(i, 0) == real(0):
+                std_devs.set(i, 0, 1)
+        self.means = means
+        self.std_devs = std_devs
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From 5bf54f28872fa93f5ff3c51b38107d2b468ae5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 19/22] fix: NIPALS and CCARegression train with several
 response columns

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 4b2b733..5c1dc39 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -162,7 +162,7 @@ class NIPALS(AbstractMultiResponsePLS):
 
         # Calculate regression coefficients
         y_stds: Matrix = self.standardize_Y.get_std_devs()
-        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds)
+        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds.transpose())
         return None
 
     def nipals_loop(self, X: Matrix, Y: Matrix) -> 'NipalsLoopResult':
-- 
2.43.0


From a98b14298af2397d1f74ef651ddfff8ccfaf6ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 20/22] fix: NIPALS iterates with the updated Y scores

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 5c1dc39..0b99c76 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -219,7 +219,7 @@ class NIPALS(AbstractMultiResponsePLS):
                 Y_weight = Y_weight.div(Y_weight.norm2() + eps)
 
             # 4) Calculate ykScores
-            Y_score: Matrix = Y.mul(Y_weight).div(Y_weight.norm2_squared() + eps)
+            y_score = Y.mul(Y_weight).div(Y_weight.norm2_squared() + eps)
 
             X_weight_diff: Matrix = X_weight.sub(X_weight_old)
 
-- 
2.43.0


From 4a76d656d6eb1144446849439297017639a14811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:31 +0000
Subject: [PATCH 21/22] fix: kernels recognise the automatic gamma after
 unpickling

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 6 ++++--
 src/wai/ma/transformation/kernel/_RBFKernel.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index dfa0dcb..90a1361 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -15,6 +15,8 @@
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from typing import Optional
 
+import numpy as np
+
 from ...core import ZERO, real, NAN, ONE
 from ...core.matrix import Matrix
 from ._AbstractKernel import AbstractKernel
@@ -40,7 +42,7 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        gamma: real = ONE / X.num_columns() if self.gamma is NAN else self.gamma
+        gamma: real = ONE / X.num_columns() if np.isnan(self.gamma) else self.gamma
         result: Matrix = X.mul(Y.transpose())
         result = result.mul(gamma)
         result = result.add(self.coef_0)
@@ -49,7 +51,7 @@ class PolyKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        gamma: real = ONE / x.num_columns() if self.gamma is NAN else self.gamma
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
         return pow(gamma * linear_term + self.coef_0, self.degree)
 
     def __str__(self):
diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index 9a484f2..8901443 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -13,7 +13,9 @@
 #
 #  You should have received a copy of the GNU General Public License
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from ...core import ONE, real, NAN
+import numpy as np
+
+from ...core import ONE, real
 from ...core.matrix import Matrix
 from ...core.utils import exp
 from ._AbstractKernel import AbstractKernel
@@ -33,7 +35,7 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        gamma: real = ONE / x.num_columns() if self.gamma is NAN else self.gamma
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
         return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
-- 
2.43.0


From 29b4993d96d2f7a1b933eb762a1d28b2d31648c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 22/22] fix: PolyKernel rejects an invalid degree instead of
 ignoring it

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index 90a1361..fc4dfae 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -36,7 +36,7 @@ class PolyKernel(AbstractKernel):
 
     def __setattr__(self, key, value):
         if key == 'degree' and value <= 0:
-            return
+            raise ValueError('degree must be at least 1')
         super().__setattr__(key, value)
 
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
-- 
2.43.0

