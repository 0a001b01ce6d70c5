From 2b8c82247d033eb58f2147a72472157c208c426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 01/30] fix: polytope module import glued to the licence
 comment (package did not import)

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 6b524a5..474c6c4 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -9,7 +9,8 @@
 #    TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NON-INFRINGEMENT. IN NO EVENT SHALL
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
-#    IN THE SOFTWARE.from typing import Set, List, Tuple
+#    IN THE SOFTWARE.
+from typing import Set, List, Tuple
 
 import numpy as np
 
-- 
2.43.0


From f980c397498559c409ba66450ccf0dbbd83a7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 02/30] fix: np.float no longer exists in numpy (categorical
 polytope, gaussian kernel diagonal)

---
 aideme/active_learning/dsm/polytope.py | 2 +-
 aideme/active_learning/kernel.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 474c6c4..e678928 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -226,7 +226,7 @@ class CategoricalPolytope(PolytopeBase):
             return np.full(len(X), fill_value=0.5)
 
         X = np.argmax(X, axis=1)
-        return np.fromiter((self._predict_single(x) for x in X), np.float)
+        return np.fromiter((self._predict_single(x) for x in X), float)
 
     def _predict_single(self, x: np.ndarray) -> float:
         if x in self._pos_classes:
diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 618870a..976f461 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -120,7 +120,7 @@ class GaussianKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
-        return np.ones(len(X), dtype=np.float)
+        return np.ones(len(X), dtype=float)
 
 
 class PolynomialKernel(Kernel):
-- 
2.43.0


From f9511d539d8652fae34df2d161e06c15e9f6440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 03/30] fix: move_to_unknown moved the row numbered like the
 index instead of the index's row

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index a81d7d0..220b2cb 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -110,7 +110,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             pos = self.__index_to_row[idx]
 
             if pos < self.__unknown_start:
-                self.__move_right(idx, to_unknown=True)
+                self.__move_right(pos, to_unknown=True)
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
-- 
2.43.0


From 60458e4ca430e1fc8aaa8e2c3b939680c2587f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 04/30] fix: moving a labeled point out of the labeled
 partition kept its label and misaligned the others

---
 aideme/explore/partitioned.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 220b2cb..663e780 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -129,6 +129,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             self.__swap_rows(pos, self.__inferred_start - 1)
             pos = self.__inferred_start - 1
             self.__inferred_start -= 1
+            self.__labeled_set = self.__labeled_set.get_index(self.labeled.index)
 
         if to_unknown and pos < self.__unknown_start:
             self.__swap_rows(pos, self.__unknown_start - 1)
-- 
2.43.0


From e6eb6c37f90302ddbfeb8873cbaa2be738f4074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 05/30] fix: ExplorationManager appended its own criterion to
 the caller's list (and failed on a tuple)

---
 aideme/explore/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/manager.py b/aideme/explore/manager.py
index 7558a28..5eeae77 100644
--- a/aideme/explore/manager.py
+++ b/aideme/explore/manager.py
@@ -59,7 +59,7 @@ class ExplorationManager:
         self.callbacks = process_callback(callback)
         self.callback_skip = callback_skip
 
-        self.convergence_criteria = process_callback(convergence_criteria)
+        self.convergence_criteria = list(process_callback(convergence_criteria))
         self.convergence_criteria.append(all_points_are_labeled)
 
         self.__iters = 0
-- 
2.43.0


From 258e2a65dbe0bd06044251fe77c6fbd5074e5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 06/30] fix: QueryByDisagreement crashed when fewer unlabeled
 points than background_sample_size remain

---
 aideme/active_learning/query_by_disagreement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index f20f68b..a5e32f6 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -38,12 +38,12 @@ class QueryByDisagreement(ActiveLearner):
         X_train = np.r_[X, background_points]
 
         sample_weights = np.ones(len(X_train))
-        sample_weights[-self._background_sample_size:] *= self._background_sample_weight
+        sample_weights[len(X):] *= self._background_sample_weight
 
-        y_train = np.r_[y, np.ones(self._background_sample_size)]
+        y_train = np.r_[y, np.ones(len(background_points))]
         self._positively_biased_learner.fit(X_train, y_train, sample_weights)
 
-        y_train[-self._background_sample_size:] = 0
+        y_train[len(X):] = 0
         self._negatively_biased_learner.fit(X_train, y_train, sample_weights)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From baece28f5dcd13b2d8e84100b88a2ea10aabb588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 07/30] fix: PolynomialKernel.diagonal was not the diagonal of
 the kernel matrix

---
 aideme/active_learning/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 976f461..e11d485 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -155,7 +155,8 @@ class PolynomialKernel(Kernel):
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
         sqsum = np.einsum('ir, ir -> i', X, X)
-        return (self.gamma * sqsum + self.coef0) ** (1 / self.degree)
+        gamma = 1 / X.shape[1] if self.gamma is None else self.gamma
+        return (gamma * sqsum + self.coef0) ** self.degree
 
 
 class IncrementedDiagonalKernel(Kernel):
-- 
2.43.0


From 9376dc604ecd9ade7e9ae440d5be4f2a5e78fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 08/30] fix: group penalties read uninitialised memory for rows
 of zero norm (true_divide with where but no out)

---
 aideme/active_learning/factorization/penalty.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index a2382d0..c7bb1df 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -89,20 +89,20 @@ class L2SqrtPenalty(PenaltyTerm):
         res = np.zeros_like(x)
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
-            factor = np.true_divide(self._penalty, norm, where=norm > 0)
+            factor = np.true_divide(self._penalty, norm, out=np.zeros_like(norm), where=norm > 0)
             res[:, g] = x[:, g] * factor.reshape(-1, 1)
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
         norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, where=norm > 0)  # avoid dividing by zero
+        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
         factor = np.maximum(0, 1 - factor)
         return x * factor.reshape(-1, 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
         not_zero = (norm > 0)
-        n = np.true_divide(x, norm, where=not_zero)  # avoid dividing by zero
+        n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
         u = np.linalg.norm(v - self._penalty * n, axis=1)
         u[~not_zero.ravel()] -= self._penalty
         return np.all(u <= tol)
@@ -156,7 +156,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
-        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
+        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
         if not self.l1_penalty.is_subgradient(n[not_zero], x[not_zero], tol):
             return False
 
-- 
2.43.0


From 486f71cce05ff18df4fe92e2438b0e6d8aad2ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 09/30] fix: L2SqrtPenalty.proximal ignored the feature groups
 its loss penalises

---
 aideme/active_learning/factorization/penalty.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index c7bb1df..bc524e9 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -94,10 +94,13 @@ class L2SqrtPenalty(PenaltyTerm):
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
-        norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
-        factor = np.maximum(0, 1 - factor)
-        return x * factor.reshape(-1, 1)
+        res = x.copy()
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1)
+            factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
+            factor = np.maximum(0, 1 - factor)
+            res[:, g] = x[:, g] * factor.reshape(-1, 1)
+        return res
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
-- 
2.43.0


From 85f2f74769ebabea6fc92fa5605a734a40d6ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 10/30] fix: LinearFactorizationLearner.copy() crashed with a
 proximal optimizer (penalty term not passed on)

---
 aideme/active_learning/factorization/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 3b5694a..2508069 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -79,8 +79,7 @@ class LinearFactorizationLearner:
         return 0 if self._weights is None else self._weights.shape[0]
 
     def copy(self) -> LinearFactorizationLearner:
-        learner = LinearFactorizationLearner(optimizer=self.optimizer, add_bias=self.add_bias)
-        learner.penalty_term = self.penalty_term
+        learner = LinearFactorizationLearner(optimizer=self.optimizer, penalty_term=self.penalty_term, add_bias=self.add_bias)
 
         learner._weights = self.weights
         if self.add_bias:
-- 
2.43.0


From a5a6d3744c4638e0ef62c657d4cf464be91df54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 11/30] fix: prune_irrelevant_subspaces crashed for learners
 without bias

---
 aideme/active_learning/factorization/learn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 49f1073..962b0c7 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -38,7 +38,8 @@ def prune_irrelevant_subspaces(X: np.ndarray, learner: LinearFactorizationLearne
 
     pruned_learner = learner.copy()
     pruned_learner._weights = learner._weights[relevant_rows]
-    pruned_learner._bias = learner._bias[relevant_rows]
+    if learner.add_bias:
+        pruned_learner._bias = learner._bias[relevant_rows]
 
     return pruned_learner
 
-- 
2.43.0


From 1f945ad90cfeb288584d5da5b4ebee2cb40bcc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 12/30] fix: polytope forgot negative points labeled before any
 positive one

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index e678928..b19e024 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -101,7 +101,8 @@ class Polytope(PolytopeBase):
     def __update_negative(self, X: np.ndarray) -> None:
         for x in X:
             cone = NegativeCone(x, self.positive_region._tol)
-            cone.add_points_to_hull(self.positive_region.vertices)
+            if self.positive_region.vertices is not None:
+                cone.add_points_to_hull(self.positive_region.vertices)
             self.negative_region.append(cone)
 
 
-- 
2.43.0


From 28a56df144bb583eb7c09ab7951ca0138848fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 13/30] fix: PersistentPolytope did not give the batch that
 invalidates one polytope to the other

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index b19e024..fdd6345 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -187,7 +187,8 @@ class PersistentPolytope(PolytopeBase):
             raise RuntimeError("Attempting to update invalid polytope.")
 
         if self._pol.is_valid and self._flipped.is_valid:
-            return self._pol.update(X, y) and self._flipped.update(X, y)
+            is_success = self._pol.update(X, y)
+            return self._flipped.update(X, y) and is_success
 
         if self._pol.is_valid:
             return self._pol.update(X, y)
-- 
2.43.0


From 418e85383faada5f44ac4f40429dda21972bb453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 14/30] fix: FactorizedPolytopeModel stopped updating subspaces
 after the first conflicting one

---
 aideme/active_learning/dsm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 961fbf9..bdb7265 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -96,7 +96,7 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         if not self.is_valid:
             raise RuntimeError("Cannot update invalid polytope.")
 
-        return all(pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements())
+        return all([pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements()])
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         val = 1.0 if self.is_all_valid else 0.5
-- 
2.43.0


From b31c294469397a3c61c6887396c8f0677800718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 15/30] fix: MultiSetPolytope accepted a negative point all of
 whose items are positive

---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index fdd6345..aa1a411 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -333,6 +333,9 @@ class MultiSetPolytope(PolytopeBase):
             return self.__update_positive_set(idx)
 
         idx -= self._pos_indexes
+        if not idx:
+            return False
+
         if len(idx) == 1:
             return self.__update_negative_set(idx)
 
-- 
2.43.0


From 407d97a9222d4c999cd29f52c656ef3a09b1eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 16/30] fix: command line accepted labels other than 0 and 1
 (e.g. 10)

---
 aideme/explore/command_line_explore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 73b45a2..995855a 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -82,7 +82,7 @@ class CommandLineExploration:
         s = input("Give the labels for the following points: {}\n".format(pts.tolist()))
         expected_size = len(pts)
 
-        if not set(s).issubset({' ', '0', '1'}):
+        if not set(s.split(' ')).issubset({'', '0', '1'}):
             print("Invalid character in labels. Only 0, 1 and ' ' are permitted.\n")
             return False, None
 
-- 
2.43.0


From 1fc86aa41edc289f5789947910ff63fb6a604162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 17/30] fix: full-factorization switch permuted the subspaces
 by the inverse of the required permutation

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index de71e14..a6dba8e 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -253,7 +253,7 @@ class FactorizationManager:
             if i not in mapping:  # subspace is not compatible with any user subspace
                 return False
 
-        self.fact_reindexing = [mapping[i] for i in range(len(mapping))]
+        self.fact_reindexing = [inv_mapping[i] for i in range(len(mapping))]
 
         return True
 
-- 
2.43.0


From 634bfc8e67a59d5f9b7c16be0cda73a6d9667a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:26 +0000
Subject: [PATCH 18/30] fix: dual-space model kept outdated labels of cached
 points after a polytope conflict

---
 aideme/active_learning/dsm/base.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/dsm/base.py b/aideme/active_learning/dsm/base.py
index 1379c0e..9abf154 100644
--- a/aideme/active_learning/dsm/base.py
+++ b/aideme/active_learning/dsm/base.py
@@ -67,10 +67,11 @@ class DualSpaceModelBase(ActiveLearner):
         if self._dsm_labeled_cache.is_empty:
             return
 
-        is_known = self.polytope_model.predict(self._dsm_labeled_cache.X) != 0.5
+        pred = self.polytope_model.predict(self._dsm_labeled_cache.X)
 
-        if not np.all(is_known):
-            self._dsm_labeled_cache.filter(is_known)
+        if not np.array_equal(pred, self._dsm_labeled_cache.y):
+            self._dsm_labeled_cache.relabel(pred)
+            self._dsm_labeled_cache.filter(pred != 0.5)
             self.__fit_active_learner(data)  # retrain AL since labeled changed
 
     def predict(self, X: np.ndarray) -> np.ndarray:
@@ -163,6 +164,13 @@ class TrainingSetCache:
         """
         return np.vstack(self._X)
 
+    @property
+    def y(self) -> np.ndarray:
+        """
+        :return: the labels of the training data as numpy array
+        """
+        return np.asarray(self._y)
+
     def clear(self) -> None:
         """
         Empties the cache
@@ -186,6 +194,13 @@ class TrainingSetCache:
         self._X.extend(X)
         self._y.extend(y)
 
+    def relabel(self, y: Sequence[float]) -> None:
+        """
+        Replaces the labels of the cached data
+        :param y: new labels, one for each cached data point
+        """
+        self._y = list(y)
+
     def filter(self, mask: Sequence[bool]) -> None:
         """
         Filters the cache elements with the given mask sequence
-- 
2.43.0


From 11454d87757048df2942fe03227be266f2219e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 19/30] fix: validators accepted NaN

---
 aideme/utils/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 31d3539..37fbdfd 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -14,7 +14,7 @@
 import math
 
 def assert_in_range(value, name, low, high):
-    if value < low or value > high:
+    if not low <= value <= high:
         raise ValueError("Expected {} < {} < {}, but got {}".format(low, name, high, value))
 
 def assert_positive(value, name, allow_inf=False, allow_none=False):
@@ -45,7 +45,7 @@ def __assert_non_negative(type, value, name, allow_inf=False, allow_none=False):
             raise ValueError("{} cannot be infinity.".format(name))
         return
 
-    if not isinstance(value, type) or value < 0:
+    if not isinstance(value, type) or not value >= 0:
         raise ValueError("'{}' must be a positive, got {}".format(name, value))
 
 def process_callback(callback):
-- 
2.43.0


From 923a4d85f99e0eb33fbbb588d942da545ad8673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 20/30] fix: FactorizedKernelTransform sized its output before
 its parts were fitted

---
 aideme/active_learning/kernel.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index e11d485..98dfc87 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -297,13 +297,10 @@ class FactorizedKernelTransform(KernelTransformer):
             transformer.fit(X[:, subspace])
 
     def transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.transform(X[:, subspace])
-        return K
+        Ks = [transformer.transform(X[:, subspace]) for transformer, subspace in zip(self._transformers, self._factorization)]
+        return np.ascontiguousarray(np.stack(Ks, axis=2))
 
     def fit_transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.fit_transform(X[:, subspace])
-        return K
+        # the number of components of each part is only known once it has been fitted
+        Ks = [transformer.fit_transform(X[:, subspace]) for transformer, subspace in zip(self._transformers, self._factorization)]
+        return np.ascontiguousarray(np.stack(Ks, axis=2))
-- 
2.43.0


From a15f3177d5ff3f3b40ea1cc4c5da55a24569e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:32 +0000
Subject: [PATCH 21/30] fix: Laplace posterior variance solved with the upper
 Cholesky factor as if it were the lower one

---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 010c971..05f4d3b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -92,7 +92,7 @@ class LaplaceBayesianLogisticRegressionBase:
         self._mean = self._compute_map_estimator(X, y)
 
         H = self._compute_hessian(X, self._mean)
-        self._L = cholesky(H)
+        self._L = cholesky(H, lower=True)
 
     def _compute_map_estimator(self, X, y):
         raise NotImplementedError
-- 
2.43.0


From 47609bea8ccf1a15492af3bf28c13ee0c744a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 22/30] fix: refine_step_size of one SimplifiedSwapLearner
 changed the default step size of all later ones

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index a6dba8e..5d3f8d7 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -298,7 +298,7 @@ class SimplifiedSwapLearner(SwapLearner):
         else:
             params = self.REFINE_CARS if cars else self.REFINE_DEFAULT_PARAMS
         if refine_step_size:
-            params['step_size'] = refine_step_size
+            params = {**params, 'step_size': refine_step_size}  # do not modify the defaults shared by all learners
 
         refined_model_optimizer = self.get_optimizer(use_fista=use_fista, max_iter=refine_max_iter, **params)
         penalty_term = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty, groups=one_hot_groups)
-- 
2.43.0


From e1351c35850d18818f942dc687edf86d9b9de782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 23/30] fix: LinearFactorizationLearner could not be built with
 a proximal optimizer (add_bias read before it was set)

---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 2508069..7cd6d71 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -27,8 +27,8 @@ if TYPE_CHECKING:
 class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self.add_bias = add_bias
+        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self._weights = None
         self._bias = None
 
-- 
2.43.0


From 00f29414800b38a1dcf84c6d6514a95554a3ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 24/30] fix: L2Penalty's convergence test ignored the penalty
 under a proximal optimizer (its grad attribute is replaced there)

---
 aideme/active_learning/factorization/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index bc524e9..df904cd 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -178,7 +178,7 @@ class L2Penalty(PenaltyTerm):
         return x / (2 * eta * self._penalty + 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        return np.linalg.norm(self.grad(x) - v) <= tol
+        return np.linalg.norm(2 * self._penalty * x - v) <= tol  # self.grad is replaced when a proximal optimizer is used
 
 
 class InteractionPenalty(PenaltyTerm):
-- 
2.43.0


From 6f4490c836f6a51da3d7d171e4bc1e828a90f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 25/30] fix: convergence test of the group penalties ignored
 their groups (zero weights were accepted as optimal)

---
 .../active_learning/factorization/penalty.py  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index df904cd..57649be 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -103,12 +103,15 @@ class L2SqrtPenalty(PenaltyTerm):
         return res
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
-        not_zero = (norm > 0)
-        n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
-        u = np.linalg.norm(v - self._penalty * n, axis=1)
-        u[~not_zero.ravel()] -= self._penalty
-        return np.all(u <= tol)
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1).reshape(-1, 1)
+            not_zero = (norm > 0)
+            n = np.true_divide(x[:, g], norm, out=np.zeros_like(x[:, g]), where=not_zero)  # avoid dividing by zero
+            u = np.linalg.norm(v[:, g] - self._penalty * n, axis=1)
+            u[~not_zero.ravel()] -= self._penalty
+            if np.any(u > tol):
+                return False
+        return True
 
 
 class SparseGroupLassoPenalty(PenaltyTerm):
@@ -156,7 +159,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         return self.l2_sqrt_penalty.proximal(self.l1_penalty.proximal(x, eta), eta)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
+        lamb2 = self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
         n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
@@ -164,7 +167,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
             return False
 
         v = v[~not_zero]
-        return np.all(np.linalg.norm(v - np.clip(v, -lamb1, lamb1), axis=1) <= lamb2 + tol)
+        return np.all(np.linalg.norm(self.l1_penalty.proximal(v, 1), axis=1) <= lamb2 + tol)
 
 
 class L2Penalty(PenaltyTerm):
-- 
2.43.0


From e7e82052dd42b8082adccf32de21945fc2d481ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 26/30] fix: BFGS rejected the matrix starting points of the
 factorization learner

---
 aideme/active_learning/factorization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/optimization.py b/aideme/active_learning/factorization/optimization.py
index e3eefc7..9070715 100644
--- a/aideme/active_learning/factorization/optimization.py
+++ b/aideme/active_learning/factorization/optimization.py
@@ -98,7 +98,7 @@ class OptimizationAlgorithm:
 class BFGS(OptimizationAlgorithm):
     def minimize(self, x0: np.ndarray, func: Callable, grad: Union[bool, Callable]) -> OptimizeResult:
         jac = lambda x: grad(x).ravel()
-        return minimize(func, x0, jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
+        return minimize(func, x0.ravel(), jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
 
 
 class SearchDirectionOptimizer(OptimizationAlgorithm):
-- 
2.43.0


From 2d7aafb26997438419048b2fc3da91a5b65ab457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 27/30] fix: RatioMargin.rank read classes_ of an unfitted
 clone (it always crashed)

---
 aideme/active_learning/margin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/margin.py b/aideme/active_learning/margin.py
index a522958..215a4bb 100644
--- a/aideme/active_learning/margin.py
+++ b/aideme/active_learning/margin.py
@@ -74,8 +74,8 @@ class RatioMargin(SimpleMargin):
         return -np.array([self.__compute_margin_ratio(clf, x) for x in X])
 
     def __compute_margin_ratio(self, clf, x):
-        margin0 = self.__compute_margin(clf, x, clf.classes_[0])
-        margin1 = self.__compute_margin(clf, x, clf.classes_[1])
+        margin0 = self.__compute_margin(clf, x, self.clf.classes_[0])
+        margin1 = self.__compute_margin(clf, x, self.clf.classes_[1])
 
         if margin0 <= 0 or margin1 <= 0:
             return float('inf')
-- 
2.43.0


From 62e26557991b18ca88854d3512257095a8b1cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:15 +0000
Subject: [PATCH 28/30] fix: labels are not lost when the first points of a
 convex polytope lie on a hyperplane

scipy's QhullError was swallowed by 'finally: return' after the positive points had been cached: the negative
points of the batch and the updates of the cones were dropped and success was reported. The points are now kept
until the hull can be built, and only a ConvexError makes a polytope invalid.
---
 aideme/active_learning/dsm/convex/convex.py   |  5 +++++
 aideme/active_learning/dsm/convex/geometry.py | 12 +++++++++---
 aideme/active_learning/dsm/polytope.py        |  3 +--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 27d437b..a16ad63 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -14,6 +14,11 @@
 import numpy as np
 import scipy.spatial
 
+try:
+    from scipy.spatial import QhullError
+except ImportError:  # scipy < 1.8
+    from scipy.spatial.qhull import QhullError
+
 from aideme.utils import assert_positive
 
 
diff --git a/aideme/active_learning/dsm/convex/geometry.py b/aideme/active_learning/dsm/convex/geometry.py
index 9ba6f6f..d52a390 100644
--- a/aideme/active_learning/dsm/convex/geometry.py
+++ b/aideme/active_learning/dsm/convex/geometry.py
@@ -13,7 +13,7 @@
 import numpy as np
 
 from aideme.utils import assert_positive
-from .convex import ConvexHull, ConvexCone
+from .convex import ConvexHull, ConvexCone, QhullError
 from .one_dim_convex import OneDimensionalConvexHull, OneDimensionalConvexCone
 
 
@@ -51,7 +51,10 @@ class PositiveRegion:
         self._cache.update(pos_points)
 
         if self._cache.size > self._cache.dim:
-            self._hull = self.__build_convex_hull()
+            try:
+                self._hull = self.__build_convex_hull()
+            except QhullError:  # all points lie on a hyperplane: wait for more points
+                return
             self._cache.clear()
 
     def __build_convex_hull(self):
@@ -97,7 +100,10 @@ class NegativeCone:
         self._cache.update(points)
 
         if self._cache.size >= self._cache.dim:
-            self._cone = self.__build_convex_cone()
+            try:
+                self._cone = self.__build_convex_cone()
+            except QhullError:  # vertex and points lie on a hyperplane: wait for more points
+                return
             self._cache.clear()
 
     def __build_convex_cone(self):
diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index aa1a411..90089dd 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -88,8 +88,7 @@ class Polytope(PolytopeBase):
         except ConvexError:
             self.__is_valid = False
 
-        finally:
-            return self.__is_valid
+        return self.__is_valid
 
     def __update_positive(self, X: np.ndarray) -> None:
         if len(X) > 0:
-- 
2.43.0


From be9dfccfa5573c2cdb40695cf6430dc382517298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 29/30] fix: a convex polytope is invalid when a positive
 vertex is labeled negative too

Qhull drops all but one of several equal points, so the vertex of the cone was still found on the hull.
---
 aideme/active_learning/dsm/convex/convex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index a16ad63..678f7c1 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -107,7 +107,10 @@ class ConvexCone:
     def __update_cone_equations(self):
         self.equations = self.convex_hull.equations_defining_vertex(0)
 
-        if len(self.equations) == 0:
+        # Qhull keeps one of several equal points as a vertex, so a positive point equal to the vertex must be looked for
+        points = self.convex_hull.hull.points[1:]
+
+        if len(self.equations) == 0 or (points == self.vertex).all(axis=1).any():
             raise ConvexError
 
     def is_inside(self, points):
-- 
2.43.0


From e2bae69acd44ab108007998309530c2825be774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:19 +0000
Subject: [PATCH 30/30] fix: a pickled convex cone keeps its vertex

Only the vertices of the hull are pickled, in Qhull's order; the restored cone took the equations through the
first of them, whichever it was, as its own at the next update.
---
 aideme/active_learning/dsm/convex/convex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 678f7c1..4130952 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -38,7 +38,7 @@ class ConvexHull:
         of "vertices" composing the convex hull.
         """
         return {
-            'vertices': self.vertices,
+            'vertices': self.hull.points[np.sort(self.hull.vertices)],  # same order as before: cones rely on it
             'tol': self.tol
         }
 
-- 
2.43.0

