From 69d32c015e91bf9a125d17fa24ccbcd4a140b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 01/29] fix: do not overflow or exceed the bounds when folding
 two-sided bounded free values

exp(x) / (1 + exp(x)) is nan for large x, and (ub - lb) * ratio + lb can round
to a value above ub, so some finite free vectors folded to invalid values.
---
 paragami/numeric_array_patterns.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 83ea445..92aa3d2 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -72,7 +72,10 @@ def _constrain_array_jacobian(free_array, lb, ub):
         else:
             # d/dx exp(x) / (1 + exp(x)) =
             #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2
-            exp_vec = np.exp(free_array)
+            # This is symmetric in the sign of x, so take the sign for which
+            # exp(x) cannot overflow.
+            exp_vec = np.exp(
+                np.where(free_array >= 0, -1 * free_array, free_array))
             ratio = exp_vec / (1 + exp_vec)
             return (ub - lb) * ratio * (1 - ratio)
 
@@ -107,8 +110,12 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # Measure the distance from the nearer bound so that the exponential
+            # cannot overflow and the result cannot be rounded out of bounds.
+            is_upper = free_array >= 0
+            exp_vec = np.exp(np.where(is_upper, -1 * free_array, free_array))
+            bound_dist = (ub - lb) * exp_vec / (1 + exp_vec)
+            return np.where(is_upper, ub - bound_dist, lb + bound_dist)
 
 
 class NumericArrayPattern(Pattern):
-- 
2.43.0


From 44c71edf4b0243423ab6738f1ee4d529db5246cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 02/29] fix: folding large free simplex values gives values
 that sum to one

Subtracting a large log normalizer rounds in absolute terms, so the folded
value could fail the sum-to-one validation of its own pattern.
---
 paragami/simplex_patterns.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 78ca980..0662b61 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -29,11 +29,12 @@ def _constrain_simplex_matrix(free_mat):
     reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)
     free_mat_aug = np.concatenate([reference_col, free_mat], axis=-1)
 
-    # Note that autograd needs to update their logsumexp to be in special
-    # not misc before this can be changed.  Furthermore, logsumexp is
-    # not even available in the pypi version of autograd.
-    log_norm = logsumexp(free_mat_aug, axis=-1)
-    return np.exp(free_mat_aug - log_norm)
+    # Normalize after exponentiating.  Subtracting the log of the normalizer
+    # first loses precision for large free values, so that the result would
+    # not sum to one.
+    mat_max = np.max(free_mat_aug, axis=-1, keepdims=True)
+    exp_mat = np.exp(free_mat_aug - mat_max)
+    return exp_mat / np.sum(exp_mat, axis=-1, keepdims=True)
 
 
 def _constrain_simplex_jacobian(simplex_vec):
-- 
2.43.0


From e2087fc1ea2671e4141c0b306f39f890f063cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 03/29] fix: validate_folded reports a wrong shape instead of
 raising

The simplex and PSD patterns raised ValueError from validate_folded, which is
documented to return whether the shape and value are allowable.
---
 paragami/psdmatrix_patterns.py | 2 +-
 paragami/simplex_patterns.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 43affc4..db2c3ad 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -272,7 +272,7 @@ class PSDSymmetricMatrixPattern(Pattern):
         """
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
 
         if validate_value is None:
             validate_value = self.default_validate
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 0662b61..56aae4b 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -148,7 +148,7 @@ class SimplexArrayPattern(Pattern):
     def validate_folded(self, folded_val, validate_value=None):
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
-- 
2.43.0


From 49ef922e5b52cf5191efb6ab7e4cf36bb4454902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 04/29] fix: keep free_default in the JSON form and equality of
 all patterns

Only the numeric patterns recorded free_default, so a PSD, simplex, dict or
array pattern lost it in a JSON round trip while still comparing equal.
---
 paragami/pattern_containers.py | 11 +++++++----
 paragami/psdmatrix_patterns.py |  3 ++-
 paragami/simplex_patterns.py   |  6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 20c06c0..8954a25 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -206,7 +206,8 @@ class PatternDict(Pattern):
         return {
             'pattern': self.json_typename(),
             'keys': keys,
-            'contents': contents}
+            'contents': contents,
+            'free_default': self.free_default}
 
     def _check_lock(self):
         if self.__lock:
@@ -376,7 +377,7 @@ class PatternDict(Pattern):
                  'pattern type was {}.').format(
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
-        pattern_dict = cls()
+        pattern_dict = cls(free_default=json_dict.get('free_default'))
         for pattern_name in json_dict['keys']:
             pattern_dict[pattern_name] = get_pattern_from_json(
                 json_dict['contents'][pattern_name])
@@ -487,7 +488,8 @@ class PatternArray(Pattern):
             'pattern': self.json_typename(),
             'shape': self.__shape,
             'array_shape': self.__array_shape,
-            'base_pattern': self.__base_pattern.to_json() }
+            'base_pattern': self.__base_pattern.to_json(),
+            'free_default': self.free_default }
 
     def array_shape(self):
         """The shape of the array of parameters.
@@ -639,7 +641,8 @@ class PatternArray(Pattern):
             raise ValueError(error_string)
         base_pattern = get_pattern_from_json(json_dict['base_pattern'])
         return cls(
-            array_shape=json_dict['array_shape'], base_pattern=base_pattern)
+            array_shape=json_dict['array_shape'], base_pattern=base_pattern,
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         free = self._free_with_default(free)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index db2c3ad..45a1efa 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -212,7 +212,8 @@ class PSDSymmetricMatrixPattern(Pattern):
             'pattern': self.json_typename(),
             'size': self.__size,
             'diag_lb': self.__diag_lb,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def size(self):
         """Returns the matrix size.
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 56aae4b..3c8048f 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -131,7 +131,8 @@ class SimplexArrayPattern(Pattern):
             'pattern': self.json_typename(),
             'simplex_size': self.__simplex_size,
             'array_shape': self.__array_shape,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def empty(self, valid):
         if valid:
@@ -220,7 +221,8 @@ class SimplexArrayPattern(Pattern):
         return cls(
             simplex_size=json_dict['simplex_size'],
             array_shape=tuple(json_dict['array_shape']),
-            default_validate=json_dict['default_validate'])
+            default_validate=json_dict['default_validate'],
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         # If no indices are specified, save time and return an empty array.
-- 
2.43.0


From bcefa98ff8ec40b99aa64d68223211585a9d17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 05/29] fix: SimplexArrayPattern.fold only accepts a 1d vector,
 as the other patterns do

---
 paragami/simplex_patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 3c8048f..c197819 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -163,6 +163,9 @@ class SimplexArrayPattern(Pattern):
     def fold(self, flat_val, free=None, validate_value=None):
         free = self._free_with_default(free)
         flat_size = self.flat_length(free)
+        flat_val = np.atleast_1d(flat_val)
+        if flat_val.ndim != 1:
+            raise ValueError('The argument to fold must be a 1d vector.')
         if len(flat_val) != flat_size:
             raise ValueError('flat_val is the wrong length.')
         if free:
-- 
2.43.0


From ae4fd451084cafd1166bae316bc3353692289003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 06/29] fix: dense simplex Jacobians are arrays rather than
 matrices

---
 paragami/simplex_patterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index c197819..ea83628 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -199,7 +199,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         array_ranges = [ range(i) for i in self.__array_shape ]
@@ -212,7 +212,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     @classmethod
     def from_json(cls, json_string):
-- 
2.43.0


From 6e912526131df5a8c32cc3b887760e578cf69f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 07/29] fix: the optimization log keeps the argument as it was
 when it was logged

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ea2a538..d82c301 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -458,7 +458,8 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, x, f_val))
+        # Optimizers may update x in place, so do not log a reference to it.
+        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From 34595f5e6cce9e64df6cde75e4bbc607ed459fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 08/29] fix: truncating integer eigenvalues does not round the
 limits

---
 paragami/optimization_lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index d82c301..1abf08f 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -31,7 +31,9 @@ def truncate_eigenvalues(evals, ev_min=None, ev_max=None):
     eig_val_trunc
         A truncated version of ``evals``.
     """
-    eig_val_trunc = copy.deepcopy(evals)
+    # Use a floating point copy so that the limits are not rounded when evals
+    # is an array of integers.
+    eig_val_trunc = np.array(evals, dtype=np.result_type(evals, float))
     if not ev_min is None:
         if not np.isreal(ev_min):
             raise ValueError('ev_min must be real-valued.')
-- 
2.43.0


From 9755cf5aa819104614ced311868502778203722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 09/29] fix: fold never returns a reference to the flat value

---
 paragami/numeric_array_patterns.py | 3 ++-
 paragami/psdmatrix_patterns.py     | 5 ++++-
 paragami/simplex_patterns.py       | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 92aa3d2..715a8cd 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -234,7 +234,8 @@ class NumericArrayPattern(Pattern):
                 _constrain_array(flat_val, self._lb, self._ub)
             return constrained_array.reshape(self._shape)
         else:
-            folded_val = flat_val.reshape(self._shape)
+            # For consistent behavior, never return a reference.
+            folded_val = copy.copy(flat_val).reshape(self._shape)
             valid, msg = self.validate_folded(folded_val, validate_value)
             if not valid:
                 raise ValueError(msg)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 45a1efa..f2ff459 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -3,6 +3,7 @@ from .pattern_containers import register_pattern_json
 
 import autograd.numpy as np
 
+import copy
 import math
 
 from autograd.core import primitive, defvjp, defjvp
@@ -310,7 +311,9 @@ class PSDSymmetricMatrixPattern(Pattern):
         if free:
             return _unpack_posdef_matrix(flat_val, diag_lb=self.__diag_lb)
         else:
-            folded_val = np.reshape(flat_val, (self.__size, self.__size))
+            # For consistent behavior, never return a reference.
+            folded_val = np.reshape(
+                copy.copy(flat_val), (self.__size, self.__size))
             valid, msg = self.validate_folded(folded_val, validate_value)
             if not valid:
                 raise ValueError(msg)
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index ea83628..17419ae 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -6,6 +6,7 @@ import autograd.numpy as np
 import autograd.scipy as sp
 from scipy.sparse import coo_matrix, block_diag
 
+import copy
 import itertools
 
 import json
@@ -172,7 +173,8 @@ class SimplexArrayPattern(Pattern):
             free_mat = np.reshape(flat_val, self.__free_shape)
             return _constrain_simplex_matrix(free_mat)
         else:
-            folded_val = np.reshape(flat_val, self.__shape)
+            # For consistent behavior, never return a reference.
+            folded_val = np.reshape(copy.copy(flat_val), self.__shape)
             valid, msg = self.validate_folded(folded_val, validate_value)
             if not valid:
                 raise ValueError(msg)
-- 
2.43.0


From af5b110f88faa1ec828a29e1a60cd31e2b3bb435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 10/29] fix: an empty PatternDict has integer length zero and
 can be flattened

---
 paragami/pattern_containers.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 8954a25..1caf266 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -318,13 +318,17 @@ class PatternDict(Pattern):
                     free=free,
                     validate_value=validate_value))
             #offset += pattern_flat_length
+        if len(flat_vals) == 0:
+            # The dictionary is empty.
+            return np.array([])
         return np.hstack(flat_vals)
 
     def _update_flat_length(self, free):
         # This is a little wasteful with the benefit of being less error-prone
         # than adding and subtracting lengths as keys are changed.
-        return np.sum([pattern.flat_length(free) for pattern_name, pattern in
-                       self.__pattern_dict.items()])
+        return int(np.sum([
+            pattern.flat_length(free) for pattern_name, pattern in
+            self.__pattern_dict.items()]))
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         jacobians = []
@@ -333,7 +337,11 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
-        sp_jac = block_diag(jacobians, format='coo')
+        if len(jacobians) > 0:
+            sp_jac = block_diag(jacobians, format='coo')
+        else:
+            # The dictionary is empty.
+            sp_jac = coo_matrix((0, 0))
 
         if sparse:
             return sp_jac
@@ -347,7 +355,11 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
-        sp_jac = block_diag(jacobians, format='coo')
+        if len(jacobians) > 0:
+            sp_jac = block_diag(jacobians, format='coo')
+        else:
+            # The dictionary is empty.
+            sp_jac = coo_matrix((0, 0))
         if sparse:
             return sp_jac
         else:
@@ -414,6 +426,9 @@ class PatternDict(Pattern):
             pattern_flat_names = \
                 [ pattern_name + delim + t for t in pattern_flat_names]
             flat_names_list.append(pattern_flat_names)
+        if len(flat_names_list) == 0:
+            # The dictionary is empty.
+            return np.array([], dtype=str)
         return np.hstack(flat_names_list)
 
 
-- 
2.43.0


From 8d5a2c4d88dad4ce86615a587de0ad61b28b4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 11/29] fix: PatternArray has an integer length when the array
 shape is empty

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 1caf266..65c9575 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -464,7 +464,7 @@ class PatternArray(Pattern):
         self.__array_shape = tuple(array_shape)
         self.__array_ranges = [range(0, t) for t in self.__array_shape]
 
-        num_elements = np.prod(self.__array_shape)
+        num_elements = int(np.prod(self.__array_shape))
         self.__base_pattern = base_pattern
 
         # Check whether the base_pattern takes values that are numpy arrays.
-- 
2.43.0


From 333a813fc88168aa491ce1dfc88cef8f7a59b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 12/29] fix: PatternDict.flat_names uses the free default of
 the dictionary

---
 paragami/pattern_containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 65c9575..6c2d517 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -419,6 +419,7 @@ class PatternDict(Pattern):
             return np.array([], dtype=int)
 
     def flat_names(self, free, delim='_'):
+        free = self._free_with_default(free)
         flat_names_list = []
         for pattern_name, pattern in self.__pattern_dict.items():
             pattern_flat_names = pattern.flat_names(free)
-- 
2.43.0


From 90ec1348499c16e3bafa3a7f8f1a9e43db84d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 13/29] fix: the diagonal of a free matrix is not rounded by
 adding and subtracting it

---
 paragami/psdmatrix_patterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index f2ff459..3e1f59b 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -127,7 +127,7 @@ def _exp_matrix_diagonal(mat):
     mat_exp_diag = np.make_diagonal(
         np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
     mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_exp_diag + mat - mat_diag
+    return mat_exp_diag + (mat - mat_diag)
 
 
 def _log_matrix_diagonal(mat):
@@ -136,7 +136,7 @@ def _log_matrix_diagonal(mat):
     mat_log_diag = np.make_diagonal(
         np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
     mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_log_diag + mat - mat_diag
+    return mat_log_diag + (mat - mat_diag)
 
 
 def _pack_posdef_matrix(mat, diag_lb=0.0):
-- 
2.43.0


From 381cfe6b40229066cdc2639a317b21ad21923c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:50 +0000
Subject: [PATCH 14/29] fix: missing return values raise ValueError for
 functions without a name

---
 paragami/function_patterns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paragami/function_patterns.py b/paragami/function_patterns.py
index c10a421..0badee7 100644
--- a/paragami/function_patterns.py
+++ b/paragami/function_patterns.py
@@ -222,7 +222,8 @@ class TransformFunctionOutput:
             if not self._retnums == [0]:
                 err_msg = ('{} returned only one value, but multiple' +
                            'retnums were specified: {}'.format(
-                            self._fun.__name__, self._retnums))
+                            getattr(self._fun, '__name__', self._fun),
+                            self._retnums))
                 raise ValueError(err_msg)
             if self._original_is_flat:
                 return self._patterns[0].fold(rets, free=self.free[0])
@@ -237,7 +238,7 @@ class TransformFunctionOutput:
             if len(rets) <= retnum:
                 err_msg = ('Not enough return values in {} ({}) for' +
                            'specified retnums {}.'.format(
-                            self._fun.__name__,
+                            getattr(self._fun, '__name__', self._fun),
                             len(rets),
                             self._retnums))
                 raise ValueError(err_msg)
-- 
2.43.0


From 24d41c9685ff70b8dcc6112a7293746b3d2bf29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 15/29] fix: dictionaries of a subclass of PatternDict are
 locked when they become members

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 6c2d517..1b14b63 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -226,7 +226,7 @@ class PatternDict(Pattern):
         # since we have no way of updating the parent dictionary's size.
         # To avoid unexpected errors, lock any dictionary that is set as
         # a member.
-        if type(self.__pattern_dict[pattern_name]) is PatternDict:
+        if isinstance(self.__pattern_dict[pattern_name], PatternDict):
             self.__pattern_dict[pattern_name].lock()
 
         self._free_flat_length = self._update_flat_length(free=True)
-- 
2.43.0


From 388914b88fa13e3a23ba4c115488b44dc448d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 16/29] fix: refuse members of a PatternDict that are not
 patterns before storing them

---
 paragami/pattern_containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 1b14b63..ac65340 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -216,6 +216,8 @@ class PatternDict(Pattern):
 
     def __setitem__(self, pattern_name, pattern):
         self._check_lock()
+        if not isinstance(pattern, Pattern):
+            raise ValueError('The values of the dictionary must be patterns.')
         # if pattern_name in self.__pattern_dict.keys():
         #     self.__delitem__(pattern_name)
 
-- 
2.43.0


From 3003a185b9ad29d09396f732f365fc3ca4c49eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 17/29] fix: one by one sparse preconditioners without a given
 inverse

---
 paragami/optimization_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 1abf08f..89ccd17 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -202,6 +202,9 @@ class PreconditionedFunction():
         if osp.sparse.issparse(a):
             if a_inv is None:
                 a_inv = osp.sparse.linalg.inv(a)
+                if not osp.sparse.issparse(a_inv):
+                    # The inverse of a 1 x 1 matrix is returned as an array.
+                    a_inv = osp.sparse.csc_matrix(np.reshape(a_inv, a.shape))
             a_times, _ = get_sparse_product(a)
             a_inv_times, _ = get_sparse_product(a_inv)
             self.set_preconditioner_functions(a_times, a_inv_times)
-- 
2.43.0


From 32ea344a918b0ec4744a2572565015461f848833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:10 +0000
Subject: [PATCH 18/29] fix: reverse derivatives of grouped sums whose groups
 are a tuple, booleans or floats

---
 paragami/autograd_supplement_lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 75d47fe..86d0a9a 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -225,6 +225,8 @@ def grouped_sum(x, groups, num_groups=None):
     return result
 
 def _ungroup(v, groups):
+    # Index by the same integers that grouped_sum uses.
+    groups = np.array(groups).astype('int64')
     if v.ndim > 1:
         return v[groups, :]
     else:
-- 
2.43.0


From 234fed28c3b5106cda8b6a0b74c6365810963a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 19/29] fix: export Pattern, the base class of custom patterns,
 as paragami.Pattern

---
 paragami/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paragami/__init__.py b/paragami/__init__.py
index 9a34bbe..cac4c61 100644
--- a/paragami/__init__.py
+++ b/paragami/__init__.py
@@ -1,3 +1,4 @@
+from paragami.base_patterns import Pattern
 from paragami.pattern_containers import \
     PatternDict, PatternArray, \
     register_pattern_json, get_pattern_from_json, save_folded, load_folded
-- 
2.43.0


From cbe0e0ec2a3949f3c81179069e8b7799805f10c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:49 +0000
Subject: [PATCH 20/29] fix: the default Jacobians of a pattern without free or
 flat coordinates raised ValueError

---
 paragami/base_patterns.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paragami/base_patterns.py b/paragami/base_patterns.py
index 482d5c7..4cb9222 100644
--- a/paragami/base_patterns.py
+++ b/paragami/base_patterns.py
@@ -270,7 +270,11 @@ class Pattern(ABC):
         Pattern.unfreeing_jacobian
         """
         flat_val = self.flatten(folded_val, free=False)
-        jac = self._freeing_jacobian(flat_val)
+        if self._flat_length == 0 or self._free_flat_length == 0:
+            # autograd cannot stack the rows of an empty Jacobian.
+            jac = np.zeros((self._free_flat_length, self._flat_length))
+        else:
+            jac = self._freeing_jacobian(flat_val)
         if sparse:
             return coo_matrix(jac)
         else:
@@ -306,7 +310,11 @@ class Pattern(ABC):
         Pattern.freeing_jacobian
         """
         freeflat_val = self.flatten(folded_val, free=True)
-        jac = self._unfreeing_jacobian(freeflat_val)
+        if self._flat_length == 0 or self._free_flat_length == 0:
+            # autograd cannot stack the rows of an empty Jacobian.
+            jac = np.zeros((self._flat_length, self._free_flat_length))
+        else:
+            jac = self._unfreeing_jacobian(freeflat_val)
         if sparse:
             return coo_matrix(jac)
         else:
-- 
2.43.0


From f1fd30e83dad037d8a146e488086918ea757fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:01 +0000
Subject: [PATCH 21/29] fix: forward derivative of rgamma no longer overflows
 for large arguments

The derivative was divided by the gamma function, so that second derivatives
were wrong from about 143 and not a number from 172 on.
---
 paragami/autograd_supplement_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 86d0a9a..846bc4c 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -24,7 +24,7 @@ defjvp(sp.special.digamma,   lambda g, ans, x: g * sp.special.polygamma(1, x))
 defjvp(sp.special.gamma,     lambda g, ans, x: g * ans * sp.special.psi(x))
 defjvp(sp.special.gammaln,   lambda g, ans, x: g * sp.special.psi(x))
 defjvp(sp.special.rgamma,
-    lambda g, ans, x: g * sp.special.psi(x) / -sp.special.gamma(x))
+    lambda g, ans, x: -g * sp.special.psi(x) * ans)
 # defjvp(sp.special.multigammaln,
 #        lambda g, ans, a, d:
 #         g * np.sum(sp.special.digamma(np.expand_dims(a, -1) - np.arange(d)/2.), -1),
-- 
2.43.0


From d65f10548d862cef3e16ae7c7f38f4a339ceee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:16 +0000
Subject: [PATCH 22/29] fix: store patterns whose sizes or flags are numpy
 scalars in JSON

---
 paragami/base_patterns.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paragami/base_patterns.py b/paragami/base_patterns.py
index 4cb9222..7d1aa68 100644
--- a/paragami/base_patterns.py
+++ b/paragami/base_patterns.py
@@ -4,6 +4,16 @@ import json
 import numpy as np
 from scipy.sparse import coo_matrix
 
+
+def _numpy_scalar_to_json(value):
+    """Sizes and flags computed with numpy (e.g. np.int64) are not known to json.
+    """
+    if isinstance(value, np.generic):
+        return value.item()
+    raise TypeError('{} is not JSON serializable'.format(
+        type(value).__name__))
+
+
 class Pattern(ABC):
     """A abstract class for a parameter pattern.
 
@@ -375,7 +385,7 @@ class Pattern(ABC):
         ------------
         Pattern.from_json
         """
-        return json.dumps(self.as_dict())
+        return json.dumps(self.as_dict(), default=_numpy_scalar_to_json)
 
     def flat_names(self, free):
         """Return a tidy named vector for the flat values.
-- 
2.43.0


From 39932f0515b22022f6771e325404dd0e1bdd5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:46 +0000
Subject: [PATCH 23/29] fix: the optimization log keeps arrays inside its
 arguments and values as they were

---
 paragami/optimization_lib.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 89ccd17..30aad5f 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -335,6 +335,14 @@ class PreconditionedFunction():
 
 
 
+def _copy_for_log(val):
+    # Leave the computation graph alone if the objective is being
+    # differentiated by autograd.
+    if autograd.tracer.isbox(val):
+        return copy.copy(val)
+    return copy.deepcopy(val)
+
+
 class OptimizationObjective():
     """
     Derivatives and logging for an optimization objective function.
@@ -463,8 +471,10 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        # Optimizers may update x in place, so do not log a reference to it.
-        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
+        # Optimizers may update x in place, so do not log a reference to it,
+        # to an array in it, or to a value that shares its memory.
+        self.optimization_log.append(
+            (num_f_evals, _copy_for_log(x), _copy_for_log(f_val)))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From bb3cb3e12e849070c0e9636e1702e97f258505a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:05 +0000
Subject: [PATCH 24/29] fix: containers of equal patterns are equal

---
 paragami/pattern_containers.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index ac65340..c11a1f9 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -209,6 +209,16 @@ class PatternDict(Pattern):
             'contents': contents,
             'free_default': self.free_default}
 
+    def __eq__(self, other):
+        if type(other) != type(self):
+            return False
+        # Compare the patterns rather than their JSON strings, which differ
+        # for equal attributes of different types (e.g. 0 and 0.0).
+        self_dict, other_dict = self.as_dict(), other.as_dict()
+        self_dict['contents'] = list(self.__pattern_dict.items())
+        other_dict['contents'] = list(other.__pattern_dict.items())
+        return self_dict == other_dict
+
     def _check_lock(self):
         if self.__lock:
             raise ValueError(
@@ -509,6 +519,16 @@ class PatternArray(Pattern):
             'base_pattern': self.__base_pattern.to_json(),
             'free_default': self.free_default }
 
+    def __eq__(self, other):
+        if type(other) != type(self):
+            return False
+        # Compare the patterns rather than their JSON strings, which differ
+        # for equal attributes of different types (e.g. 0 and 0.0).
+        self_dict, other_dict = self.as_dict(), other.as_dict()
+        self_dict['base_pattern'] = self.__base_pattern
+        other_dict['base_pattern'] = other.__base_pattern
+        return self_dict == other_dict
+
     def array_shape(self):
         """The shape of the array of parameters.
 
-- 
2.43.0


From 8ca51b5edfce34af67dd075170eb36c6c5a1e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:31 +0000
Subject: [PATCH 25/29] fix: the valid empty value lies inside very large
 bounds

---
 paragami/numeric_array_patterns.py | 5 +++--
 paragami/psdmatrix_patterns.py     | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 715a8cd..e360b8b 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -87,10 +87,11 @@ def _get_inbounds_value(lb, ub):
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-            return lb + 1.0
+            # Adding one does not change very large bounds.
+            return lb + max(1.0, np.spacing(abs(1.0 * lb)))
         elif ub < float('inf'):
             # The lower bound is infinite.
-            return ub - 1.0
+            return ub - max(1.0, np.spacing(abs(1.0 * ub)))
         else:
             # Both are infinite.
             return 0.0
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 3e1f59b..9980936 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -233,7 +233,10 @@ class PSDSymmetricMatrixPattern(Pattern):
 
     def empty(self, valid):
         if valid:
-            return np.eye(self.__size) * (self.__diag_lb + 1)
+            # Adding one does not change a very large lower bound.
+            diag_val = self.__diag_lb + \
+                max(1.0, np.spacing(1.0 * self.__diag_lb))
+            return np.eye(self.__size) * diag_val
         else:
             return np.empty((self.__size, self.__size))
 
-- 
2.43.0


From a9da17b3d8185ec5e6badcc118330023af31c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:46 +0000
Subject: [PATCH 26/29] fix: factor sparse Hessians with repeated entries
 correctly, without changing them

---
 paragami/sparse_preconditioners_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paragami/sparse_preconditioners_lib.py b/paragami/sparse_preconditioners_lib.py
index 9abab02..be64f8f 100644
--- a/paragami/sparse_preconditioners_lib.py
+++ b/paragami/sparse_preconditioners_lib.py
@@ -70,6 +70,10 @@ def get_sym_matrix_inv_sqrt_funcs(hessian):
         raise ValueError('``hessian`` needs to be sparse.')
 
     # Use the Cholesky square root.
+    # cholesky orders the entries of its argument in place and ignores all but
+    # one of repeated entries, so give it a copy without them.
+    hessian = osp.sparse.csc_matrix(hessian, copy=True)
+    hessian.sum_duplicates()
     hessian_chol = cholesky(hessian)
     mult_hess_inv_sqrt, mult_hess_sqrt = \
         _get_sparse_square_root_operators(hessian_chol)
-- 
2.43.0


From eed7604d0b70ee636cb9202098eaa5ea1c156a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:46 +0000
Subject: [PATCH 27/29] fix: setting a sparse preconditioner leaves its arrays
 as they are

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 30aad5f..1aad563 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -201,7 +201,8 @@ class PreconditionedFunction():
         """
         if osp.sparse.issparse(a):
             if a_inv is None:
-                a_inv = osp.sparse.linalg.inv(a)
+                # Solving puts the entries of its argument in order in place.
+                a_inv = osp.sparse.linalg.inv(a.copy())
                 if not osp.sparse.issparse(a_inv):
                     # The inverse of a 1 x 1 matrix is returned as an array.
                     a_inv = osp.sparse.csc_matrix(np.reshape(a_inv, a.shape))
-- 
2.43.0


From c147aba480f8293a892b5c5978856c1c897d7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:48 +0000
Subject: [PATCH 28/29] fix: keep own copies of the arrays given to function
 wrappers

---
 paragami/function_patterns.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/paragami/function_patterns.py b/paragami/function_patterns.py
index 0badee7..88ece70 100644
--- a/paragami/function_patterns.py
+++ b/paragami/function_patterns.py
@@ -60,12 +60,12 @@ class TransformFunctionInput:
         """
 
         self._fun = original_fun
-        self._patterns = np.atleast_1d(patterns)
+        self._patterns = np.array(np.atleast_1d(patterns))
         if argnums is None:
             argnums = np.arange(0, len(self._patterns))
-        self._argnums = np.atleast_1d(argnums)
+        self._argnums = np.array(np.atleast_1d(argnums))
         self._argnum_sort = np.argsort(self._argnums)
-        self.free = np.broadcast_to(free, self._patterns.shape)
+        self.free = np.array(np.broadcast_to(free, self._patterns.shape))
         self._original_is_flat = original_is_flat
 
         self._validate_args()
@@ -179,12 +179,12 @@ class TransformFunctionOutput:
         """
 
         self._fun = original_fun
-        self._patterns = np.atleast_1d(patterns)
+        self._patterns = np.array(np.atleast_1d(patterns))
         if retnums is None:
             retnums = np.arange(0, len(self._patterns))
-        self._retnums = np.atleast_1d(retnums)
+        self._retnums = np.array(np.atleast_1d(retnums))
         self._retnum_sort = np.argsort(self._retnums)
-        self.free = np.broadcast_to(free, self._patterns.shape)
+        self.free = np.array(np.broadcast_to(free, self._patterns.shape))
         self._original_is_flat = original_is_flat
 
         self._validate_args()
-- 
2.43.0


From e47e3452e470ffef0486556a32ee4fe495c5a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:48 +0000
Subject: [PATCH 29/29] fix: keep own copies of preconditioner matrices and
 eigenvectors

---
 paragami/optimization_lib.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 1aad563..eaa027e 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -47,6 +47,13 @@ def truncate_eigenvalues(evals, ev_min=None, ev_max=None):
     return eig_val_trunc
 
 
+def _copy_matrix(mat):
+    """Copy an array or a sparse matrix, and leave anything else as it is."""
+    if osp.sparse.issparse(mat) or isinstance(mat, np.ndarray):
+        return mat.copy()
+    return mat
+
+
 def transform_eigenspace(eigvecs, eigvals, transform_function):
     """Return a function that multiplies a vector by a matrix with
     transformed eigenvalues.
@@ -77,6 +84,10 @@ def transform_eigenspace(eigvecs, eigvals, transform_function):
         length-``K`` vector with the above-described eigendecomposition.
     """
 
+    # Later changes to the arguments must not change the function.
+    eigvecs = _copy_matrix(eigvecs)
+    eigvals = _copy_matrix(eigvals)
+
     if eigvecs.ndim != 2:
         raise ValueError('``eigvecs`` must be 2d.')
     if eigvals.ndim != 1:
@@ -199,6 +210,9 @@ class PreconditionedFunction():
     def set_preconditioner_matrix(self, a, a_inv=None):
         """Set the preconditioner with a matrix.
         """
+        # Later changes to the arguments must not change the preconditioner.
+        a = _copy_matrix(a)
+        a_inv = _copy_matrix(a_inv)
         if osp.sparse.issparse(a):
             if a_inv is None:
                 # Solving puts the entries of its argument in order in place.
-- 
2.43.0

