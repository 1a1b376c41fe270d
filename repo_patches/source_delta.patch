From 10743dfcb8caa8c29adc51cddb82aa3dbdfb5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 01/10] fix: get_logger adds one handler to a logger, and a
 broken standard error stream does not break the caller

---
 products/ellipy/gen/logging/logging.py | 37 +++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/products/ellipy/gen/logging/logging.py b/products/ellipy/gen/logging/logging.py
index 04f00b0..2ef618f 100644
--- a/products/ellipy/gen/logging/logging.py
+++ b/products/ellipy/gen/logging/logging.py
@@ -1,14 +1,39 @@
 import logging
+import sys
+import threading
 from ellipy.gen.common.common import get_caller_name
 
 
+class _StdErrHandler(logging.StreamHandler):
+    # writes to the standard error stream in force when a record is emitted
+    @property
+    def stream(self):
+        return sys.stderr
+
+    @stream.setter
+    def stream(self, value):
+        pass
+
+    def handleError(self, record):
+        # reporting a failure to log goes to standard error as well, so it can fail too
+        try:
+            logging.StreamHandler.handleError(self, record)
+        except Exception:
+            pass
+
+
+_setup_lock = threading.Lock()
+
+
 def get_logger():
     caller_name = get_caller_name(2, 'full')
     logger = logging.getLogger(caller_name)
-    handler = logging.StreamHandler()
-    formatter = logging.Formatter(
-        '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
-    handler.setFormatter(formatter)
-    logger.addHandler(handler)
-    logger.setLevel(logging.DEBUG)
+    with _setup_lock:
+        if not any(isinstance(handler, _StdErrHandler) for handler in logger.handlers):
+            handler = _StdErrHandler()
+            formatter = logging.Formatter(
+                '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
+            handler.setFormatter(formatter)
+            logger.setLevel(logging.DEBUG)
+            logger.addHandler(handler)
     return logger
-- 
2.43.0


From 4b08b0394e8499aca872b3d62041861cc73b7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 02/10] fix: lr_multiply_by_vec and lr_divide_vec leave the
 shape of their argument alone

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 6a29139..583f4d2 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -414,7 +414,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         a_size_vec = inp_a_arr.shape
         if inp_b_arr.ndim == 2:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
@@ -429,7 +429,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
             out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
         else:
-- 
2.43.0


From 74de6d12c88df767c17a3d12f45cb497686791cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 03/10] fix: a copy of a hyperplane keeps the relative
 tolerance

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1c1884a..97e0b5e 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -91,7 +91,7 @@ class Hyperplane(ABasicEllipsoid):
 
     def _get_single_copy(self):
         normal_vec, shift = self.parameters()
-        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol)
+        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol, rel_tol=self._rel_tol)
 
     @classmethod
     def contains(cls, hyp_arr: Union[Iterable, np.ndarray], x_arr: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 9d1cf8ff036e722e1872aabd792c6e78291549db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 04/10] fix: in-place projection is all-or-nothing and projects
 a repeated object once

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index e3ef30f..7b56717 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -64,7 +64,16 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             norm_mat = ml.repmat(np.sqrt(norm_sq_vec.T), n_dim, 1)
             ort_basis_mat = basis_mat / norm_mat
             # compute projection
-            [cls._projection_single_internal(x, ort_basis_mat) for x in ell_arr.flatten()]
+            # either all the ellipsoids are projected, each of them once, or none
+            ell_list = list({id(x): x for x in ell_arr.flatten()}.values())
+            state_list = [x.__dict__.copy() for x in ell_list]
+            try:
+                for x in ell_list:
+                    cls._projection_single_internal(x, ort_basis_mat)
+            except BaseException:
+                for x, state in zip(ell_list, state_list):
+                    x.__dict__.update(state)
+                raise
         return ell_arr
 
     def get_center_vec(self):
-- 
2.43.0


From 926bdf60eb436cb6e1d4192129fab3ce05a8893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 05/10] fix: reporting an error does not read source files

---
 products/ellipy/gen/common/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index fe0e358..6caddb2 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -12,7 +12,7 @@ def get_caller_name_ext(skip=1) -> Tuple[str, str]:
        
        Empty strings are returned if skipped levels exceed stack height
     """
-    stack = inspect.stack()
+    stack = inspect.stack(0)
     start = 0 + skip
     if len(stack) < start + 1:
         return '', ''
-- 
2.43.0


From 2dd1798ca29fed06fa0f3fa80e2de4528f4fd495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 06/10] fix: default of is_ode_norm_control passes its own
 check

---
 products/ellipy/elltool/conf/properties/Properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/conf/properties/Properties.py b/products/ellipy/elltool/conf/properties/Properties.py
index c4f0eed..b0d64df 100644
--- a/products/ellipy/elltool/conf/properties/Properties.py
+++ b/products/ellipy/elltool/conf/properties/Properties.py
@@ -45,7 +45,7 @@ class Properties(ParsePropMixin):
             'rel_tol': 1e-05,
             'n_time_grid_points': 250,
             'ode_solver_name': 'ode45',
-            'is_ode_norm_control': 'on',
+            'is_ode_norm_control': True,
             'is_enabled_ode_solver_options': False,
             'n_plot_2d_points': 200,
             'n_plot_3d_points': 200,
-- 
2.43.0


From 15a7e429f22791e033937995fc3ada2f8ecbb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 07/10] fix: equality with settings included compares the
 settings

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e38912e..5ebe45d 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -178,7 +178,7 @@ class ABasicEllipsoid(ABC):
                 if field_val_arr.size == 0:
                     comp_dict[field_nice_name] = np.zeros((0,), dtype=np.float64)
                 else:
-                    f_transform_func = field_transform_func_dict[field_name]
+                    f_transform_func = field_transform_func_dict.get(field_name, lambda z: z)
                     comp_dict[field_nice_name] = f_transform_func(field_val_arr)
             return comp_dict
 
-- 
2.43.0


From 132b1b2e3659f781fc7b3378d3f91ef91f22148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 08/10] fix: a rejection names its module also while other
 threads report rejections

---
 products/ellipy/gen/common/common.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index 6caddb2..f64e6b1 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -19,11 +19,10 @@ def get_caller_name_ext(skip=1) -> Tuple[str, str]:
     parentframe = stack[start][0]    
     
     name = []
-    module = inspect.getmodule(parentframe)
-    # `modname` can be None when frame is executed directly in console
-    # TODO(techtonik): consider using __main__
-    if module:
-        name.append(module.__name__)
+    # inspect.getmodule can miss the module while another thread looks for one
+    module_name = parentframe.f_globals.get('__name__')
+    if module_name:
+        name.append(module_name)
     # detect classname
     if 'self' in parentframe.f_locals:
         # I don't know any way to detect call from the object method
-- 
2.43.0


From 111c43371fff3010fca6430c6292878bc6163d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 09/10] fix: functions given to abs_rel_compare and
 get_property get a buffer of their own

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 products/ellipy/gen/common/common.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 5ebe45d..cdf3e01 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -117,7 +117,7 @@ class ABasicEllipsoid(ABC):
             if f_prop_fun is None:
                 prop_val = None
             else:
-                prop_val = f_prop_fun(prop_arr)
+                prop_val = f_prop_fun(np.copy(prop_arr))
             prop_arr = np.reshape(prop_arr, ell_arr.shape)
             if f_prop_fun is None:
                 return prop_arr
diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index f64e6b1..79bb520 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -163,7 +163,7 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
             is_rel_diff_triggered_arr = diff_arr > abs_tol
             is_rel_diff_triggered = np.any(is_rel_diff_triggered_arr)
             if is_rel_diff_triggered:
-                arg_sum_norm_arr = f_norm_op(left_arr) + f_norm_op(right_arr)
+                arg_sum_norm_arr = f_norm_op(np.copy(left_arr)) + f_norm_op(np.copy(right_arr))
                 is_rel_diff_triggered_arr = np.logical_and(is_rel_diff_triggered_arr, arg_sum_norm_arr > abs_tol)
                 is_rel_diff_triggered = np.any(is_rel_diff_triggered_arr)
                 if is_rel_diff_triggered:
-- 
2.43.0


From a645ad9ea43cc69b9d7d17370c0f589e1b15afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 10/10] fix: get_caller_name reports an unknown mode in the
 usual form, with colons and tag

---
 products/ellipy/gen/common/common.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index 79bb520..20d4b34 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -56,8 +56,7 @@ def get_caller_name(skip=1, mode: str ='default') -> str:
         else:
             return class_name + '.' + code_name
     else:
-        code_name, class_name = get_caller_name_ext()
-        raise ValueError((class_name + '.' + code_name).upper() + 'wrongInput: Unknown mode: {}'.format(mode))    
+        throw_error('wrongInput', 'Unknown mode: {}'.format(mode))
 
 
 def throw_error(tag: str, message: str, n_caller_stack_steps_up: int = 1, throw: bool = True) -> \
-- 
2.43.0

