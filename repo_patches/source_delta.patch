From 66eb1df5f42b1c2ee613ad8cc18e94a52f616076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:37 +0000
Subject: [PATCH 01/15] fix: give back the function depth when a decorated
 function raises or resets the settings

An exception in a decorated function left the depth counter incremented, so after 'maximum function depth'
failures every call was truncated to the empty die. settings_reset() inside a function made it negative.
---
 src/decorators.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index e0cd5f8..03a6383 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -143,16 +143,19 @@ def max_func_depth():
   # decorator to limit the depth of the function calls
   def decorator(func):
     def wrapper(*args, **kwargs):
-      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:
+      depth = SETTINGS['INTERNAL_CURR_DEPTH']
+      if depth >= SETTINGS['maximum function depth']:
         msg = 'The maximum function depth was exceeded, results are truncated.'
         if not SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED']:
           logger.warning(msg)
           print(msg)
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
-      SETTINGS['INTERNAL_CURR_DEPTH'] += 1
-      res = func(*args, **kwargs)
-      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1
+      try:
+        res = func(*args, **kwargs)
+      finally:  # also when func raises or resets the settings
+        SETTINGS['INTERNAL_CURR_DEPTH'] = depth
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From 05f76aef2be050dcca808b5e9285004f9d76d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:37 +0000
Subject: [PATCH 02/15] fix: count the function depth per thread

The depth was one process-wide counter, so calls running in other threads truncated (or lost updates of the
counter permanently shifted) the depth available to a call.
---
 src/decorators.py | 9 ++++++---
 src/settings.py   | 3 +--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index 03a6383..a804462 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -1,6 +1,7 @@
 import inspect
 import logging
 import math
+import threading
 from itertools import product
 from typing import Iterable, Union
 
@@ -12,6 +13,8 @@ from . import blackrv
 
 logger = logging.getLogger(__name__)
 
+_CALLS = threading.local()  # .depth is the nesting depth of decorated calls in the current thread
+
 
 def anydice_casting():
   def wrapper(func):
@@ -143,7 +146,7 @@ def max_func_depth():
   # decorator to limit the depth of the function calls
   def decorator(func):
     def wrapper(*args, **kwargs):
-      depth = SETTINGS['INTERNAL_CURR_DEPTH']
+      depth = getattr(_CALLS, 'depth', 0)
       if depth >= SETTINGS['maximum function depth']:
         msg = 'The maximum function depth was exceeded, results are truncated.'
         if not SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED']:
@@ -151,11 +154,11 @@ def max_func_depth():
           print(msg)
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
-      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1
+      _CALLS.depth = depth + 1
       try:
         res = func(*args, **kwargs)
       finally:  # also when func raises or resets the settings
-        SETTINGS['INTERNAL_CURR_DEPTH'] = depth
+        _CALLS.depth = depth
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
diff --git a/src/settings.py b/src/settings.py
index 43562be..08263aa 100644
--- a/src/settings.py
+++ b/src/settings.py
@@ -6,8 +6,7 @@ DEFAULT_SETTINGS = {
   'RV_IGNORE_ZERO_PROBS': False,  # if True, then RV remove P=0 vals when creating RVs (False by default in anydice)
   'DEFAULT_OUTPUT_WIDTH': 180,  # default width of output
   'DEFAULT_PRINT_FN': print,  # default print function
-  'INTERNAL_CURR_DEPTH': 0,  # internal use only, for max_func_depth decorator
-  'INTERNAL_CURR_DEPTH_WARNING_PRINTED': False,  # used with the above
+  'INTERNAL_CURR_DEPTH_WARNING_PRINTED': False,  # internal use only, for max_func_depth decorator
 
   'position order': 'highest first',  # 'highest first' or 'lowest first'
   'explode depth': 2,  # can only be set to a positive integer (the default is 2)
-- 
2.43.0


From 582f3154e6fbbffb60ecba53a33d648762c7553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:37 +0000
Subject: [PATCH 03/15] fix: reset the settings without emptying them first

Between clear() and update() an evaluation in another thread failed with KeyError.
---
 src/settings.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/settings.py b/src/settings.py
index 08263aa..9e8caeb 100644
--- a/src/settings.py
+++ b/src/settings.py
@@ -37,5 +37,4 @@ def settings_set(name, value):
 
 
 def settings_reset():
-  SETTINGS.clear()
   SETTINGS.update(DEFAULT_SETTINGS)
-- 
2.43.0


From 884bc0fa8b980d2c539b60a863c7f05af92a976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:37 +0000
Subject: [PATCH 04/15] fix: rolling a die no longer renames the die or earlier
 equal rolls

roll(1, X) returned X itself and memoized rolls are shared, so naming the result changed str(X).
---
 src/roller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index 5c13e7a..5b2e1dc 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -1,4 +1,5 @@
 from typing import Union, Iterable
+import copy
 import random
 import math
 
@@ -49,7 +50,7 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
   if isinstance(n, MetaRV):
     assert isinstance(n, RV), 'n must be a RV if its MetaRV'
   # both arguments are now exactly int|Seq|RV
-  result = _roll(n, d)  # ROLL!
+  result = copy.copy(_roll(n, d))  # ROLL! (a copy since the result may be d itself or a memoized roll, which must keep their own name)
   result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  # only used for the __str__ method
   return result
 
-- 
2.43.0


From 20a856395f933e41766a645f54e74946daf8dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:37 +0000
Subject: [PATCH 05/15] fix: memoized rolls are keyed by number types and by
 the settings they depend on

2d{1.0,2.0} returned integers after 2d2 had been rolled, and rolls kept the truncation and zero-probability
settings in force when they were first computed.
---
 src/roller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 5b2e1dc..591be73 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -6,6 +6,7 @@ import math
 from .typings import T_ifsr, MetaRV, MetaSeq
 from . import factory
 from .randvar import RV
+from .settings import SETTINGS
 from . import blackrv
 
 
@@ -89,14 +90,16 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  if (n, d.vals, d.probs) in _MEMOIZED_ROLLS:
-    return _MEMOIZED_ROLLS[(n, d.vals, d.probs)]
+  # repr because 1 == 1.0 and the settings because they govern how the result is computed
+  key = (n, d.vals, repr(d.vals), d.probs, SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  if key in _MEMOIZED_ROLLS:
+    return _MEMOIZED_ROLLS[key]
   half = _roll_int_rv(n // 2, d)
   full = half + half
   if n % 2 == 1:
     full = full + d
   full.set_source(n, d)
-  _MEMOIZED_ROLLS[(n, d.vals, d.probs)] = full
+  _MEMOIZED_ROLLS[key] = full
   return full
 
 
-- 
2.43.0


From 7447a215d0da226a71beeec56a20b6d960a14cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:37 +0000
Subject: [PATCH 06/15] fix: compiling no longer empties the caller's flags

The second compilation with the same flags dict silently ran with the default flags.
---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5186b6c..1fd3fd6 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -26,7 +26,7 @@ class PythonResolver:
         self.root = root
         self.reset_state()
 
-        flags = flags or {}
+        flags = dict(flags or {})  # a copy, the caller's flags are left as they are
         # this flag is for a very nasty behaviour in anydice where a functions variables are a temporary copy of the callers variables; see https://anydice.com/program/394f0 and https://anydice.com/program/394f1 for the ugly behaviour
         # handling this is very ugly, we pass around a dictionary of all the code's variables and copy it for each function call
         # this makes the output code look unpleasant as every variable is accessed as dict['VAR'] instead of just VAR.
-- 
2.43.0


From ca0d5e6a4e1acee9e4f13c981ecf16f6febea311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:37 +0000
Subject: [PATCH 07/15] fix: selecting from dice that have zero-probability
 values works when RV_IGNORE_ZERO_PROBS is on

The cdf was built as an RV, which drops values according to the setting now in force, so a die made before
the setting was turned on gave an IndexError.
---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index a926bc0..fcc73c6 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -241,7 +241,7 @@ class RV(MetaRV):
   def _get_kth_order_statistic(self, draws: int, k: int):
     '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''
     # k-th largest value of n draws: γ@RV where RV is n rolls of a die | FOR DISCRETE (what we need): https://en.wikipedia.org/wiki/Order_statistic#Dealing_with_discrete_variables
-    cdf = self.get_cdf().probs  # P(X <= x)
+    cdf = tuple(accumulate(self.probs))  # P(X <= x), of every value in self.vals (an RV could drop or rescale some)
     sum_probs = self._get_sum_probs()
     p1 = tuple(cdf_x - p_x for p_x, cdf_x in zip(self.probs, cdf))  # P(X < x)
     p2 = self.probs  # P(X = x)
-- 
2.43.0


From 008c5a555dcbd8bcac619e609f3f4207ed9b9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:00 +0000
Subject: [PATCH 08/15] fix: restricted programs get only the harmless part of
 functools

---
 src/parser/parse_and_exec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/parse_and_exec.py b/src/parser/parse_and_exec.py
index a60651b..90ce246 100644
--- a/src/parser/parse_and_exec.py
+++ b/src/parser/parse_and_exec.py
@@ -1,4 +1,6 @@
+import functools
 import logging
+import types
 from . import myparser
 from .myparser import Node
 from .python_resolver import PythonResolver
@@ -116,6 +118,8 @@ def safe_exec(r, global_vars=None):
 
 
     **_get_lib(),
+    # the whole functools module lets a program write to the globals of functions (update_wrapper) or evaluate strings (singledispatch)
+    'functools': types.SimpleNamespace(**{k: getattr(functools, k) for k in ('reduce', 'partial', 'cmp_to_key', 'lru_cache', 'cache')}),
     'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),
     **(global_vars or {})
   }
-- 
2.43.0


From 18891c1c917bcdd88febd845c66811264b93695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:34 +0000
Subject: [PATCH 09/15] fix: restricted programs cannot register types with the
 library's abstract classes

---
 src/parser/parse_and_exec.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/parse_and_exec.py b/src/parser/parse_and_exec.py
index 90ce246..830b5f8 100644
--- a/src/parser/parse_and_exec.py
+++ b/src/parser/parse_and_exec.py
@@ -1,3 +1,4 @@
+import abc
 import functools
 import logging
 import types
@@ -98,12 +99,18 @@ def safe_exec(r, global_vars=None):
   import RestrictedPython.Guards as Guards
   import RestrictedPython.Eval as Eval
   all_outputs = []
+  safer_getattr = Guards.safer_getattr
+  def guarded_getattr(obj, name, *default):
+    # registering a type as a die or a sequence would change the library for every later program
+    if isinstance(obj, abc.ABCMeta) and name == 'register':
+      raise AttributeError('"register" is not available in restricted programs')
+    return safer_getattr(obj, name, *default)
   g = {
     '__builtins__': ResPy.safe_builtins,
     '_getiter_': Eval.default_guarded_getiter,
     '_iter_unpack_sequence_': Guards.guarded_iter_unpack_sequence,
     # '_getattr_': getattr,
-    'getattr': Guards.safer_getattr,
+    'getattr': guarded_getattr,
 
     # To use classes in Python 3
     #     __metaclass__ must be set. Set it to type to use no custom metaclass.
-- 
2.43.0


From 37e9ed3ff45d747e733fdfe61d6273b17f989a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:05 +0000
Subject: [PATCH 10/15] fix: backslashes and carriage returns in anydice
 strings stay characters of the string

---
 src/parser/python_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 1fd3fd6..7fd570d 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -107,6 +107,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
+                    x = x.replace('\\', '\\\\').replace('\r', '\\r')  # a backslash or carriage return is only a character of the string
                     str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces
                 else:
                     str_list.append(self.resolve_node(x))
-- 
2.43.0


From 37405d36212c61f4a574518200a6b5c39127ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 11/15] fix: a call whose first expression is itself a call
 compiles

---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index c11f818..0d47480 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -606,7 +606,7 @@ def p_call_elements_expr(p):
     call_elements : expression
                 | call_elements expression
     '''
-    if p[1].type == NodeType.CALL:  # recursive case
+    if len(p) == 3:  # recursive case (a first expression may be a call itself)
         wrapped = Node(NodeType.CALL_EXPR, p[2])
         p[0] = p[1].with_child(wrapped)
     else:
-- 
2.43.0


From 77c8d71aec131ac2b4dcd3556bed476010f3eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 12/15] fix: cutting off small probabilities no longer always
 hides the outcome 0

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index fcc73c6..a8af1e4 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -152,7 +152,7 @@ class RV(MetaRV):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1]), initial=(0, 0)))
+      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
     return tuple(vals_probs)
-- 
2.43.0


From 8446d3323135f2e494595a33602bbac976f9881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:47 +0000
Subject: [PATCH 13/15] fix: scaling down weights also works when their sum
 exceeds the range of floats

---
 src/randvar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index a8af1e4..f76df0e 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -5,6 +5,7 @@ import math
 from typing import Callable, Iterable, Union
 from itertools import combinations_with_replacement, accumulate
 from collections import defaultdict
+from decimal import Decimal
 import logging
 
 from . import factory
@@ -444,12 +445,12 @@ class _rdict:
     return d.to_tuples()
 
 
-def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
+def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: int = 10**31):
   sum_ = rv._get_sum_probs()
   if sum_ <= sum_limit:
     return rv
-  normalizing_const = int(10e10 * (sum_ // sum_limit))
-  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum{sum_:.1g}, NORMALIZING BY {normalizing_const:.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
+  normalizing_const = 10**11 * (sum_ // sum_limit)  # only ints, a float cannot hold sums above 1e308
+  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit:.1g}, sum{Decimal(sum_):.1g}, NORMALIZING BY {Decimal(normalizing_const):.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
   # napkin math for the error. int(x) = x - x_ϵ where x_ϵ∈[0,1) is for the rounding error. Don't quote me on this math, not 100% sure.
   # P(x_i )=p_i/(∑p_i )  before normalization (p_i is an integer probability unbounded)
   # P(x_i )=p_i/(∑▒Nint(p_i/N) )  after normalization
-- 
2.43.0


From 83ddebff2d628dfb046d9b6402e9b56ee0296987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 14/15] fix: factorials of large numbers do not depend on the
 ones computed before

---
 src/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 963b533..889ea72 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,3 +1,4 @@
+import math
 from typing import Iterable, TypeVar, Union
 
 
@@ -25,7 +26,7 @@ _memoized = {}
 
 def factorial(n: int):
     if n not in _memoized:
-        _memoized[n] = n * factorial(n - 1) if n > 1 else 1
+        _memoized[n] = math.factorial(n) if n > 1 else 1  # not recursive, a pool can have more dice than the stack has room for
     return _memoized[n]
 
 
-- 
2.43.0


From 2b2ac39e7dc15896a4bc2d428cc9ce7eac17888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:49 +0000
Subject: [PATCH 15/15] fix: which unknown function is reported does not depend
 on the hash seed

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 7fd570d..ea0f5e4 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -68,7 +68,7 @@ class PythonResolver:
         result += self.resolve_node(self.root) + '\n' * self.NEWLINES_AFTER_FILE
         # check if all functions are defined
         if self._COMPILER_FLAG_FUNC_EXIST_CHECK:
-            for f_name in self._called_functions:
+            for f_name in sorted(self._called_functions):  # the same one is reported in every process
                 assert f_name in self._defined_functions, f'Unknown function {f_name} not defined. Currently callable functions: {self._user__defined_functions}'
         assert self._output_counter > 0, 'No outputs made. Did you forget to call "output expr"?'
 
-- 
2.43.0

