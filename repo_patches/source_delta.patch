From d87ef0dc7d96d690b1ed2e95541959a4d3bfcb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 01/38] fix: divide an interval by a number with outward
 rounding

The quotient was computed as the interval times a reciprocal rounded to
nearest, so the result could miss the exact quotient: Interval(1, 1) / 3.
---
 intvalpy/kernel/interval_arithmetics.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6751af6..6d4af6c 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -463,6 +463,15 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            if other == 0:
+                raise ZeroDivisionError('It is impossible to divide by zero.')
+            with RoundingContext(FE_DOWNWARD):
+                inf = min(self.a / other, self.b / other)
+            with RoundingContext(FE_UPWARD):
+                sup = max(self.a / other, self.b / other)
+            return ClassicalArithmetic(inf, sup)
+
         else:
             return 1.0/other * self
     
@@ -614,6 +623,15 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            if other == 0:
+                raise ZeroDivisionError('It is impossible to divide by zero.')
+            with RoundingContext(FE_DOWNWARD):
+                inf = self.a / other if other > 0 else self.b / other
+            with RoundingContext(FE_UPWARD):
+                sup = self.b / other if other > 0 else self.a / other
+            return KaucherArithmetic(inf, sup)
+
         else:
             return 1/other * self
     
-- 
2.43.0


From 459ecbe238b824c5af74fa6a26429b3078453136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 02/38] fix: round Kaucher products outward and use Lakeyev's
 formula everywhere

Subtracting a product inside a rounding context rounds that product the
wrong way, so results were not outward rounded; with a Kaucher operand
that holds a proper interval the sum form was not the Kaucher product at
all: Interval(-1, 1) * (Interval(3, -2, sortQ=False) + Interval(-5, 5)).
The minus parts are kept non-positive, so no product is subtracted.
---
 intvalpy/kernel/interval_arithmetics.pyx | 48 ++++++++++++------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6d4af6c..b8ea478 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -426,18 +426,18 @@ cdef class ClassicalArithmetic(BaseTools):
         elif isinstance(other, KaucherArithmetic):
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = min(self.a, 0.0)
+            selfSupMinus = min(self.b, 0.0)
             
             otherInfPlus = max(other.a, 0.0)
             otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
+            otherInfMinus = min(other.a, 0.0)
+            otherSupMinus = min(other.b, 0.0)
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -566,18 +566,18 @@ cdef class KaucherArithmetic(BaseTools):
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = min(self.a, 0.0)
+            selfSupMinus = min(self.b, 0.0)
             
             otherInfPlus = max(other.a, 0.0)
             otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
+            otherInfMinus = min(other.a, 0.0)
+            otherSupMinus = min(other.b, 0.0)
             
             with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -600,18 +600,18 @@ cdef class KaucherArithmetic(BaseTools):
             
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = min(self.a, 0.0)
+            selfSupMinus = min(self.b, 0.0)
             
             otherInfPlus = max(other.a, 0.0)
             otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
+            otherInfMinus = min(other.a, 0.0)
+            otherSupMinus = min(other.b, 0.0)
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
@@ -686,18 +686,18 @@ cdef class KaucherArithmetic(BaseTools):
         if isinstance(other, Number):
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = min(self.a, 0.0)
+            selfSupMinus = min(self.b, 0.0)
             
             otherInfPlus = max(other, 0.0)
             otherSupPlus = otherInfPlus
-            otherInfMinus = otherInfPlus - other
-            otherSupMinus = otherSupPlus - other
+            otherInfMinus = min(other, 0.0)
+            otherSupMinus = otherInfMinus
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o * self)(other)
-- 
2.43.0


From 0dfd18ed3043a5a1ff682474441a13ee70bf8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 03/38] fix: refuse division of a NumPy operand by an interval
 containing zero

np.float64(1) / Interval(-1, 2) skipped the zero test of the other division
routes and returned '[-1, 0.5]' (endpoints in the wrong order inside).
---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index b8ea478..3c9347c 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -363,11 +363,7 @@ cdef class BaseTools:
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1/self.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1/self.a
-            return type(self)(inf, sup).__rmul__(args[2])
+            return self.__rtruediv__(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
             return self.sqrt()
-- 
2.43.0


From a320a0511a947ab5abd83bcf9ef5f80bc0483973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 04/38] fix: honour the operand order in NumPy ufunc calls on
 an interval

np.subtract(Interval(1, 2), 3) ignored its second operand and combined the
interval with itself; the same for np.add, np.multiply and np.divide.
---
 intvalpy/kernel/interval_arithmetics.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 3c9347c..bfebd8e 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -352,17 +352,24 @@ cdef class BaseTools:
 
 
     def __array_ufunc__(self, *args):
-        cdef double_t inf, sup
         if args[0].__name__ in ['add']:
+            if args[2] is self:
+                return self.__add__(args[3])
             return self.__radd__(args[2])
 
         elif args[0].__name__ in ['subtract']:
+            if args[2] is self:
+                return self.__sub__(args[3])
             return type(self)(-self.b, -self.a).__radd__(args[2])
 
         elif args[0].__name__ in ['multiply']:
+            if args[2] is self:
+                return self.__mul__(args[3])
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
+            if args[2] is self:
+                return self.__truediv__(args[3])
             return self.__rtruediv__(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
-- 
2.43.0


From 97314ec379b1c742efa68cd9d712b727e3dad120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 05/38] fix: keep the exponential enclosed when an endpoint
 overflows

Interval(0, 1000).exp() was '[inf, inf]', which contains no value of exp on
the interval, and exp of an unbounded interval ended at DBL_MAX.
---
 intvalpy/kernel/interval_arithmetics.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index bfebd8e..a2e7e41 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -51,11 +51,11 @@ cdef class RoundingContext:
 
 
 cdef double round_down(double x) nogil:
-    return nextafter(x, -DBL_MAX)
+    return nextafter(x, NEGINF)
 
 
 cdef double round_up(double x) nogil:
-    return nextafter(x, DBL_MAX)    
+    return nextafter(x, INF)
 #######################################################################################
 
 
@@ -259,10 +259,13 @@ cdef class BaseTools:
         cdef double_t inf, sup
         try:
             inf = round_down(math.exp(self.a))
+        except OverflowError:
+            inf = DBL_MAX
+        try:
             sup = round_up(math.exp(self.b))
-            return type(self)(inf, sup)
         except OverflowError:
-            return type(self)(INF, INF)
+            sup = INF
+        return type(self)(inf, sup)
 
     def log(self):
         cdef double_t inf, sup
-- 
2.43.0


From aae4a65ff3a8fcbd69df9dfaa13e8a58e55c24e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 06/38] fix: bound the logarithm rigorously

math.log under a directed rounding mode is not a directed result:
Interval(0.9589759845929797, 0.9589759845929797).log() missed the exact value.
The long double logarithm with its error margin, rounded to double, is tight
and encloses.
---
 intvalpy/kernel/interval_arithmetics.pyx | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index a2e7e41..a305d9b 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -9,8 +9,8 @@ cimport cython
 
 import math
 cimport cython
-from libc.math cimport nextafter, nexttoward
-from libc.float cimport DBL_MAX, DBL_MIN
+from libc.math cimport nextafter, nexttoward, logl, fabsl
+from libc.float cimport DBL_MAX, DBL_MIN, LDBL_EPSILON
 from cython cimport fused_type
 
 
@@ -56,6 +56,17 @@ cdef double round_down(double x) nogil:
 
 cdef double round_up(double x) nogil:
     return nextafter(x, INF)
+
+
+# logl is accurate to within LDBL_EPSILON; to be called inside the RoundingContext of the bound
+cdef double log_down(double x):
+    cdef long double value = logl(x)
+    return <double>(value - 2*LDBL_EPSILON*fabsl(value))
+
+
+cdef double log_up(double x):
+    cdef long double value = logl(x)
+    return <double>(value + 2*LDBL_EPSILON*fabsl(value))
 #######################################################################################
 
 
@@ -274,15 +285,15 @@ cdef class BaseTools:
         if _max <= _min:
             if self.a <= self.b:
                 with RoundingContext(FE_DOWNWARD):
-                    inf = NEGINF if _max == 0.0 else math.log(_max)
+                    inf = NEGINF if _max == 0.0 else log_down(_max)
                 with RoundingContext(FE_UPWARD):
-                    sup = NEGINF if _min == 0.0 else math.log(_min)
+                    sup = NEGINF if _min == 0.0 else log_up(_min)
                 return type(self)(inf, sup)
             else:
                 with RoundingContext(FE_DOWNWARD):
-                    sup = NEGINF if _min == 0.0 else math.log(_min)
+                    sup = NEGINF if _min == 0.0 else log_down(_min)
                 with RoundingContext(FE_UPWARD):
-                    inf = NEGINF if _max == 0.0 else math.log(_max)                    
+                    inf = NEGINF if _max == 0.0 else log_up(_max)                    
                 return type(self)(sup, inf)
         else:
             return type(self)(NAN, NAN)
-- 
2.43.0


From d71a195b45e09d5018dea2e3eb2921720d889279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 07/38] fix: round integer powers of float endpoints outward

The C library pow is not a directed operation, so x ** n could miss exact
powers (about one upper bound in 400 for random endpoints).
---
 intvalpy/kernel/interval_arithmetics.pyx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index a305d9b..bb1efe1 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -58,6 +58,15 @@ cdef double round_up(double x) nogil:
     return nextafter(x, INF)
 
 
+# x**n by multiplications, each rounded in the mode of the surrounding RoundingContext:
+# no factor after the first is negative, so the rounding errors all go the same way
+cdef object power(object x, object n):
+    result = x if n % 2 else 1
+    for _ in range(n - n % 2):
+        result = result * abs(x)
+    return result
+
+
 # logl is accurate to within LDBL_EPSILON; to be called inside the RoundingContext of the bound
 cdef double log_down(double x):
     cdef long double value = logl(x)
@@ -495,9 +504,9 @@ cdef class ClassicalArithmetic(BaseTools):
     def __pow__(self, other):
         if isinstance(other, (int, np.int_)) and other >= 0:
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a ** other, self.b ** other)
+                inf = min(power(self.a, other), power(self.b, other))
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a ** other, self.b ** other)
+                sup = max(power(self.a, other), power(self.b, other))
             if (other % 2 == 0) and (0 in self):
                 return ClassicalArithmetic(0.0, sup)
             else:
@@ -656,9 +665,9 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, (int, np.int_)) and other >= 0:
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a ** other
+                inf = power(self.a, other)
             with RoundingContext(FE_UPWARD):
-                sup = self.b ** other
+                sup = power(self.b, other)
             if (other % 2 == 0) and (0 in self):
                 return ClassicalArithmetic(0.0, max(inf, sup))
             elif (other % 2 == 0) and (0 in self.pro):
-- 
2.43.0


From a5ad8bd4754108d112840b53de6370e424752e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 08/38] fix: detect the extrema of sin and cos with a margin
 for rounding errors

For arguments above about 1e8 an extremum inside the interval could be missed:
Interval(821469221.8168229, 821469221.816823).sin() ended below 1.
---
 intvalpy/kernel/interval_arithmetics.pyx | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index bb1efe1..8200e04 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -58,6 +58,14 @@ cdef double round_up(double x) nogil:
     return nextafter(x, INF)
 
 
+# Whether [a, b] contains a point shift + 2*PI*k. Where the rounding errors leave it open, the
+# answer is yes if slack is positive and no if it is negative.
+cdef bint has_extremum(double a, double b, double shift, double slack):
+    cdef double lo = (a - shift) / (2*PI)
+    cdef double hi = (b - shift) / (2*PI)
+    return ceil(lo - slack*(1 + fabs(lo))) <= floor(hi + slack*(1 + fabs(hi)))
+
+
 # x**n by multiplications, each rounded in the mode of the surrounding RoundingContext:
 # no factor after the first is negative, so the rounding errors all go the same way
 cdef object power(object x, object n):
@@ -315,26 +323,26 @@ cdef class BaseTools:
 
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if has_extremum(x.a, x.b, -PI/2, 1e-15):
                     inf = -1
                 else:
                     inf = round_down(min(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if has_extremum(x.a, x.b, PI/2, 1e-15):
                     sup = 1
                 else:
                     sup = round_up(max(sin_inf, sin_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if has_extremum(x.a, x.b, PI/2, -1e-15):
                     sup = 1
                 else:
                     sup = round_down(max(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if has_extremum(x.a, x.b, -PI/2, -1e-15):
                     inf = -1
                 else:
                     inf = round_up(min(sin_inf, sin_sup))
@@ -348,26 +356,26 @@ cdef class BaseTools:
         
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if has_extremum(x.a, x.b, PI, 1e-15):
                     inf = -1
                 else:
                     inf = round_down(min(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if has_extremum(x.a, x.b, 0.0, 1e-15):
                     sup = 1
                 else:
                     sup = round_up(max(cos_inf, cos_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if has_extremum(x.a, x.b, 0.0, -1e-15):
                     sup = 1
                 else:
                     sup = round_down(max(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if has_extremum(x.a, x.b, PI, -1e-15):
                     inf = -1
                 else:
                     inf = round_up(min(cos_inf, cos_sup))
-- 
2.43.0


From 54133022b080856f227dc71ce089730adf1417f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 09/38] fix: raise the TypeError of the membership test

'a' in Interval(1, 2) built the exception and answered False.
---
 intvalpy/kernel/interval_arithmetics.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 8200e04..ab3f81e 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -230,7 +230,7 @@ cdef class BaseTools:
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (other.b <= self.b)
         else:
-            TypeError('Not supported type.')
+            raise TypeError('Not supported type.')
                         
     def __lt__(self, other):
         if isinstance(other, Number):
-- 
2.43.0


From 3d7f5b507611be3e0dd69f4c08c067823a4bdea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 10/38] fix: build the degenerate interval from a single number

Interval(4), an example of the docstring, raised TypeError.
---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d00ecba..9e98409 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -461,11 +461,11 @@ def Interval(*args, sortQ=True, midRadQ=False):
     else:
         if isinstance(args[0], INTERVAL_CLASSES):
             return args[0]
+        elif isinstance(args[0], single_type):
+            return SingleInterval(args[0], args[0], sortQ=sortQ)
         elif len(args[0]) == 2:
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
-        elif isinstance(args[0], single_type):
-            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From f3ee0dc5fd384e4f84e4ea59cedfa13b9252f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 11/38] fix: iterate an interval array in reverse

__reversed__ read an attribute that does not exist.
---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 9e98409..fd5f7ff 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -146,7 +146,7 @@ class ArrayInterval:
         return ArrayInterval(-self._data)
 
     def __reversed__(self):
-        return iter(self.storage[::-1])
+        return iter(self._data[::-1])
 
     def __abs__(self):
         """Range of absolute value."""
-- 
2.43.0


From 5489ab0f0604336fd9bb51eb4bf0a1599dba5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 12/38] fix: convert the operands of intersection to intervals

The documented conversion was missing: intersection(Interval(-4, 5), -2) raised
AttributeError.
---
 intvalpy/kernel/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 6e977b1..ab4d7bf 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -132,6 +132,7 @@ def intersection(x, y):
         else:
             return Interval(nan, nan)
 
+    x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
         return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
-- 
2.43.0


From b3f92cef9e574f8b78a007818ace2a5d42089f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 13/38] fix: make supercontain componentwise, as contain is

It was a copy of superset and reduced the answer to a single boolean.
---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 3f7a3e5..1c21ae5 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -198,4 +198,4 @@ proper_subset = lambda a, b: np.array(((a.a > b.a) & (a.b < b.b)), dtype=np.bool
 proper_superset = lambda a, b: proper_subset(b, a)
 
 contain = lambda a, b: np.array(((a.a >= b.a) & (a.b <= b.b)), dtype=np.bool)
-supercontain = lambda a, b: subset(b, a)
+supercontain = lambda a, b: contain(b, a)
-- 
2.43.0


From 581e1a1f103eb9b3ded111210c181a8b9ace3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 14/38] fix: eliminate with the outer product in the interval
 Gauss method

The multipliers were combined with the pivot row elementwise, so for n >= 3
the result was not an enclosure of the solution set.
---
 intvalpy/linear/Gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 55f2513..13dfcee 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -43,7 +43,7 @@ def Gauss(A, b):
 
         # transformations of the forward step of the Gauss method
         r[j+1:, j] = A[j+1:, j]/A[j, j]
-        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j] * A[j, j+1:]
+        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j].reshape((n-j-1, 1)) * A[j, j+1:].reshape((1, n-j-1))
         b[j+1:] = b[j+1:] - r[j+1:, j] * b[j]
 
     # backward step of the Gauss method
-- 
2.43.0


From bb1b099b7cf2536cf62fda81104ed9fc5b2d5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 15/38] fix: test every row in the H-matrix check of HBR

With any() systems whose matrix is not an H-matrix passed the check and got
a box that does not enclose the solution set.
---
 intvalpy/linear/HBR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index dda456d..d585a4f 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -39,7 +39,7 @@ def HBR(A, b):
     B = np.linalg.inv(np.array(A, dtype=np.float64))
     v = abs(B @ np.ones(n))
     u = A @ v
-    assert (u > 0).any(), 'Matrix of the system not an H-matrix'
+    assert (u > 0).all(), 'Matrix of the system not an H-matrix'
 
     # проводим процедуру Хансена-Блика-Рона
     dAc = np.diag(A)
-- 
2.43.0


From 5cfecc8d7bdc56d487644db6fa66282c253e39fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 16/38] fix: take the radius of the Neumaier estimate over all
 rows

Without the minimum the box was not inside the tolerable solution set (and for
a rectangular matrix the shapes did not agree); with weights the residual at y
was taken with the scaled matrix.
---
 intvalpy/linear/Neumaier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index fd7813f..e0547aa 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -39,5 +39,5 @@ def Neumaier(A, b, y, w = None):
     else:
         A_w = A
         estimation_box = np.ones_like(y)
-    r = (b.rad - (b.mid - A_w @ y).mag) / np.sum(A_w.mag, axis=1)
+    r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
     return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
-- 
2.43.0


From 7bfc8322d76f07e36e255bb421ff073e093269c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 17/38] fix: do not return an unconverged box from Rohn's
 method

When the iterations diverge the last iterate does not enclose the united
solution set.
---
 intvalpy/linear/Rohn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index ed1ed38..26f7039 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -86,6 +86,8 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         result = G @ d + g + tol
         error = np.amax(abs(result-d))
         nit += 1
+    if not error < tol:
+        raise Exception('The iterations did not converge.')
     return Interval(x0-result, x0+result)
 
 
-- 
2.43.0


From 57d560c140340a2fd5d62656972c858f4c46aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 18/38] fix: correct a sign in the subgradient of Subdiff

For an improper matrix entry times an improper unknown the lower endpoint of
the product is a.b * x.b, the subgradient had -a.b.
---
 intvalpy/linear/Subdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Subdiff.py b/intvalpy/linear/Subdiff.py
index ab501fa..4a0a2c5 100644
--- a/intvalpy/linear/Subdiff.py
+++ b/intvalpy/linear/Subdiff.py
@@ -113,7 +113,7 @@ def Subdiff(A, b, tol=1e-12, maxiter=500, tau=1, norm_min_val=1e-12):
             if a.a*b.a > a.b*b.b:
                 F[i, j] = a.a
             else:
-                F[i, j + n] = -a.b
+                F[i, j + n] = a.b
 
             if a.a*b.b < a.b*b.a:
                 F[i + n, j + n] = a.a
-- 
2.43.0


From 969eb44f03e4fe8f4c66d3be4176b41de9456ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 19/38] fix: make Krawczyk and HansenSengupta work for systems

They called to_float, which the interval classes do not have, so every call
with more than one unknown raised AttributeError. The unused eigenvalues went
with it.
---
 intvalpy/nonlinear/external_evaluation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/intvalpy/nonlinear/external_evaluation.py b/intvalpy/nonlinear/external_evaluation.py
index b8f3b48..e45f73b 100755
--- a/intvalpy/nonlinear/external_evaluation.py
+++ b/intvalpy/nonlinear/external_evaluation.py
@@ -23,7 +23,7 @@ def HansenSengupta(func, J, x0, maxiter=2000, tol=1e-12):
             return c + GS
 
         else:
-            LAMBDA = np.linalg.inv(L.to_float().mid)
+            LAMBDA = np.linalg.inv(L.mid)
             A = LAMBDA @ L
             b = -LAMBDA @ func(c)
 
@@ -63,10 +63,9 @@ def Krawczyk(func, J, x0, maxiter=2000, tol=1e-12):
 
         else:
             n, m = L.shape
-            LAMBDA = np.linalg.inv(L.to_float().mid)
+            LAMBDA = np.linalg.inv(L.mid)
 
             B = np.eye(n) - LAMBDA @ L
-            w, _ = np.linalg.eigh(B.to_float().mag)
             return c - LAMBDA @ func(c) + B @ (X-c)
 
     if not (0 in func(x0)):
-- 
2.43.0


From 9ee36b0cd54a3ca386274c045ee7f90c8021c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 20/38] fix: forget the drawing bounds of earlier calls in
 IntLinIncR2 and IntLinIncR3

A call of lineqs on an unbounded set left its bounds in a module variable, and
the next IntLinIncR2 call used them instead of its own.
---
 intvalpy/linear/boundary_intervals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 51cb2e2..3a57c9d 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -300,6 +300,9 @@ def IntLinIncR2(
     assert m <= 2, "There should be two columns in matrix A."
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
+    global __center_rm
+    __center_rm = []
+
     def algo(bounds):
         for ort in range(4):
             tmp = A.copy()
@@ -326,7 +329,6 @@ def IntLinIncR2(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
@@ -603,6 +605,9 @@ def IntLinIncR3(
     assert m <= 3, "There should be three columns in matrix A."
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
+    global __center_rm
+    __center_rm = []
+
     def algo(bounds):
         gxmin, gymin, gzmin = infinity, infinity, infinity
         gxmax, gymax, gzmax = -infinity, -infinity, -infinity
@@ -647,7 +652,6 @@ def IntLinIncR3(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
-- 
2.43.0


From 117c87abd17b5b45186a437f4c3f205af418ace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 21/38] fix: do not smooth the caller's weights in place

WILS.fit and ISPAE.fit changed the weight array of the caller, so a second fit
with the same array gave another model.
---
 intvalpy/models/ISPAE.py | 2 ++
 intvalpy/models/WILS.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 85f08af..28b83be 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -348,6 +348,8 @@ class ISPAE(object):
         # Initialize weights
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 20911d2..0c9ec4e 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -108,6 +108,8 @@ class WILS(object):
         
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From f448a108aca4d086e57eff80753ea39f87469a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 22/38] fix: do not keep the penalty weight of one system for
 the next

The weight found for the first system was stored in the caller's constraint
and reused for any other system it was given with.
---
 intvalpy/kernel/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index e95c309..5576dfc 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -1,5 +1,6 @@
 import numpy as np
 import itertools
+from copy import copy
 
 from .ralgb5 import ralgb5
 from .utils import rad, mid, inf, sup, mag
@@ -52,6 +53,7 @@ class BaseRecFun(object):
         else:
             if linear_constraint.mu is None:
                 mag_value = mag(A)
+                linear_constraint = copy(linear_constraint)
                 linear_constraint.mu = linear_constraint.find_mu(np.max(mag_value))
 
             calcfg = lambda x: recfunc.calcfg_constr(x, infA, supA, Am, Ar, bm, br, weight, linear_constraint)
-- 
2.43.0


From c4a47ceb081c35f4df4e9d9cb95ce50bef4cc47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 23/38] fix: accept a linear constraint without finite bounds

LinearConstraint(C, lb=[-inf]) raised UnboundLocalError, and with no bounds at
all the stored matrix had one dimension, which the penalty cannot use.
---
 intvalpy/kernel/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 5576dfc..f00e121 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -230,7 +230,8 @@ class LinearConstraint:
             n = len(self.C)
             if n == 0:
                 self.C.append(C[0])
-                self.b.append(ub[0])
+                self.b.append(np.inf)
+                w, W = np.ones(1), np.ones((1, C.shape[1]))
             else:
                 w = np.random.uniform(1, 1, n) # TODO
                 # TODO
@@ -243,7 +244,7 @@ class LinearConstraint:
 
 
         else:
-            self.C, self.b = C[0], np.array([np.inf])
+            self.C, self.b = C[:1], np.array([np.inf])
 
         self.mu = mu
 
-- 
2.43.0


From c1c802a196cfe76ea68d2f1e1e323372b91f3b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:53 +0000
Subject: [PATCH 24/38] fix: read the endpoints of an interval array as
 floating-point numbers

---
 intvalpy/kernel/real_intervals.py | 10 +++++-----
 intvalpy/kernel/utils.py          |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index fd5f7ff..a786a59 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -26,19 +26,19 @@ class ArrayInterval:
 
     @property
     def a(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return np.vectorize(lambda el: el.a, otypes=[np.float64])(self._data)
 
     @property
     def b(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return np.vectorize(lambda el: el.b, otypes=[np.float64])(self._data)
 
     @property
     def inf(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return np.vectorize(lambda el: el.a, otypes=[np.float64])(self._data)
 
     @property
     def sup(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return np.vectorize(lambda el: el.b, otypes=[np.float64])(self._data)
 
     @property
     def data(self):
@@ -69,7 +69,7 @@ class ArrayInterval:
 
     @property
     def wid(self):
-        return np.vectorize(lambda el: el.wid)(self._data)
+        return np.vectorize(lambda el: el.wid, otypes=[np.float64])(self._data)
 
     @property
     def mig(self):
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 1c21ae5..b3c55db 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -96,7 +96,7 @@ def wid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_wid)(x)
+        return np.vectorize(_wid, otypes=[np.float64])(x)
     else:
         return _wid(x)
     
@@ -141,7 +141,7 @@ def inf(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_inf)(x)
+        return np.vectorize(_inf, otypes=[np.float64])(x)
     else:
         return _inf(x)
     
@@ -156,7 +156,7 @@ def sup(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_sup)(x)
+        return np.vectorize(_sup, otypes=[np.float64])(x)
     else:
         return _sup(x)
     
@@ -186,7 +186,7 @@ def khi(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_khi)(x)
+        return np.vectorize(_khi, otypes=[np.float64])(x)
     else:
         return _khi(x)
 
-- 
2.43.0


From 6844c8787057942c3ad97c9b3dbe73c63ccad539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 25/38] fix: round quotients of integers outward

---
 intvalpy/kernel/interval_arithmetics.pyx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index ab3f81e..8abc228 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -479,13 +479,15 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __truediv__(self, other):
         cdef double_t inf, sup
+        # Python divides integers by their absolute values, the sign would turn the rounding around
+        cdef double_t a = self.a, b = self.b
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                inf = min(a / other.a, a / other.b, b / other.a, b / other.b)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                sup = max(a / other.a, a / other.b, b / other.a, b / other.b)
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
@@ -501,9 +503,9 @@ cdef class ClassicalArithmetic(BaseTools):
             if other == 0:
                 raise ZeroDivisionError('It is impossible to divide by zero.')
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a / other, self.b / other)
+                inf = min(a / other, b / other)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a / other, self.b / other)
+                sup = max(a / other, b / other)
             return ClassicalArithmetic(inf, sup)
 
         else:
@@ -619,6 +621,8 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __truediv__(self, other):
         cdef double_t inf, sup
+        # Python divides integers by their absolute values, the sign would turn the rounding around
+        cdef double_t a = self.a, b = self.b
         cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
         cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
@@ -661,9 +665,9 @@ cdef class KaucherArithmetic(BaseTools):
             if other == 0:
                 raise ZeroDivisionError('It is impossible to divide by zero.')
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a / other if other > 0 else self.b / other
+                inf = a / other if other > 0 else b / other
             with RoundingContext(FE_UPWARD):
-                sup = self.b / other if other > 0 else self.a / other
+                sup = b / other if other > 0 else a / other
             return KaucherArithmetic(inf, sup)
 
         else:
-- 
2.43.0


From 9e353ed853844e9048218b6ce8eca65c579843a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 26/38] fix: divide a number by an interval without overflowing
 reciprocals

---
 intvalpy/kernel/interval_arithmetics.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 8abc228..5aa2cc9 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -564,6 +564,8 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t inf, sup
         if 0.0 in self:
             raise ValueError('It is impossible to divide by zero containing intervals!')
+        if isinstance(other, Number):
+            return ClassicalArithmetic(other, other) / self
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
         with RoundingContext(FE_UPWARD):
-- 
2.43.0


From 84f81e47dd8a21f4a784630e0a96296fe36cfba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 27/38] fix: compare an interval array with an interval

---
 intvalpy/kernel/real_intervals.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index a786a59..4a4b973 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -169,43 +169,43 @@ class ArrayInterval:
         if isinstance(other, ArrayInterval):
             return self._data < other._data
         else:
-            return self._data < other
+            return self._data < np.array(other, dtype=object)
 
     def __le__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data <= other._data
         else:
-            return self._data <= other
+            return self._data <= np.array(other, dtype=object)
 
     def __eq__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data == other._data
         else:
-            return self._data == other
+            return self._data == np.array(other, dtype=object)
 
     def __ne__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data != other._data
         else:
-            return self._data != other
+            return self._data != np.array(other, dtype=object)
 
     def __gt__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data > other._data
         else:
-            return self._data > other
+            return self._data > np.array(other, dtype=object)
 
     def __lt__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data < other._data
         else:
-            return self._data < other
+            return self._data < np.array(other, dtype=object)
 
     def __ge__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data >= other._data
         else:
-            return self._data >= other
+            return self._data >= np.array(other, dtype=object)
 
     def __len__(self):
         return self._data.__len__()
-- 
2.43.0


From 4f85b0cd0bd8b654991bbad8fac095473729cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 28/38] fix: divide by and into arrays without an intermediate
 reciprocal

---
 intvalpy/kernel/interval_arithmetics.pyx | 19 +++++++++++--------
 intvalpy/kernel/real_intervals.py        |  2 +-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 5aa2cc9..471a70f 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -508,8 +508,11 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = max(a / other, b / other)
             return ClassicalArithmetic(inf, sup)
 
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o, otypes=[object])(other)
+
         else:
-            return 1.0/other * self
+            return NotImplemented
     
     def __pow__(self, other):
         if isinstance(other, (int, np.int_)) and other >= 0:
@@ -561,16 +564,11 @@ cdef class ClassicalArithmetic(BaseTools):
             return np.vectorize(lambda o: o * self)(other)
     
     def __rtruediv__(self, other):
-        cdef double_t inf, sup
         if 0.0 in self:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         if isinstance(other, Number):
             return ClassicalArithmetic(other, other) / self
-        with RoundingContext(FE_DOWNWARD):
-            inf = 1.0/self.b
-        with RoundingContext(FE_UPWARD):
-            sup = 1.0/self.a
-        return other * ClassicalArithmetic(inf, sup)
+        return np.vectorize(lambda o: o / self, otypes=[object])(other)
 
 
 cdef class KaucherArithmetic(BaseTools):
@@ -672,8 +670,11 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = b / other if other > 0 else a / other
             return KaucherArithmetic(inf, sup)
 
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o, otypes=[object])(other)
+
         else:
-            return 1/other * self
+            return NotImplemented
     
     def __pow__(self, other): #TODO, debug
         cdef double_t inf, sup
@@ -746,6 +747,8 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         if 0.0 in self:
             raise ValueError('It is impossible to divide by zero containing intervals!')
+        if not isinstance(other, Number):
+            return np.vectorize(lambda o: o / self, otypes=[object])(other)
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
         with RoundingContext(FE_UPWARD):
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 4a4b973..8b464cd 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -295,7 +295,7 @@ class ArrayInterval:
         return ArrayInterval(self._data * other)
 
     def __rtruediv__(self, other):
-        return ArrayInterval(1 / self._data).__rmul__(other)
+        return ArrayInterval(np.array(other, dtype=object) / self._data)
 
     def __rmatmul__(self, other):
         matmul = np.array(other) @ self._data
-- 
2.43.0


From 4ef6d05d517adb5ad0d65b357380325d57db7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 29/38] fix: keep the penalty weight of two-sided constraints
 finite

---
 intvalpy/kernel/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index f00e121..53f8a77 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -266,7 +266,9 @@ class LinearConstraint:
             for x in itertools.product([0, 1], repeat=n):
                 dot[k] = c @ x
                 k += 1
-            denominator.append(min(abs(dot[1:])))
+            # opposite rows cancel out and leave no slope to be outweighed
+            dot = abs(dot[1:])
+            denominator.append(min(dot[dot > 1e-12 * max(dot)]))
 
         self.mu = numerator / min(denominator)
         return self.mu
\ No newline at end of file
-- 
2.43.0


From 388dd96ef2d2460edec948d47b2911535ac6db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 30/38] fix: accept a scalar weight when a functional is
 maximized

---
 intvalpy/kernel/abstract.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 53f8a77..7464922 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -43,8 +43,7 @@ class BaseRecFun(object):
         Am, Ar = mid(A), rad(A)
         bm, br = mid(b), rad(b)
 
-        if weight is None:
-            weight = np.ones(n)
+        weight = np.ones(n) if weight is None else weight * np.ones(n)
 
         # для штрафной функции alpha = sum G x - c, где G-матрица ограничений, c-вектор ограничений
         # находим значение весового коэффициента mu, чтобы гарантировано не выходить за пределы ограничений
-- 
2.43.0


From b26e06c6b3ae803a0d0dfd19e5d962ebeaec5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 31/38] fix: keep the edges of repeated and opposite
 inequalities

---
 intvalpy/linear/boundary_intervals.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 3a57c9d..f37e464 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -24,14 +24,16 @@ def BoundaryIntervals(A, b):
             Akx = np.dot(A[k], dotx)
             c = np.dot(A[k], p)
 
-            if np.sign(c) == -1:
+            norm = np.linalg.norm(A[k])
+            eps = 1e-14 * norm * np.linalg.norm(p)
+            if c < -eps:
                 tmp = (b[k] - Akx) / c
                 q[1] = q[1] if q[1] <= tmp else tmp
-            elif np.sign(c) == 1:
+            elif c > eps:
                 tmp = (b[k] - Akx) / c
                 q[0] = q[0] if tmp < q[0] else tmp
             else:
-                if Akx < b[k]:
+                if b[k] - Akx > 1e-14 * (norm * np.linalg.norm(dotx) + abs(b[k])):
                     if np.dot(A[k], A[i]) > 0:
                         si = False
                         break
-- 
2.43.0


From e9f7b8c0b6292dbca864a86342f55fc08ae1e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 32/38] fix: no vertices for a system with a contradictory zero
 row

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index f37e464..93f306b 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -184,6 +184,8 @@ def lineqs(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b)
+    if not cnmty:
+        return np.array([])
 
     S = BoundaryIntervals(A, b)
     if len(S) == 0:
-- 
2.43.0


From 6ebcb490ec808c2d519135e5de5e731d648e736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 33/38] fix: no vertices when the solution set does not meet
 the bounds

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 93f306b..2426052 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -209,6 +209,8 @@ def lineqs(
                           [-bounds[1][0], -bounds[1][1]])
 
         S = BoundaryIntervals(A, b)
+        if len(S) == 0:
+            return S
 
     vertices = Intervals2Path(S)
 
-- 
2.43.0


From 67cf7aa652218a624500d952cc4dd1e33ae0da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 34/38] fix: no monotony sign for a zero derivative in PPS

---
 intvalpy/linear/PPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index a4042c5..04ad6ec 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -201,15 +201,15 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
 
             index_upper_zero, index_lower_zero = dQ >= 0, dQ <= 0
             if index_upper_zero.any():
-                L[0].Q[index_upper_zero], L[0].W[index_upper_zero] = L[0].Q[index_upper_zero].a, 1
+                L[0].Q[index_upper_zero], L[0].W[index_upper_zero & (dQ.b > 0)] = L[0].Q[index_upper_zero].a, 1
             if index_lower_zero.any():
-                L[0].Q[index_lower_zero], L[0].W[index_lower_zero] = L[0].Q[index_lower_zero].b, -1
+                L[0].Q[index_lower_zero], L[0].W[index_lower_zero & (dQ.a < 0)] = L[0].Q[index_lower_zero].b, -1
 
             index_upper_zero, index_lower_zero = L[0].Y[nu] >= 0, L[0].Y[nu] <= 0
             if index_upper_zero.any():
-                L[0].r[index_upper_zero], L[0].s[index_upper_zero] = L[0].r[index_upper_zero].a, -1
+                L[0].r[index_upper_zero], L[0].s[index_upper_zero & (L[0].Y[nu].b > 0)] = L[0].r[index_upper_zero].a, -1
             if index_lower_zero.any():
-                L[0].r[index_lower_zero], L[0].s[index_lower_zero] = L[0].r[index_lower_zero].b, 1
+                L[0].r[index_lower_zero], L[0].s[index_lower_zero & (L[0].Y[nu].a < 0)] = L[0].r[index_lower_zero].b, 1
 
 
             #############################################################################################
-- 
2.43.0


From f8c8bc64eceb8130e9b1fbecd028f0aa86bc6b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 35/38] fix: PPS gives a result for a system with a point
 matrix

---
 intvalpy/linear/PPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index 04ad6ec..379e24f 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -192,6 +192,7 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
         Lk = []
         cstL = float('inf')
         nit = 0
+        ocenka = L[0].gamma
         exactQ = True if (L[0].Q.rad == 0).all() else False
         while (not exactQ) and abs(omega - L[0].gamma) > tol and nit <= maxiter:
 
-- 
2.43.0


From 7d39dcb7e5d890936cfb800e16866785432bfab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 36/38] fix: negate the starting box of PSS with the right-hand
 side

---
 intvalpy/linear/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 166ef6b..158f9aa 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -132,7 +132,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def StartBar(A, b):
         if not (x0 is None):
-            return x0.copy()
+            return x0.copy() if endint == 1 else -x0
 
         if n > m:
             try:
-- 
2.43.0


From d546dacc94755f19a8291fafd2129a7239c65296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 37/38] fix: PSS returns the attained value when no box is left

---
 intvalpy/linear/PSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 158f9aa..b8708d6 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -302,13 +302,13 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                     Q, q, Ar = L[item]
                     break
                 except IndexError:
-                    return L[0][1]
+                    return L[0][1] if L else omega
                 except:
                     item += 1
 
             nit += 1
 
-        return L[0][1]
+        return L[0][1] if L else omega
 
     inf = []
     sup = []
-- 
2.43.0


From 66c9c98f38bc7a148c5798bb1a8a990215af706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 38/38] fix: PSS accepts columns with point zeros

---
 intvalpy/linear/PSS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index b8708d6..cdd5180 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -7,7 +7,7 @@ cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
 
 from ..kernel.real_intervals import Interval
 from ..kernel.preprocessing import intersection
-from ..kernel.utils import infinity
+from ..kernel.utils import infinity, nan
 from .Rohn import Rohn
 from .Gauss import Gauss
 
@@ -84,6 +84,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         if 0 in a:
             return Interval(-infinity, infinity, sortQ=False)
+        elif b.a == 0 and b.b == 0:
+            return Interval(nan, nan)
         elif a.b<0:
             return kdiv_result[num_func](a, b)
         elif 0<a.a:
-- 
2.43.0

