From 8cbad80bdfee831f003e79b30686171938c8a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:17 +0000
Subject: [PATCH 01/76] fix: keep the sampling period when two dynamic State
 models are added

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2bd1796..5edf548 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1979,7 +1979,7 @@ class State:
                 addb = np.vstack((self._b, other.b))
                 addc = np.hstack((self._c, other.c))
                 addd = self._d + other.d
-                return State(adda, addb, addc, addd)
+                return State(adda, addb, addc, addd, dt=self._dt)
             # One of them is SISO and needs to be broadcasted
             else:
                 if self._isSISO:
-- 
2.43.0


From 71e988792ef85a0080654369b72f9c50e3d642c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:19 +0000
Subject: [PATCH 02/76] fix: stop infinite recursion when a SISO State is added
 to a 1x1 array or gain

---
 harold/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5edf548..b8f47f9 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2079,6 +2079,8 @@ class State:
                     return State(self._a, self._b, self._c, self._d + s,
                                  dt=self._dt)
                 # 4
+                elif s.size == 1:
+                    return self + float(s.item())
                 else:
                     # Broadcast and send to #6
                     p, m = s.shape
-- 
2.43.0


From 6d13ae30ac45d6b818c1c1094d8550d496c3d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:22 +0000
Subject: [PATCH 03/76] fix: a static State combined with a dynamic Transfer
 gives a State

---
 harold/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index b8f47f9..7b5c42f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2013,7 +2013,7 @@ class State:
             # If one of them is a static gain
             elif gainflag == 1:
                 if self._isgain:
-                    return self.to_array() + other
+                    return self + transfer_to_state(other)
                 else:
                     return self + other.to_array()
             # No static gains, carry on
@@ -2229,7 +2229,7 @@ class State:
             # If one of them is a static gain
             elif gainflag == 1:
                 if self._isgain:
-                    return self.to_array() @ other
+                    return self @ transfer_to_state(other)
                 else:
                     return self @ other.to_array()
 
-- 
2.43.0


From 50d7bf2e033f92bb00be04b19c6ac24f6e6279e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:25 +0000
Subject: [PATCH 04/76] fix: multiply a static State by a scalar instead of
 failing

---
 harold/_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 7b5c42f..d6bd2e4 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2297,12 +2297,12 @@ class State:
             #               6- ndarray
             if self._isgain:
                 # 1, 2
-                try:
+                if isinstance(s, float) or self._isSISO:
+                    # 1
+                    mat = self.to_array() * s
+                else:
                     # 2
                     mat = self.to_array() @ s
-                except ValueError:
-                    # 1
-                    mat = self.to_array * s
 
                 return State(mat, dt=self._dt)
 
-- 
2.43.0


From a0ac3e4893d17112fd3978bc1e2bee015c0dc84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:27 +0000
Subject: [PATCH 05/76] fix: broadcast a SISO Transfer when it is added to a
 MIMO Transfer

---
 harold/_classes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d6bd2e4..c21872b 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -525,14 +525,16 @@ class Transfer:
             # One of them is SISO and will be broadcasted here
             else:
                 if self._isSISO:
+                    p, m = other.shape
                     return other +\
-                        Transfer([[self._num]*other.m for n in range(other.p)],
-                                 [[self._den]*other.m for n in range(other.p)],
+                        Transfer([[self._num]*m for n in range(p)],
+                                 [[self._den]*m for n in range(p)],
                                  self._dt)
                 else:
+                    p, m = self._shape
                     return self +\
-                        Transfer([[other.num]*other.m for n in range(other.p)],
-                                 [[other.den]*other.m for n in range(other.p)],
+                        Transfer([[other.num]*m for n in range(p)],
+                                 [[other.den]*m for n in range(p)],
                                  self._dt)
 
         # Regularize arrays and scalars and consistency checks
-- 
2.43.0


From d40b40a0cfde6cee13bd318c73f507bea8b2b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:30 +0000
Subject: [PATCH 06/76] fix: reject the sum of two MIMO Transfer models with
 different shapes

---
 harold/_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index c21872b..5943f49 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -478,6 +478,10 @@ class Transfer:
 
             # Both SISO or both MIMO
             if sisoflag in [0, 2]:
+                if self._shape != other.shape:
+                    raise ValueError('Shapes are not compatible for '
+                                     'addition. Model shapes are {0} and'
+                                     ' {1}'.format(self._shape, other.shape))
 
                 # Create empty num and den holders.
                 newnum = [[None]*self._m for n in range(self._p)]
-- 
2.43.0


From b997c46c4a86588c3ec25bfffa5d35d1def88ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:33 +0000
Subject: [PATCH 07/76] fix: broadcast a static SISO Transfer when it is added
 to a static MIMO one

---
 harold/_classes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5943f49..d1b3e8f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -462,9 +462,8 @@ class Transfer:
             # If both are static gains
             if gainflag == 2:
                 try:
-                    s = self.shape
-                    num = (self.to_array() +
-                           other.to_array()).reshape(*s, 1).tolist()
+                    num = self.to_array() + other.to_array()
+                    num = num.reshape(*num.shape, 1).tolist()
                     return Transfer(num, dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
-- 
2.43.0


From 89bfb600010ff488e30c19fd2bfe533fb4b173b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:36 +0000
Subject: [PATCH 08/76] fix: read a row or column array without denominator as
 a gain matrix

---
 harold/_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d1b3e8f..b0e6346 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1297,7 +1297,8 @@ class Transfer:
             elif isinstance(numden, np.ndarray):
                 if verbose:
                     print('I found a numpy array')
-                if numden.ndim > 1 and min(numden.shape) > 1:
+                if numden.ndim > 1 and (min(numden.shape) > 1 or
+                                        (den is None and numden.size > 1)):
                     if verbose:
                         print('The array has multiple elements')
                     returned_numden_list[numden_index] = [
-- 
2.43.0


From c8967d4e57c16c709f660797dda0e4d2f16f8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:39 +0000
Subject: [PATCH 09/76] fix: keep the factor order in Transfer times State

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index b0e6346..2362ea8 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -699,7 +699,7 @@ class Transfer:
             if not self._dt == other._dt:
                 raise ValueError('The sampling periods don\'t match '
                                  'so I cannot multiply these systems. ')
-            return other*transfer_to_state(self)
+            return transfer_to_state(self)*other
 
         elif isinstance(other, Transfer):
             if not self._dt == other._dt:
-- 
2.43.0


From f22452d1eb2a2840ebeb15e9d97e6f46916facb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:42 +0000
Subject: [PATCH 10/76] fix: use the State operand, not the class, in Transfer
 @ State

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2362ea8..b0b851c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -902,7 +902,7 @@ class Transfer:
                                  'so I cannot multiply these systems.')
 
             if isinstance(other, State):
-                return transfer_to_state(self) @ State
+                return transfer_to_state(self) @ other
 
             # 2.
             if other._isSISO:
-- 
2.43.0


From 915b5d2ed458a823869f7d6df12d836364ca36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:45 +0000
Subject: [PATCH 11/76] fix: pass the sampling period, not a denominator, in
 array @ Transfer

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index b0b851c..685c740 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -961,7 +961,7 @@ class Transfer:
             else:
                 arr = other.real
 
-            return Transfer(arr.tolist(), self._dt) @ self
+            return Transfer(arr.tolist(), dt=self._dt) @ self
 
         elif isinstance(other, (int, float)):
             return self * other
-- 
2.43.0


From c3615da64e9a8cf3732491c1c724c740d013169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:48 +0000
Subject: [PATCH 12/76] fix: include the denominator of a static SISO Transfer
 in products

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 685c740..71e55d4 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -710,7 +710,7 @@ class Transfer:
             # For gain, convert to ndarray and let previous case handle it
             if self._isgain:
                 if self._isSISO:
-                    return other * float(self._num)
+                    return other * float(self._num / self._den)
                 else:
                     # recast as a numpy array and multiply
                     # if denominator has non unity entries
-- 
2.43.0


From d65eb022291d58a9396c35904e94e933e38eba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:51 +0000
Subject: [PATCH 13/76] fix: report the given array in the column check of (a,
 c) pairs

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 71e55d4..5394c31 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3360,7 +3360,7 @@ def _state_or_abcd(arg, n=4):
                 if nc != a.shape[0]:
                     raise ValueError('c array should have same number of cols'
                                      'as a. a is {} but c is {}'
-                                     ''.format(a.shape, b.shape))
+                                     ''.format(a.shape, c.shape))
                 return system_or_not, (a, c)
     else:
         raise ValueError('The argument is neither a tuple nor a State() '
-- 
2.43.0


From 7eee6df5cf2de88f1c9b6a0521a7faacd7d0b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:54 +0000
Subject: [PATCH 14/76] fix: keep the sampling period of static gains in
 minimal_realization

---
 harold/_system_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 6890e09..ae3d0a2 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -335,7 +335,7 @@ def minimal_realization(G, tol=1e-6):
 
     if type(G).__name__ == 'State':
         if G._isgain:
-            return State(G.to_array())
+            return State(G.to_array(), dt=G.SamplingPeriod)
         else:
             A, B, C, D = G.matrices
             Am, Bm, Cm = _minimal_realization_state(A, B, C, tol=tol)
@@ -345,7 +345,7 @@ def minimal_realization(G, tol=1e-6):
                 return State(D, dt=G.SamplingPeriod)
     else:
         if G._isgain:
-            return Transfer(G.to_array())
+            return Transfer(G.to_array(), dt=G.SamplingPeriod)
         else:
             num, den = G.polynomials
             numm, denm = _minimal_realization_transfer(num, den, tol=tol)
-- 
2.43.0


From 2800d9a9bca2aa8f8c1beba7866ef494a151c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:57 +0000
Subject: [PATCH 15/76] fix: feedback of static models with a zero gain

---
 harold/_bd_algebra.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harold/_bd_algebra.py b/harold/_bd_algebra.py
index 2ad4499..810baad 100644
--- a/harold/_bd_algebra.py
+++ b/harold/_bd_algebra.py
@@ -88,8 +88,7 @@ def feedback(G, H, negative=True):
 
     # if both are static
     if g._isgain and h._isgain:
-        if np.any(d) and np.any(n):
-            mat = d + sign * (d @ solve(delta, n @ d))
+        mat = d + sign * (d @ solve(delta, n @ d))
 
         return Transfer(mat, dt=dt) if conv_tf else State(mat, dt=dt)
     # if both are dynamic
-- 
2.43.0


From ab117d4f4f9ea0ccb840143ac9ea26ee7bb54196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:05 +0000
Subject: [PATCH 16/76] fix: undiscretize static gain models

---
 harold/_discrete_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 33fe0ce..ae76cd7 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -268,13 +268,13 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
 
     if isinstance(G, Transfer):
         if G._isgain:
-            return Transfer(G.to_array)
+            return Transfer(G.to_array())
         T = transfer_to_state(G)
         undiscretized_args = _undiscretize(T, dt, method, prewarp_at, q)
         return state_to_transfer(State(*undiscretized_args))
     else:
         if G._isgain:
-            return State(G.to_array)
+            return State(G.to_array())
         undiscretized_args = _undiscretize(G, dt, method, prewarp_at, q)
         return State(*undiscretized_args)
 
-- 
2.43.0


From ef7400b167edeb5abf6a0d44c9161be7afa94849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:07 +0000
Subject: [PATCH 17/76] fix: reject an unknown method in undiscretize with a
 ValueError

---
 harold/_discrete_funcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index ae76cd7..91c662f 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -398,6 +398,10 @@ def _undiscretize(T, dt, method, prewarp_at, q):
                              'matrix "q" between s and z indeterminates.')
         Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
 
+    else:
+        raise ValueError('I don\'t know the discretization method "{0}". But '
+                         'I know:\n {1}'.format(method, ',\n'.join(KDM)))
+
     return Ac, Bc, Cc, Dc
 
 
-- 
2.43.0


From f79645e2cc5792b6c3aa6fa393c8f3de719895ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:10 +0000
Subject: [PATCH 18/76] fix: use the inverse of the prewarped Tustin map in
 undiscretize

---
 harold/_discrete_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 91c662f..28da324 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -361,7 +361,7 @@ def _undiscretize(T, dt, method, prewarp_at, q):
                                  ' allowed is {1} Hz.'.format(dt, 1/(2*dt)))
             prew_rps = 2 * np.pi * prewarp_at
             sq2tan = np.sqrt(2*np.tan(prew_rps * dt / 2)/prew_rps)
-            q = np.array([[-2/sq2tan**2, 1/sq2tan], [1/sq2tan, -1]])
+            q = np.array([[-2/sq2tan**2, 2/sq2tan], [2/sq2tan, -1]])
 
         Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
 
-- 
2.43.0


From ec57e1e71332806e46bc1ba0c10bb2c8f840562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:13 +0000
Subject: [PATCH 19/76] fix: use the stored prewarp frequency when undiscretize
 gets no method

---
 harold/_discrete_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 28da324..ae4148a 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -255,6 +255,8 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
             method = 'tustin'
         else:
             method = G.DiscretizedWith
+            if prewarp_at == 0. and G.PrewarpFrequency is not None:
+                prewarp_at = G.PrewarpFrequency
 
     if method == 'lft':
         if G.DiscretizationMatrix is None and q is None:
-- 
2.43.0


From 5af6cc01b9ce863d6bb9e116a859bbf7e147a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:15 +0000
Subject: [PATCH 20/76] fix: invert the stored discretization matrix in
 undiscretize

---
 harold/_discrete_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index ae4148a..ef87c71 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -266,7 +266,9 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
         else:
             # Allow for custom q for lft different than the original
             if q is None:
-                q = G.DiscretizationMatrix
+                # The stored matrix maps 1/z to 1/s, the inverse is needed
+                q11, q12, q21, q22 = np.asarray(G.DiscretizationMatrix).ravel()
+                q = np.array([[-q11, q12], [q21, -q22]])/(q12*q21 - q11*q22)
 
     if isinstance(G, Transfer):
         if G._isgain:
-- 
2.43.0


From 19e01dfe95e24df83fcfe6a67fe02e44be986684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:18 +0000
Subject: [PATCH 21/76] fix: accept the 'trapezoidal' alias of the Tustin
 method

---
 harold/_global_constants.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harold/_global_constants.py b/harold/_global_constants.py
index b1649e3..e28f8b9 100644
--- a/harold/_global_constants.py
+++ b/harold/_global_constants.py
@@ -23,6 +23,7 @@ THE SOFTWARE.
 """
 _KnownDiscretizationMethods = ('bilinear',
                                'tustin',
+                               'trapezoidal',
                                'zoh',
                                'foh',
                                'forward difference',
-- 
2.43.0


From c688ea40861f083ac849d7ebf6f37b995cf8568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:21 +0000
Subject: [PATCH 22/76] fix: keep the feedthrough and static gains in
 hessenberg_realization

---
 harold/_system_funcs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index ae3d0a2..40e60ac 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -183,9 +183,9 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
         _check_for_state_or_transfer(G)
         in_is_sys = True
         if type(G).__name__ == 'Transfer':
-            a, b, c, _ = transfer_to_state(G, output='matrices')
+            a, b, c, d = transfer_to_state(G, output='matrices')
         else:
-            a, b, c = G.a, G.b, G.c
+            a, b, c, d = G.matrices
 
     if form == 'o':
         a, b, c = a.T, c.T, b.T
@@ -208,7 +208,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
 
     if output == 'system':
         if in_is_sys:
-            Gh = State(ah, bh, ch, dt=G.SamplingPeriod)
+            Gh = State(ah, bh, ch, d, dt=G.SamplingPeriod)
         else:
             Gh = State(ah, bh, ch)
         if compute_T:
-- 
2.43.0


From edfb2cad1f0fd94f602d660e7ed4d40810ce2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:38 +0000
Subject: [PATCH 23/76] fix: return the static gain itself from
 hessenberg_realization

---
 harold/_system_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 40e60ac..4b700c4 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -207,7 +207,9 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
         ah, bh, ch = ah.T, ch.T, bh.T
 
     if output == 'system':
-        if in_is_sys:
+        if in_is_sys and G._isgain:
+            Gh = State(d, dt=G.SamplingPeriod)
+        elif in_is_sys:
             Gh = State(ah, bh, ch, d, dt=G.SamplingPeriod)
         else:
             Gh = State(ah, bh, ch)
-- 
2.43.0


From d5f94f3a3e78297d072f72cfe117b01f0693071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:08 +0000
Subject: [PATCH 24/76] fix: apply the Hessenberg transformation to the input
 matrix and T

---
 harold/_system_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 4b700c4..6b4daa5 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -193,7 +193,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     qq, bh = qr(b)
     ab, cb = qq.T @ a @ qq, c @ qq
     ah, qh = hessenberg(ab, calc_q=True)
-    ch = cb @ qh
+    bh, ch = qh.T @ bh, cb @ qh
 
     if compute_T:
         T = qq @ qh
@@ -201,7 +201,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     if invert:
         ah, bh, ch = fliplr(flipud(ah)), flipud(bh), fliplr(ch)
         if compute_T:
-            T = flipud(T)
+            T = fliplr(T)
 
     if form == 'o':
         ah, bh, ch = ah.T, ch.T, bh.T
-- 
2.43.0


From be7821ec0ec63cb5a854171331d00738b00dcf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:12 +0000
Subject: [PATCH 25/76] fix: return B and C in order from the observer form
 quick exit of staircase

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 6b4daa5..99d27b5 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -96,7 +96,7 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         if invert:
             A0, B0, C0 = fliplr(flipud(A0)), flipud(B0), fliplr(C0)
             T = flipud(T)
-        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, B0.T, C0.T, T.T)
+        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
     tol_from_A = n*norm(A, 1)*np.spacing(1.)
-- 
2.43.0


From c8f8262f990faa101e436e56ae33797b572bbbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:59 +0000
Subject: [PATCH 26/76] fix: keep the arrays given to the discrete generalized
 Lyapunov solver intact

---
 harold/_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index bcdf78e..ac635e9 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -349,7 +349,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     if A.shape[0] < 3:
         return mini_sylvester(A, E, Y)
 
-    As, Es, Q, Z = qz(A, E, overwrite_a=True, overwrite_b=True)
+    As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = As.shape[0]
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
-- 
2.43.0


From 805c0c2997250d05451d73939948deae9cdd0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:08 +0000
Subject: [PATCH 27/76] fix: copy the coefficient arrays given to a Transfer

A Transfer kept the very array it was given, so changing that array later
changed the model, and -G and G[0, 0] shared coefficients with G.
---
 harold/_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5394c31..0eddb36 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1308,7 +1308,8 @@ class Transfer:
                     MIMO_flags[numden_index] = True
                     Gain_flags[numden_index] = True
                 else:
-                    returned_numden_list[numden_index] = np.atleast_2d(numden)
+                    returned_numden_list[numden_index] = np.array(numden,
+                                                                  ndmin=2)
 
             # OK, finally check whether and int or float is given
             # as an entry of a SISO Transfer.
-- 
2.43.0


From a0194ba0f372a690c3873d1c3435c64359cdbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:21 +0000
Subject: [PATCH 28/76] fix: copy the discretization matrix given to a Transfer

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 0eddb36..554a4fd 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -318,7 +318,7 @@ class Transfer:
     @DiscretizationMatrix.setter
     def DiscretizationMatrix(self, value):
         if self._DiscretizedWith == 'lft':
-            value = np.atleast_2d(np.asarray(value, dtype=float))
+            value = np.atleast_2d(np.array(value, dtype=float))
             if value.ndim > 2 or value.shape != (2, 2):
                 raise ValueError('The interconnection array needs to be a'
                                  ' 2x2 real-valued array.')
-- 
2.43.0


From 3e91237645d9615871f41b2048b2ab703972fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:43 +0000
Subject: [PATCH 29/76] fix: infinity norm of a static gain

The poles of a static gain are an empty list, so the search for the least
damped pole failed with an AttributeError.
---
 harold/_system_props.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 28255fc..a210d16 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -85,6 +85,9 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if not T._isstable:
             return np.Inf
 
+        if T._isgain:
+            return norm(d, ord=2)
+
         # Initial gamma0 guess
         # Get the max of the largest svd of either
         #   - feedthrough matrix
-- 
2.43.0


From 6246fcb305c5e887edd5db05f6c83354de8796f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:47 +0000
Subject: [PATCH 30/76] fix: infinity norm search that does not converge

The upper bound was unbound when the loop ran out of iterations.
---
 harold/_system_props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index a210d16..5aa1fd0 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -132,9 +132,9 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
 
             # (Step b3)
             im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= eig_tol]
+            gamma_ub = test_gamma
             # If none left break
             if im_eigs.size == 0:
-                gamma_ub = test_gamma
                 break
             else:
                 # Take the ones with positive imag part
-- 
2.43.0


From c9826551beafb50d6f697de44e2eb045000db344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 31/76] fix: array divided by a MIMO Transfer

The array was multiplied elementwise with the inverse, while the same array
as a static gain, or with a State divisor, gives the matrix product.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 554a4fd..980cb42 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -837,7 +837,7 @@ class Transfer:
             num_inv, den_inv = state_to_transfer((ai, bi, ci, di),
                                                  output='polynomials')
 
-            return other * Transfer(num_inv, den_inv, dt=self._dt)
+            return other @ Transfer(num_inv, den_inv, dt=self._dt)
 
     def __matmul__(self, other):
         # @-multiplication has the following rationale, first two items
-- 
2.43.0


From ae4026bdf5aeb536c1898cacd595d222a84c6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:33 +0000
Subject: [PATCH 32/76] fix: single-entry nested lists of 2-D coefficient
 arrays

Transfer([[num]], [[den]]) with 2-D arrays, as built by G[0:1, 0:1], kept
3-D coefficient arrays.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 980cb42..3a2574a 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1229,7 +1229,7 @@ class Transfer:
                                   'the lists and converted '
                                   'to a numpy array.')
                         returned_numden_list[numden_index] = np.atleast_2d(
-                                                numden[0]).astype(float)
+                                                numden[0][0]).astype(float)
                         continue
 
                     # It is a list of lists so the context is MIMO
-- 
2.43.0


From 8d61ed712267d35a2b3a406445d9a5e86b182a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:54 +0000
Subject: [PATCH 33/76] fix: repeated channels of a SISO Transfer

G[:, [0, 0]] returned G itself instead of the 1x2 model, unlike the State
and the MIMO Transfer.
---
 harold/_classes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 3a2574a..ac66a20 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -981,9 +981,12 @@ class Transfer:
         rc = np.arange(self.NumberOfOutputs)[rows_of_c].tolist()
         cb = np.arange(self.NumberOfInputs)[cols_of_b].tolist()
 
+        num, den = self.num, self.den
         # if a SISO is sliced only [0,0] will pass, then return self
         if self._isSISO:
-            return self
+            if np.size(rc) * np.size(cb) <= 1:
+                return self
+            num, den = [[num]], [[den]]
 
         # Is the result goint to be SISO ?
         if isinstance(rc, int) and isinstance(cb, int):
@@ -993,8 +996,8 @@ class Transfer:
             # Nope, release the MIMO bracket hell
             rc = [rc] if isinstance(rc, int) else rc
             cb = [cb] if isinstance(cb, int) else cb
-            return Transfer([[self.num[x][y] for y in cb] for x in rc],
-                            [[self.den[x][y] for y in cb] for x in rc],
+            return Transfer([[num[x][y] for y in cb] for x in rc],
+                            [[den[x][y] for y in cb] for x in rc],
                             dt=self._dt)
 
     def __setitem__(self, *args):
-- 
2.43.0


From 9ae3ba033e14b60901d537b80d9407e7177040c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:08 +0000
Subject: [PATCH 34/76] fix: update the gain status when num or den of a
 Transfer is set

---
 harold/_classes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index ac66a20..d3d7878 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -275,7 +275,8 @@ class Transfer:
     @num.setter
     def num(self, value):
 
-        user_num, _, user_shape = self.validate_arguments(value, self._den)[:3]
+        user_num, _, user_shape, isgain = self.validate_arguments(value,
+                                                                  self._den)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -285,12 +286,14 @@ class Transfer:
                              ''.format(*user_shape+self._shape))
         else:
             self._num = user_num
+            self._isgain = isgain
             self._recalc()
 
     @den.setter
     def den(self, value):
 
-        user_den, user_shape = self.validate_arguments(self._num, value)[1:3]
+        _, user_den, user_shape, isgain = self.validate_arguments(self._num,
+                                                                  value)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -300,6 +303,7 @@ class Transfer:
                              ''.format(*user_shape+self._shape))
         else:
             self._den = user_den
+            self._isgain = isgain
             self._recalc()
 
     @DiscretizedWith.setter
-- 
2.43.0


From 7fb98ac7862be509136515a32948be10dc57aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:14 +0000
Subject: [PATCH 35/76] fix: re-evaluate stability when the sampling period is
 set

---
 harold/_classes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index d3d7878..8c8f515 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -67,6 +67,7 @@ class Transfer:
         self._p, self._m = self._shape
         if self._shape == (1, 1):
             self._isSISO = True
+        self.poles = np.array([])
         self.SamplingPeriod = dt
         self._isdiscrete = False if dt is None else True
 
@@ -272,6 +273,9 @@ class Transfer:
             self._dt = None
             self._isdiscrete = False
 
+        # The stability region depends on the sampling period
+        self._set_stability()
+
     @num.setter
     def num(self, value):
 
@@ -1647,6 +1651,7 @@ class State:
         if self._shape == (1, 1):
             self._isSISO = True
 
+        self.poles = np.array([])
         self.SamplingPeriod = dt
         self._isdiscrete = False if dt is None else True
         self._recalc()
@@ -1879,6 +1884,9 @@ class State:
             self._dt = None
             self._isdiscrete = False
 
+        # The stability region depends on the sampling period
+        self._set_stability()
+
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
         if value in _KnownDiscretizationMethods:
-- 
2.43.0


From ccd96860bca290f32455ae0594d2d89306ccc4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:19 +0000
Subject: [PATCH 36/76] fix: set the matrix of a static State

---
 harold/_classes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8c8f515..7248c76 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1858,12 +1858,20 @@ class State:
 
     @d.setter
     def d(self, value):
-        value = self.validate_arguments(
-            np.zeros_like(self._a),
-            np.zeros_like(self._b),
-            np.zeros_like(self._c),
-            value
-            )[3]
+        if self._isgain:
+            value, shape = self.validate_arguments(None, None, None,
+                                                   value)[3:5]
+            if shape != self._shape:
+                raise ValueError('Once created, the shape of the static gain '
+                                 'cannot be changed. I need the shape {0} '
+                                 'but got {1}.'.format(self._shape, shape))
+        else:
+            value = self.validate_arguments(
+                np.zeros_like(self._a),
+                np.zeros_like(self._b),
+                np.zeros_like(self._c),
+                value
+                )[3]
         self._d = value
         self._recalc()
 
-- 
2.43.0


From 5d0333e1c51c5d4e4b6736bcff006266b2eb787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:11 +0000
Subject: [PATCH 37/76] fix: frequency units in any letter case

---
 harold/_frequency_domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 3b623f0..b50fb2f 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -52,6 +52,9 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
             raise ValueError('Frequency unit must be "Hz" or "rad/s". "{0}"'
                              ' is not recognized.'.format(x))
 
+    w_unit = 'Hz' if w_unit.lower() == 'hz' else 'rad/s'
+    output_unit = 'Hz' if output_unit.lower() == 'hz' else 'rad/s'
+
     w = _get_freq_grid(G, w, samples, w_unit, 'rad/s')
 
     if G._isgain:
-- 
2.43.0


From 025bdd6d2804ed74e4be9d2c6fc1bcdfd0c697f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:15 +0000
Subject: [PATCH 38/76] fix: frequency response of static gains at every grid
 point

---
 harold/_frequency_domain.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index b50fb2f..2b7b3e9 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -60,14 +60,14 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
     if G._isgain:
         if G._isSISO:
             if type(G).__name__ == 'Transfer':
-                fr_arr = array([1]*2)*G.num[0, 0]
+                fr_arr = array([1]*len(w))*(G.num[0, 0]/G.den[0, 0])
             else:
-                fr_arr = array([1]*2)*G.d[0, 0]
+                fr_arr = array([1]*len(w))*G.d[0, 0]
         else:
             if type(G).__name__ == 'Transfer':
-                fr_arr = zeros((2,)+G.shape) + G.to_array()
+                fr_arr = zeros((len(w),)+G.shape) + G.to_array()
             else:
-                fr_arr = zeros((2,)+G.shape) + G.d
+                fr_arr = zeros((len(w),)+G.shape) + G.d
 
             fr_arr = rollaxis(fr_arr, 0, 3)
     else:
-- 
2.43.0


From 34296739ac3ff0160ef12c4db833f218139000c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:05 +0000
Subject: [PATCH 39/76] fix: initial condition of a single-state model

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 7901fe6..46294af 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -66,7 +66,7 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
         if isinstance(sys, Transfer):
             raise ValueError('Transfer models can\'t have initial conditions '
                              'set.')
-        x0 = np.asarray(x0, dtype=float).squeeze()
+        x0 = np.atleast_1d(np.asarray(x0, dtype=float).squeeze())
         if x0.ndim > 1:
             raise ValueError('Initial condition can only be a 1D array.')
         else:
-- 
2.43.0


From d73a329c3fb62ca37018c585147c0886ecfdf6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:09 +0000
Subject: [PATCH 40/76] fix: simulate a single sample

---
 harold/_time_domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 46294af..48286e4 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -85,7 +85,10 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
     n, m = sys.NumberOfStates, sys.shape[1]
 
     is_discrete = sys.SamplingSet == 'Z'
-    u = np.asarray(u, dtype=float).squeeze()
+    u = np.asarray(u, dtype=float)
+    # A 2D array with a column for each input needs no reshaping
+    if u.ndim != 2 or u.shape[1] != m:
+        u = np.atleast_1d(u.squeeze())
     if u.ndim == 1:
         u = u[:, None]
 
-- 
2.43.0


From ae93a7dcb67b1272b7005f0cb9f809e36b3c5ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:13 +0000
Subject: [PATCH 41/76] fix: return a copy of the given time array

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 48286e4..a1a9dc2 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -448,7 +448,7 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
             u_samples = len(u)
             t = np.linspace(0, (u_samples-1)*dt, num=u_samples)
     else:
-        t = np.asarray(t, dtype=float).squeeze()
+        t = np.array(t, dtype=float).squeeze()
         if t.ndim != 1:
             raise ValueError('Time array needs to be a 1D array.')
         t_diff = np.diff(t)
-- 
2.43.0


From 0a219bac5822fddb7670589bb03626281fd66bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:17 +0000
Subject: [PATCH 42/76] fix: reject input arrays that are not two-dimensional

---
 harold/_time_domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index a1a9dc2..3a9ac5f 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -464,6 +464,9 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
     if u.size < 1:
         raise ValueError('The input array should at least have one point.')
 
+    if u.ndim != 2:
+        raise ValueError('The input array needs to be a 1D or 2D array.')
+
     # First dimension is always # of samples
     if len(u) != len(t):
         raise ValueError('The input and time arrays should have the same'
-- 
2.43.0


From 9b79819eb9c72cf1f6b1083a86a60152bb5dc811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:47 +0000
Subject: [PATCH 43/76] fix: Lyapunov equations with integer right-hand sides

---
 harold/_solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index ac635e9..3ac0f13 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -203,7 +203,7 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -365,7 +365,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -528,7 +528,7 @@ def _solve_continuous_lyapunov(A, Y):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -653,7 +653,7 @@ def _solve_discrete_lyapunov(A, Y):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
-- 
2.43.0


From a1450b5017e2100a1a9151f41a9d462cab59f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:11 +0000
Subject: [PATCH 44/76] fix: accept nested lists in (A, B) and (A, C) pairs

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 7248c76..7e661c3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3346,7 +3346,7 @@ def _state_or_abcd(arg, n=4):
             return system_or_not, (None, None, None, arg[0])
         else:
             # Start with squareness of a - always given
-            a = arg[0]
+            a = np.atleast_2d(arg[0])
             _assert_square(a)
 
             if n == 1:
-- 
2.43.0


From 1bc9850b142afd4aca005b2c0e7ebad7b011a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 45/76] fix: compressed controllability matrix uses the right
 singular vectors as they are

---
 harold/_kalman_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index e2d86a8..f46ff8c 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -53,7 +53,7 @@ def controllability_matrix(G, compress=False):
 
     if compress:
         T, S, V, r = haroldsvd(Cc, also_rank=True)
-        return S.dot(V.T), T, r
+        return S.dot(V), T, r
 
     T, *_, r = haroldsvd(Cc, also_rank=True)
     return Cc, T, r
-- 
2.43.0


From d37b37673ab8958b017fea4c5b2dd9e7c4a696e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:19 +0000
Subject: [PATCH 46/76] fix: observability matrix returns the transformation,
 not its transpose

---
 harold/_kalman_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index f46ff8c..2cc7f8f 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -107,7 +107,7 @@ def observability_matrix(G, compress=False):
         return T.dot(S), V.T, r
 
     *_, T, r = haroldsvd(Co, also_rank=True)
-    return Co, T, r
+    return Co, T.T, r
 
 
 def kalman_decomposition(G, compute_T=False, output='system',
-- 
2.43.0


From 6acd71afb71a18c9b91df951a7e2b3e87bd2e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:23 +0000
Subject: [PATCH 47/76] fix: matrix_slice at the north-east corner uses the
 given number of rows

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 540bda2..e7b106d 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -434,7 +434,7 @@ def matrix_slice(M, corner_shape, corner='nw'):
     if corner == 'nw':
         p, m = z, w
     elif corner == 'ne':
-        p, m = x, y - w
+        p, m = z, y - w
     elif corner == 'sw':
         p, m = x - z, w
     else:
-- 
2.43.0


From e50257605e1076002d84a5b300503ea08d1efe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:27 +0000
Subject: [PATCH 48/76] fix: haroldker returns a basis of the kernel

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index e7b106d..c334a1f 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -142,7 +142,7 @@ def haroldker(N, side='right'):
         # If full rank and not fat, return trivial zero
         return np.zeros((A.shape[1], 1))
     else:
-        return V[:, r:]
+        return V[r:, :].conj().T
 
 
 def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
-- 
2.43.0


From 418e499362abdab50350be312063682b3d3f8633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:32 +0000
Subject: [PATCH 49/76] fix: haroldpolymul of lists and of zero polynomials

---
 harold/_polynomial_ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index b96a5dc..f50a7f5 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -419,14 +419,14 @@ def haroldpolymul(*args, trim_zeros=True):
     """
 
     if trim_zeros:
-        trimmedargs = [np.trim_zeros(x.flatten(), 'f') for x in args]
+        trimmedargs = [np.trim_zeros(np.ravel(x), 'f') for x in args]
     else:
-        trimmedargs = args
+        trimmedargs = [np.ravel(x) for x in args]
 
     p = trimmedargs[0]
 
     for x in trimmedargs[1:]:
-        if x.size == 0:  # it was all zeros
+        if x.size == 0 or len(p) == 0:  # it was all zeros
             p = []
             break
         p = np.convolve(p, x)
-- 
2.43.0


From 11f7fd5b30f3ae42e80dacc35d093629ec72056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:36 +0000
Subject: [PATCH 50/76] fix: haroldpoly of iterables without indexing

---
 harold/_polynomial_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index f50a7f5..7f6296d 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -334,7 +334,7 @@ def haroldpoly(rootlist):
     else:
         p = np.array([0.+0j for x in range(n+1)], dtype=complex)
         p[0] = 1  # Monic polynomial
-        p[1] = -rootlist[0]
+        p[1] = -r[0]
         for x in range(1, n):
             p[x+1] = -p[x]*r[x]
             for y in range(x, 0, -1):
-- 
2.43.0


From c227cbbe1edfbd701ac3055b60afdb695d2ebf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:42 +0000
Subject: [PATCH 51/76] fix: haroldlcm of polynomials with leading zeros

---
 harold/_polynomial_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 7f6296d..0ede336 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -78,6 +78,9 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
     if not all([x.size > 0 for x in args]):
         raise ValueError('Empty arrays are not allowed.')
 
+    # Leading zeros do not count as degree
+    args = [np.trim_zeros(x, 'f') if np.any(x) else x[:1] for x in args]
+
     # All scalars
     if all([x.size == 1 for x in args]):
         if compute_multipliers:
-- 
2.43.0


From 7fb080416e56c3a7345357bd56b964e6c1793835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:31 +0000
Subject: [PATCH 52/76] fix: lqr accepts state or output in any letter case and
 nothing else

---
 harold/_static_ctrl_design.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index e88c030..afffd3e 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -79,7 +79,7 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
         raise ValueError('State feedback design requires dynamic system'
                          ' representations. The argument is a static gain.')
 
-    if weight_on.lower() not in ('state, output'):
+    if weight_on.lower() not in ('state', 'output'):
         raise ValueError('"weight_on" keyword can either be "state" or'
                          ' "output" but received "{}"'.format(weight_on))
 
@@ -97,7 +97,7 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
     # Arrays, shape mismatches and sign definiteness are handled by
     # scipy riccati solver. So pass directly if not "output".
 
-    if weight_on == 'output':
+    if weight_on.lower() == 'output':
         Q = array(Q, dtype=float, ndmin=2)
         R = array(R, dtype=float, ndmin=2)
         for ind, (arg, rc, st) in enumerate(
-- 
2.43.0


From 8d7bcc56a794b4fa9cda9ddd740546cafe5720ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:35 +0000
Subject: [PATCH 53/76] fix: lqr with the cross weight given as a list

---
 harold/_static_ctrl_design.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index afffd3e..e77b467 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -93,6 +93,9 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
     if R is None:
         R = eye(m)
 
+    if S is not None:
+        S = array(S, dtype=float, ndmin=2)
+
     func = care if T.SamplingSet == 'R' else dare
     # Arrays, shape mismatches and sign definiteness are handled by
     # scipy riccati solver. So pass directly if not "output".
-- 
2.43.0


From 39cf52884eb68dd22da9fea6bb9ce6a6950eae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:38 +0000
Subject: [PATCH 54/76] fix: ackermann with complex pole pairs and with a wrong
 number of poles

---
 harold/_static_ctrl_design.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index e77b467..4fb932f 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -169,9 +169,12 @@ def ackermann(G, loc):
         raise ValueError('Ackermann method is only applicable to single input'
                          ' systems.')
 
-    loc = array(loc, dtype=float)
-    if loc.ndim > 1:
+    loc = array(loc)
+    if loc.ndim != 1:
         raise ValueError('Pole location array must be 1D.')
+    if loc.size != n:
+        raise ValueError('{} pole locations are given for a system with {} '
+                         'states.'.format(loc.size, n))
 
     Cc, _, r = controllability_matrix((A, B), compress=False)
     # if not controllable
-- 
2.43.0


From b239617f6ce6839487cf177bff3ae4ef085a96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:28 +0000
Subject: [PATCH 55/76] fix: minimal realization of models without controllable
 states

---
 harold/_system_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 99d27b5..075a942 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -404,6 +404,8 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             A, B, C = Ac, Bc, Cc
             # Same with the o'ble modes, but now kc might have removed
             # unobservable mode already so get the distance again
+            if A.size == 0:
+                return A, B, C
             ko, *_ = cancellation_distance(A.T, C.T)
 
         # Still unobservables ?
-- 
2.43.0


From d5b19a7d53564b5df0232833119551d5302e1620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:32 +0000
Subject: [PATCH 56/76] fix: minimal realization keeps removing unobservable
 states

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 075a942..17cc6dc 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -417,7 +417,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
                     A, B, C = [array([], dtype=float)]*3
                     break
                 else:
-                    ko, *_ = cancellation_distance(Ao, Bo)
+                    ko, *_ = cancellation_distance(Ao.T, Co.T)
 
             # Return the resulting matrices
             A, B, C = Ao, Bo, Co
-- 
2.43.0


From 24f8b5d1eec4f8590630f5418f70d7f6352098b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:43:22 +0000
Subject: [PATCH 57/76] fix: Transfer drops leading zero coefficients whatever
 the form of its arguments

---
 harold/_classes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 7e661c3..c622d3c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1345,6 +1345,21 @@ class Transfer:
         # End of the num, den for loop
         # =============================
 
+        def trimmed(arr):
+            if arr.shape[0] != 1:
+                raise ValueError('Polynomial coefficients should be given as '
+                                 'lists or 1D arrays.')
+            coef = np.trim_zeros(arr[0], 'f')
+            return np.array([coef if coef.size else [0.]])
+
+        # Leading zeros do not carry any information
+        for numden_index, numden in enumerate(returned_numden_list):
+            if MIMO_flags[numden_index]:
+                returned_numden_list[numden_index] = [
+                        [trimmed(x) for x in y] for y in numden]
+            elif not None_flags[numden_index]:
+                returned_numden_list[numden_index] = trimmed(numden)
+
         # Now we have regularized and also derived the context for
         # both numerator and the denominator. Finally a decision
         # can be made about the intention of the user.
-- 
2.43.0


From fcbbed2175bc6859ce1788c2e8017592f696132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:43:44 +0000
Subject: [PATCH 58/76] fix: Transfer refuses complex coefficients and stores
 floats

---
 harold/_classes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index c622d3c..d0e8943 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1229,6 +1229,11 @@ class Transfer:
                     if verbose:
                         print('I found a list that has only lists')
 
+                    if any(np.iscomplexobj(x) for y in numden for x in y):
+                        raise ValueError('Something is not a \"float\" inside '
+                                         'the {0} list.'
+                                         ''.format(entrytext[numden_index]))
+
                     # number of columns in each row (m is a list)
                     m = [len(numden[ind]) for ind in range(len(numden))]
                     # number of rows (p is an integer)
@@ -1308,6 +1313,10 @@ class Transfer:
             elif isinstance(numden, np.ndarray):
                 if verbose:
                     print('I found a numpy array')
+                if numden.ndim > 2 or np.iscomplexobj(numden):
+                    raise ValueError('The {0} array should be a 1D or 2D '
+                                     'array of real numbers.'
+                                     ''.format(entrytext[numden_index]))
                 if numden.ndim > 1 and (min(numden.shape) > 1 or
                                         (den is None and numden.size > 1)):
                     if verbose:
@@ -1319,8 +1328,8 @@ class Transfer:
                     MIMO_flags[numden_index] = True
                     Gain_flags[numden_index] = True
                 else:
-                    returned_numden_list[numden_index] = np.array(numden,
-                                                                  ndmin=2)
+                    returned_numden_list[numden_index] = np.array(
+                                            numden, dtype='float', ndmin=2)
 
             # OK, finally check whether and int or float is given
             # as an entry of a SISO Transfer.
-- 
2.43.0


From 25b07f5ea6d62954b9dbfe50cadc4943033bbda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:43:47 +0000
Subject: [PATCH 59/76] fix: a column array given to Transfer is a column of
 gains

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d0e8943..170e823 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1317,7 +1317,7 @@ class Transfer:
                     raise ValueError('The {0} array should be a 1D or 2D '
                                      'array of real numbers.'
                                      ''.format(entrytext[numden_index]))
-                if numden.ndim > 1 and (min(numden.shape) > 1 or
+                if numden.ndim > 1 and (numden.shape[0] > 1 or
                                         (den is None and numden.size > 1)):
                     if verbose:
                         print('The array has multiple elements')
-- 
2.43.0


From b53af77d9c8f3f781ac58826dc9d7d0e6a8b7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:43:52 +0000
Subject: [PATCH 60/76] fix: Transfer refuses zero denominators and missing
 arguments

---
 harold/_classes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 170e823..59f4fdb 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1361,6 +1361,10 @@ class Transfer:
             coef = np.trim_zeros(arr[0], 'f')
             return np.array([coef if coef.size else [0.]])
 
+        if all(None_flags):
+            raise ValueError('Either the numerator or the denominator should '
+                             'be given.')
+
         # Leading zeros do not carry any information
         for numden_index, numden in enumerate(returned_numden_list):
             if MIMO_flags[numden_index]:
@@ -1369,6 +1373,11 @@ class Transfer:
             elif not None_flags[numden_index]:
                 returned_numden_list[numden_index] = trimmed(numden)
 
+        dens = returned_numden_list[1]
+        if not None_flags[1] and not all(
+                x.any() for x in (sum(dens, []) if MIMO_flags[1] else [dens])):
+            raise ValueError('A denominator cannot be zero.')
+
         # Now we have regularized and also derived the context for
         # both numerator and the denominator. Finally a decision
         # can be made about the intention of the user.
-- 
2.43.0


From 8d517073a7a9becc854ed5e3c1edc96e377d7725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:43:56 +0000
Subject: [PATCH 61/76] fix: State refuses complex matrices

---
 harold/_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 59f4fdb..fa684f6 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2683,6 +2683,9 @@ class State:
                         print('Trying to np.array {0}'
                               ''.format(entrytext[abcd_index]))
 
+                    if np.iscomplexobj(abcd):
+                        raise ValueError('Complex matrices are not supported')
+
                     returned_abcd_list[abcd_index] = np.atleast_2d(
                                                 np.array(abcd, dtype='float')
                                                 )
-- 
2.43.0


From 9f5195ed6c72a08ecc82843afd2c5c0684240746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:58 +0000
Subject: [PATCH 62/76] fix: keep plotting when there are more systems than
 styles

---
 harold/_frequency_domain_plots.py | 5 +++--
 harold/_time_domain_plots.py      | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index c20b795..b8a991d 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -1,3 +1,4 @@
+from itertools import cycle
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -175,7 +176,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         if w is None and len(syslist) > 1:
             w = W[ind]
@@ -334,7 +335,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         if w is None and len(syslist) > 1:
             w = W[ind]
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index f057bc9..1888d14 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -1,3 +1,4 @@
+from itertools import cycle
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -93,7 +94,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys, sty in zip(syslist, style):
+    for sys, sty in zip(syslist, cycle(style)):
         yout, tout = simulate_step_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
-- 
2.43.0


From 34b1e79c2045ea0c878ab0b3c7c1b9af69192949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:02 +0000
Subject: [PATCH 63/76] fix: apply the given style in impulse_response_plot

---
 harold/_time_domain_plots.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index 1888d14..46128c9 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -187,14 +187,14 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys in syslist:
+    for sys, sty in zip(syslist, cycle(style)):
         yout, tout = simulate_impulse_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
             if sys._isdiscrete:
-                axs[0, 0].step(tout, yout, where='post')
+                axs[0, 0].step(tout, yout, where='post', **sty)
             else:
-                axs[0, 0].plot(tout, yout)
+                axs[0, 0].plot(tout, yout, **sty)
 
             axs[0, 0].grid(visible=True)
         else:
@@ -208,7 +208,9 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
                 for col in range(ncols):
                     getattr(axs[row, col], ptype)(tout, yout[:, row, col]
                                                   if yout.ndim == 3
-                                                  else yout[:, row], **w_dict)
+                                                  else yout[:, row],
+                                                  **w_dict,
+                                                  **sty)
                     axs[row, col].grid(visible=True)
     axs[0, 0].set_xlim(left=0, right=tmin)
     fig.text(0, .5, 'Amplitude', ha='center', va='center', rotation='vertical')
-- 
2.43.0


From 473a1f1e504c0d244a0d708302457cc89744c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:05 +0000
Subject: [PATCH 64/76] fix: leave the given gridspec_kw unchanged in the plot
 functions

---
 harold/_frequency_domain_plots.py | 6 ++----
 harold/_time_domain_plots.py      | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index b8a991d..eca2bb1 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -154,8 +154,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
@@ -313,8 +312,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index 46128c9..495712e 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -71,8 +71,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
@@ -165,8 +164,7 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
-- 
2.43.0


From dd8895e9ca9c631a9e44d64b22e754486b79f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:08 +0000
Subject: [PATCH 65/76] fix: use a separate frequency grid for each system in
 plots

---
 harold/_frequency_domain_plots.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index eca2bb1..6553658 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -88,7 +88,7 @@ def _get_common_freq_grid(syslist):
             lw1 = np.log10(w[-1])
             samples = (5 if syslist[ind]._isgain else
                        int(np.ceil((lmaxw - lw1) * ppd)))
-            W[ind] = np.hstack([w,
+            W[ind] = np.hstack([W[ind],
                                 np.logspace(start=lw1,
                                             stop=lmaxw,
                                             num=samples)])
@@ -172,12 +172,13 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
     # If multiple systems are given and no freq grid is given we need to find
     # the common freq grid.
-    if w is None and len(syslist) > 1:
+    no_grid = w is None and len(syslist) > 1
+    if no_grid:
         W = _get_common_freq_grid(syslist)
 
     for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
-        if w is None and len(syslist) > 1:
+        if no_grid:
             w = W[ind]
             if f_unit == 'Hz':
                 w /= 2*np.pi
@@ -330,12 +331,13 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
 
     # If multiple systems are given and no freq grid is given we need to find
     # the common freq grid.
-    if w is None and len(syslist) > 1:
+    no_grid = w is None and len(syslist) > 1
+    if no_grid:
         W = _get_common_freq_grid(syslist)
 
     for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
-        if w is None and len(syslist) > 1:
+        if no_grid:
             w = W[ind]
             if f_unit == 'Hz':
                 w /= 2*np.pi
-- 
2.43.0


From 19c8cff47a67e1e143aee364d149895b685e2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:12 +0000
Subject: [PATCH 66/76] fix: honor style and negative_freqs in nyquist_plot

---
 harold/_frequency_domain_plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 6553658..26ba78d 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -363,8 +363,10 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
                     rdata = rr[row, col, :]
                     idata = ii[row, col, :]
 
-                axs[row, col].plot(rdata, idata, '-')
-                axs[row, col].plot(rdata, -idata, '-.')
+                axs[row, col].plot(rdata, idata, **{'linestyle': '-', **sty})
+                if negative_freqs:
+                    axs[row, col].plot(rdata, -idata,
+                                       **{**sty, 'linestyle': '-.'})
                 axs[row, col].plot([-1], [0], 'b+')
                 axs[row, col].grid(True, which='both')
                 # MIMO Labels and gridding
-- 
2.43.0


From 5ce0c74a633dc5531df57fb34c425f4dfb3f7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:15 +0000
Subject: [PATCH 67/76] fix: unwrap the Bode phase of each channel on its own
 when some are zero

---
 harold/_frequency_domain_plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 26ba78d..b23e2d8 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -199,8 +199,10 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
         # Mask NaN values if any
         if np.isnan(fre).any():
-            pha = np.empty_like(fre, dtype=float)
-            pha[~np.isnan(fre)] = np.unwrap(np.angle(fre[~np.isnan(fre)]))
+            pha = np.full_like(fre, np.nan, dtype=float)
+            for ch in np.ndindex(fre.shape[:-1]):
+                ok = ~np.isnan(fre[ch])
+                pha[ch][ok] = np.unwrap(np.angle(fre[ch][ok]))
         else:
             pha = np.unwrap(np.angle(fre))
         if use_degree:
-- 
2.43.0


From 937b107083f094ec9466fb688b6c88f5aa3d7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:18 +0000
Subject: [PATCH 68/76] fix: accept line styles for discrete systems in
 bode_plot

---
 harold/_frequency_domain_plots.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index b23e2d8..c8247e1 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -227,15 +227,15 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
                 if isDiscrete:
                     label = f'sys_{ind}_in_{col}_out_{row}_mag_nyqline'
-                    axs[2*row, col].axvline(nyq, linestyle='dashed',
-                                            linewidth=2,
-                                            label=label,
-                                            **sty)
+                    axs[2*row, col].axvline(nyq, **{**sty,
+                                                   'linestyle': 'dashed',
+                                                   'linewidth': 2,
+                                                   'label': label})
                     label = f'sys_{ind}_in_{col}_out_{row}_phase_nyqline'
-                    axs[2*row+1, col].axvline(nyq, linestyle='dashed',
-                                              linewidth=2,
-                                              label=label,
-                                              **sty)
+                    axs[2*row+1, col].axvline(nyq, **{**sty,
+                                                     'linestyle': 'dashed',
+                                                     'linewidth': 2,
+                                                     'label': label})
 
                 axs[2*row, col].grid(True, which='both')
                 axs[2*row+1, col].grid(True, which='both')
-- 
2.43.0


From 858ecd35f5001c8ea691e6f28dc34816ed204390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:20 +0000
Subject: [PATCH 69/76] fix: H2 norm of zero gains and of discrete systems with
 feedthrough

---
 harold/_system_props.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 5aa1fd0..d4a7662 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -71,9 +71,14 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
     # 2-norm
     if p == 2:
         # Handle trivial infinities
-        if not np.allclose(T.d, np.zeros_like(T.d)) or (not T._isstable):
+        if not T._isstable:
+            return np.Inf
+        if T.SamplingSet == 'R' and not np.allclose(d, np.zeros_like(d)):
             return np.Inf
 
+        if T._isgain:
+            return norm(d)
+
         if T.SamplingSet == 'R':
             x = lyapunov_eq_solver(a.T, b @ b.T)
             return np.sqrt(np.trace(c @ x @ c.T))
-- 
2.43.0


From 68d59bd581e1aafcb6b6294c5ab4d82bf81a0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:26 +0000
Subject: [PATCH 70/76] fix: H-infinity norm of systems with zero input or
 output matrix

---
 harold/_system_props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index d4a7662..1a0c672 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -90,7 +90,7 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if not T._isstable:
             return np.Inf
 
-        if T._isgain:
+        if T._isgain or not np.any(b) or not np.any(c):
             return norm(d, ord=2)
 
         # Initial gamma0 guess
-- 
2.43.0


From 36017f6544b37f81aa6625c0f1c224b031e05792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:30 +0000
Subject: [PATCH 71/76] fix: H-infinity norm of discrete systems

---
 harold/_system_props.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 1a0c672..666fd8f 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -5,9 +5,10 @@ from scipy.linalg import solve, norm, eigvals, qr
 
 from ._array_validators import _assert_2d, _assert_square, _assert_finite
 from ._frequency_domain import frequency_response
-from ._classes import Transfer, transfer_to_state
+from ._classes import State, Transfer, transfer_to_state
 from ._solvers import lyapunov_eq_solver
 from ._arg_utils import _check_for_state_or_transfer
+from ._discrete_funcs import undiscretize
 
 __all__ = ['system_norm', 'controllability_indices']
 
@@ -93,6 +94,11 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if T._isgain or not np.any(b) or not np.any(c):
             return norm(d, ord=2)
 
+        # The norm is invariant under the bilinear transformation
+        if T.SamplingSet == 'Z':
+            T = undiscretize(State(a, b, c, d, 2.), method='tustin')
+            a, b, c, d = T.matrices
+
         # Initial gamma0 guess
         # Get the max of the largest svd of either
         #   - feedthrough matrix
-- 
2.43.0


From 09bd23e27894884b9ea8c27b145027f300ea3a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:49:34 +0000
Subject: [PATCH 72/76] fix: pivot in the frequency response of State models

---
 harold/_frequency_domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 2b7b3e9..92b2db5 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -155,6 +155,8 @@ def _State_freq_resp(mA, mb, sc, f, dt=None):
         U[:, :] = Ab  # Working copy
         U[imag_indices] += val*1j if dt is None else np.exp(dt*val*1j)
         for x in range(1, nn):
+            if abs(U[x, x-1]) > abs(U[x-1, x-1]):
+                U[[x-1, x], :] = U[[x, x-1], :]
             U[x, x:] -= (U[x, x-1] / U[x-1, x-1]) * U[x-1, x:]
 
         r[ind, :] = U[-1, -m:] / U[-1, -1-m]
-- 
2.43.0


From 9baa505c43ed718f785a6825143bc116175c0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:43 +0000
Subject: [PATCH 73/76] fix: keep a real zero that remains after a cancellation

A zero of multiplicity two that cancels with a single pole was split into a
numpy scalar and added to the list of remaining zeros elementwise, so the zero
that should stay was lost.
---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 17cc6dc..43ceed4 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -515,7 +515,7 @@ def _minimal_realization_simplify(num, den, tol):
                     plz = np.delete(plz, match_index)
                 else:
                     # It was a real/complex cancellation, make the zero real
-                    safe_z += np.real(z)
+                    safe_z += [np.real(z)]
 
             elif not bool_cz and bool_cp:
                 # Same with above but this time we convert the other pole
-- 
2.43.0


From 6de94371a5f290ab211cb5c9aa8e0b7682a67877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:48:20 +0000
Subject: [PATCH 74/76] fix: refuse a time array with fewer than two points in
 simulations

---
 harold/_time_domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 3a9ac5f..ea8ef8c 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -451,6 +451,9 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
         t = np.array(t, dtype=float).squeeze()
         if t.ndim != 1:
             raise ValueError('Time array needs to be a 1D array.')
+        if t.size < 2:
+            raise ValueError('Time array should have at least two data '
+                             'points.')
         t_diff = np.diff(t)
         if not np.allclose(t_diff, t_diff[0]) or not t_diff[0] > 0.:
             raise ValueError('Time array should be equally spaced and '
-- 
2.43.0


From a142c2b811f8b7a728362e4825557cd7d38dc791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:48:34 +0000
Subject: [PATCH 75/76] fix: products of models with one- and zero-dimensional
 arrays

---
 harold/_classes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index fa684f6..25fd5c1 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -893,7 +893,7 @@ class Transfer:
                 for c in range(tm):
                     t_G = Transfer(0, 1, dt=self._dt)
                     for ind in range(self._m):
-                        t_G += self[r, ind] * other[ind, [c]]
+                        t_G += self[r, ind] * arr[ind, [c]]
                     newnum[r][c] = t_G.num
                     newden[r][c] = t_G.den
 
@@ -2334,7 +2334,7 @@ class State:
                                  'supported.')
 
             if isinstance(other, np.ndarray):
-                if other.ndim == 1:
+                if other.ndim < 2:
                     if other.size == 1:
                         s = float(other)
                     else:
@@ -2343,7 +2343,8 @@ class State:
                     s = other.real
 
                 # Early shape check
-                if self._shape[1] != other.shape[0] and not self._isSISO:
+                if (isinstance(s, np.ndarray) and not self._isSISO
+                        and self._shape[1] != s.shape[0]):
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. State shape is {0}'
                                      ' but the array shape is {1}.'
@@ -2424,7 +2425,7 @@ class State:
                                  'supported.')
 
             if isinstance(other, np.ndarray):
-                if other.ndim == 1:
+                if other.ndim < 2:
                     if other.size == 1:
                         s = float(other)
                     else:
@@ -2433,7 +2434,8 @@ class State:
                     s = other.real
 
                 # Early shape check
-                if self._shape[0] != other.shape[1] and not self._isSISO:
+                if (isinstance(s, np.ndarray) and not self._isSISO
+                        and self._shape[0] != s.shape[1]):
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. Model shape is {0} but'
                                      ' the array shape is {1}.'
-- 
2.43.0


From 27ed78e494070d547ebdf11c485c0b44d4df198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:28:31 +0000
Subject: [PATCH 76/76] fix: greatest common divisor with a constant is one

---
 harold/_polynomial_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 0ede336..8381afd 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -231,7 +231,7 @@ def haroldgcd(*args):
         return np.array([1])
 
     if n > 0 and p == 0:
-        return arr_args.pop(max_degree_index)
+        return np.array([1])
 
     # pop out the max degree polynomial and zero pad
     # such that we have n+m columns
-- 
2.43.0

