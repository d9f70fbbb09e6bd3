From ce4cda4e78894222bb56c2e3b8bec99d825d3e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 01/70] fix: terminate the f-string in lam_tar_gyre that makes
 the package unimportable

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index 3551f9f..ec90460 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -86,7 +86,7 @@ class GyreLambdas:
                 sys.exit()
         else:
             logger.error(
-                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way.'
+                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way."
             )
             sys.exit()
 
-- 
2.43.0


From 63f423e3fffef56ca134616f51dc5e6eb8f42903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 02/70] fix: do not duplicate the minus sign of negative orders
 in GYRE lambda file names

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index ec90460..9d15d6b 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -106,7 +106,7 @@ class GyreLambdas:
         str
             The string representing the sign of the input number.
         """
-        return f'+{number}' if (number >= 0) else f'-{number}'
+        return f'+{number}' if (number >= 0) else f'{number}'
 
     @staticmethod
     def get_k(degree, azimuthal):
-- 
2.43.0


From 4ea93eb6b3dcbe918d7abb3458f07ec0cfcc2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 03/70] fix: reject arrays the quadrature kernel would read out
 of bounds

---
 cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx b/cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx
index 266c6a6..23d014a 100644
--- a/cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx
+++ b/cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx
@@ -36,6 +36,12 @@ def integrate(
     ):
     # compute the array size
     cdef int arrsize = integrand.shape[0]
+    # the kernel needs two grid points, and one grid point per integrand value
+    if arrsize < 2 or variable.shape[0] != arrsize:
+        raise ValueError(
+            'The integrand and the integration variable must have equal '
+            'lengths, and at least 2 elements.'
+            )
     # call the c/cython function wrapper
     return _integrate(
         arrsize, integration_method.encode('utf-8'), equally_spaced, integrand, variable,
-- 
2.43.0


From da1dccfb522487ed6f9d3c33631cc6f9ece253dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 04/70] fix: limb-darkening wrapper needs contiguous arrays of
 equal length

---
 cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
index 9218998..03d275a 100644
--- a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
+++ b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
@@ -11,7 +11,7 @@ import numpy as np
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef _comp(
-    int asize, double[:] kap, double[:] res,
+    int asize, double[::1] kap, double[::1] res,
     cpp_string myselvar, int num_threads, cpp_bool paral
     ):
     # create pointer to LimbDarkeningFunctions object
@@ -25,11 +25,18 @@ cdef _comp(
 
 
 def compute(
-    double[:] kap, double[:] res,
+    double[::1] kap, double[::1] res,
     str myselvar, int num_threads, cpp_bool paral
     ):
     # compute the array size
     cdef int asize = kap.shape[0]
+    # the kernel stores one result per mu value
+    if asize < 1 or res.shape[0] != asize:
+        raise ValueError(
+            'The mu and result arrays must have equal, nonzero lengths.'
+            )
+    if paral and num_threads < 1:
+        raise ValueError('The number of threads must be positive.')
     # compute the ld function
     _comp(
         asize, kap, res, myselvar.encode('utf-8'),
-- 
2.43.0


From fc80321ec8e2f746b72be3212a39b71f1bd496c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 05/70] fix: reject arrays the disc integral kernel would read
 out of bounds

---
 .../disc_integrator/libcpp_disc_integration.pyx    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx b/cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx
index 36b153c..003caf4 100644
--- a/cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx
+++ b/cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx
@@ -39,6 +39,20 @@ def get_integrals(
     ):
     # get the array size
     cdef int origi = mus.shape[0]
+    cdef int i, visible = 0
+    # the kernel needs one value per mu, and two mu values on the visible disc
+    if (
+        angular_function.shape[0] != origi or first_mu_der.shape[0] != origi
+        or second_mu_der.shape[0] != origi
+    ):
+        raise ValueError('The input arrays must have equal lengths.')
+    for i in range(origi):
+        if 0.0 <= mus[i] <= 1.0:
+            visible += 1
+    if visible < 2:
+        raise ValueError('At least 2 mu values must lie within [0, 1].')
+    if paral and num_threads < 1:
+        raise ValueError('The number of threads must be positive.')
     # compute the disc factor integrals
     return _integrals(
         origi, mus, angular_function, first_mu_der,
-- 
2.43.0


From ee8e68fe70933d27c341ff98c51043dab3436839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 06/70] fix: bound derivative and accuracy orders of the
 Fornberg kernel

---
 fornberg-num-deriv/fornberg_num_deriv/f90wrap_fornberg.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fornberg-num-deriv/fornberg_num_deriv/f90wrap_fornberg.f90 b/fornberg-num-deriv/fornberg_num_deriv/f90wrap_fornberg.f90
index b75efb0..3f06369 100644
--- a/fornberg-num-deriv/fornberg_num_deriv/f90wrap_fornberg.f90
+++ b/fornberg-num-deriv/fornberg_num_deriv/f90wrap_fornberg.f90
@@ -10,6 +10,8 @@ subroutine fornberg_grid_derivative(iorder, iaccuracy, grid, u, du, n)
     real(8), intent(inout), dimension(n) :: du
     integer :: n
     !f2py intent(hide), depend(grid) :: n = shape(grid,0) 
+    !f2py integer, intent(in), check(iorder>=0 && iorder<8) :: iorder
+    !f2py integer, intent(in), depend(grid), check(iaccuracy>=0 && iaccuracy<20 && iaccuracy<shape(grid,0)) :: iaccuracy
     call grid_derivative(iorder=iorder, iaccuracy=iaccuracy, grid=grid, ngrid=n, u=u, du=du)
 end subroutine fornberg_grid_derivative
 
-- 
2.43.0


From b70ec66164ee642d91067281e19cefb36d19fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 07/70] fix: interpolation grid of the differentiator contains
 the input grid points

---
 num-tools/num_deriv/num_deriv.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/num-tools/num_deriv/num_deriv.py b/num-tools/num_deriv/num_deriv.py
index 3705dd7..d070c4a 100644
--- a/num-tools/num_deriv/num_deriv.py
+++ b/num-tools/num_deriv/num_deriv.py
@@ -271,10 +271,14 @@ class NumericalDifferentiator:
         if self._perform_interpolation:
             # get the linear 1D interpolation
             _interpolator = interp1d(x, y)
-            _x = np.linspace(
-                x.min(),
-                x.max(),
-                num=((x.shape[0]) * self._interpolation_factor) - 1,
+            # (each grid interval is divided into equal parts, so that
+            # the interpolation grid contains all input grid points)
+            _nr_x = x.shape[0]
+            _x = np.interp(
+                np.arange((_nr_x - 1) * self._interpolation_factor + 1)
+                / self._interpolation_factor,
+                np.arange(_nr_x),
+                x,
             )
             _y = _interpolator(_x)
         else:
@@ -291,7 +295,7 @@ class NumericalDifferentiator:
         # check if sub-sampling needs to be done after interpolation
         if self._perform_interpolation:
             # perform the mapping from one to the other
-            _map_idx = np.in1d(_x, x).nonzero()[0]
+            _map_idx = slice(None, None, self._interpolation_factor)
             der_sub_sample = []
             # perform sub-sampling
             for _my_der in derivatives[0]:
-- 
2.43.0


From 6615fd6bc4c6c71e30c16d09c53f0c79bf8db693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 08/70] fix: exact, tuple-based pairing functions and inverses
 (also for equal integers)

---
 .../pairing_functions/cantor_pairing.py       | 17 ++++++-------
 .../pairing_functions/symmetric_pairing.py    | 16 +++++++------
 .../pairing_functions/xie_pairing.py          | 24 +++++++++----------
 3 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/py-combinations/pairing_functions/cantor_pairing.py b/py-combinations/pairing_functions/cantor_pairing.py
index 11c5d77..451302d 100644
--- a/py-combinations/pairing_functions/cantor_pairing.py
+++ b/py-combinations/pairing_functions/cantor_pairing.py
@@ -3,8 +3,7 @@
 Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import modules
-from math import floor
-import numpy as np
+from math import isqrt
 
 
 # Cantor pairing function
@@ -24,11 +23,11 @@ def cantor_pair(my_pair, lowest_integer=0):
         The paired/mapped integer.
     """
     # adjust the mapping pair: subtract the lowest integer considered
-    mapping_pair = my_pair - lowest_integer
+    mapping_pair = [int(_p) - int(lowest_integer) for _p in my_pair]
     # compute the sum of the mapping integer pair
-    int_sum = mapping_pair.sum()
+    int_sum = sum(mapping_pair)
     # compute and return the paired/mapped integer
-    return int((int_sum * (int_sum + 1)) / 2) + mapping_pair[1]
+    return (int_sum * (int_sum + 1)) // 2 + mapping_pair[1]
 
 
 # inverse of the Cantor pairing function
@@ -49,9 +48,11 @@ def invert_cantor_pair(cantor_integer, lowest_integer=0):
     """
     # For a tuple (x,y), w = x + y, t = (w^2 + w) / 2, cantor_integer = t + y
     # - intermediate variable definitions
-    _w = floor(0.5 * np.sqrt(8.0 * cantor_integer + 1.0) - 0.5)
-    _t = int(((_w * _w) + _w) / 2)
+    # (exact integer arithmetic)
+    cantor_integer = int(cantor_integer)
+    _w = (isqrt(8 * cantor_integer + 1) - 1) // 2
+    _t = ((_w * _w) + _w) // 2
     # - tuple generation
     reconstructed_tuple = (_w - cantor_integer + _t, cantor_integer - _t)
     # - return result
-    return reconstructed_tuple + lowest_integer  # type: ignore
+    return tuple(_r + int(lowest_integer) for _r in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 5c1f8cd..df79124 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -3,8 +3,7 @@
 Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import modules
-import numpy as np
-from math import floor
+from math import isqrt
 
 
 # implementation of a simplistic symmetric pairing function
@@ -27,9 +26,9 @@ def symmetric_pair(my_pair, lowest_integer=0):
     if my_pair[0] >= my_pair[1]:
         my_pair = my_pair[::-1]
     # compute the members of the mapping pair
-    a, b = np.array(my_pair) - lowest_integer + 1
+    a, b = (int(_p) - int(lowest_integer) + 1 for _p in my_pair)
     # return the mapped integer
-    return a + int((b * (b - 1)) / 2)
+    return a + (b * (b - 1)) // 2
 
 
 # inversion of the simplistic symmetric pairing function
@@ -49,9 +48,12 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
         The tuple/list that was mapped by the simplistic symmetric pairing function.
     """
     # compute intermediate quantities
-    _w = floor(0.5 * np.sqrt(8.0 * my_sym_number + 1.0) - 0.5)
-    _t = int(((_w * _w) + _w) / 2)
+    # (exact integer arithmetic; pairs of equal integers map onto the
+    # triangular numbers that terminate each range of values of '_w')
+    my_sym_number = int(my_sym_number)
+    _w = (isqrt(8 * (my_sym_number - 1) + 1) - 1) // 2
+    _t = ((_w * _w) + _w) // 2
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
     # return the previously mapped tuple
-    return reconstructed_tuple + lowest_integer - 1
+    return tuple(_r + int(lowest_integer) - 1 for _r in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/xie_pairing.py b/py-combinations/pairing_functions/xie_pairing.py
index 773e51e..bb5cb64 100644
--- a/py-combinations/pairing_functions/xie_pairing.py
+++ b/py-combinations/pairing_functions/xie_pairing.py
@@ -7,8 +7,7 @@ See https://ui.adsabs.harvard.edu/abs/2021arXiv210510752X/abstract
 Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import modules
-import numpy as np
-from math import floor
+from math import isqrt
 
 
 # accented sign function defined by Xie
@@ -25,11 +24,11 @@ def sgn_accent(num):
     int
         The result of the accented sign function applied to 'num'.
     """
-    return int((np.abs(np.sign(num)) + np.sign(num)) / 2)
+    return int(num > 0)
 
 
 # Xie pairing function
-def xie_symmetric_pair(my_pair, lowest_integer):
+def xie_symmetric_pair(my_pair, lowest_integer=0):
     """Xie binary pairing function.
 
     Parameters
@@ -48,17 +47,17 @@ def xie_symmetric_pair(my_pair, lowest_integer):
     if my_pair[0] < my_pair[1]:
         my_pair = my_pair[::-1]
     # adjust radial orders to generate the mapping pair
-    map_pair: np.ndarray = np.array(my_pair) - lowest_integer + 1
+    map_pair = [int(_p) - int(lowest_integer) + 1 for _p in my_pair]
     # compute intermediate values, following Xie
-    int_sum = map_pair.sum() - 1
-    minint = int((map_pair.sum() - np.abs(map_pair[0] - map_pair[1])) / 2)
+    int_sum = sum(map_pair) - 1
+    minint = min(map_pair)
     mod_int = int_sum % 2
     # return the mapping result
-    return int(((int_sum * int_sum) - mod_int) / 4) + minint
+    return ((int_sum * int_sum) - mod_int) // 4 + minint
 
 
 # inverted Xie pairing function
-def invert_xie_symmetric_pair(xie_number, lowest_integer):
+def invert_xie_symmetric_pair(xie_number, lowest_integer=0):
     """Inversion of the Xie binary pairing function.
 
     Parameters
@@ -74,13 +73,14 @@ def invert_xie_symmetric_pair(xie_number, lowest_integer):
         The tuple/list that was mapped by the Xie pairing function.
     """
     # compute intermediate values
-    _t = floor(np.sqrt(xie_number))
+    xie_number = int(xie_number)
+    _t = isqrt(xie_number)
     _tsq = _t * _t
-    _a = int(np.sign(xie_number - _tsq))
+    _a = int(xie_number > _tsq)
     _b = sgn_accent(xie_number - _tsq - _t)
     _first_fac = (1 - _a) * _t
     # compute the members of the reconstructed pair
     m = _first_fac + _a * ((_t + 1) * (_t + 1 + _b) - xie_number)
     n = _first_fac + _a * (xie_number - (_t * (_t + _b)))
     # return the reconstructed pair
-    return (m, n) + lowest_integer - 1
+    return tuple(_r + int(lowest_integer) - 1 for _r in (m, n))
-- 
2.43.0


From b3323fe336cc8643acf637c24c48a5357ae731e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 09/70] fix: symmetric products list each pair once, first
 element from the first set

---
 .../py_combinations/symmetric_product.py      | 26 +++++++------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/py-combinations/py_combinations/symmetric_product.py b/py-combinations/py_combinations/symmetric_product.py
index 678fc3d..0439e18 100644
--- a/py-combinations/py_combinations/symmetric_product.py
+++ b/py-combinations/py_combinations/symmetric_product.py
@@ -3,7 +3,6 @@
 Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import necessary modules
-from itertools import combinations
 from math import comb
 import logging
 
@@ -31,8 +30,6 @@ class SymmetricProductCombos(GenericCombination):
     # attribute type declarations
     _A: set
     _B: set
-    _A_combs: set
-    _B_combs: set
     include_diagonal: bool
     _diagonal_cardinality: int
 
@@ -47,9 +44,6 @@ class SymmetricProductCombos(GenericCombination):
             logger.exception(
                 f'Input is not iterable and cannot be converted to a set. (A: {A}, B: {B}, include_diagonal: {include_diagonal}) Now exiting.'
             )
-        # compute combinations of elements in individual input sets/lists/arrays
-        self._A_combs = set(combinations(A, 2))
-        self._B_combs = set(combinations(B, 2))
         # store whether you want to include overlapping elements
         self.include_diagonal = include_diagonal
         # compute the symmetric product of combinations
@@ -61,18 +55,16 @@ class SymmetricProductCombos(GenericCombination):
 
     def _compute_combinations(self):
         """Compute the generic set of symmetric pairs of elements of two sets/lists/arrays, taking any overlap into account."""
-        # compute auxiliary variables
-        # - pairs of elements in union of input sets/lists/arrays
-        _A_union_B_combs = set(combinations(self._A | self._B, 2))
-        # - pairs of elements that uniquely exist in the input sets/lists/arrays
-        _A_min_B = set(combinations(self._A - self._B, 2))
-        _B_min_A = set(combinations(self._B - self._A, 2))
-        # compute different terms that contribute to the list of symmetric pairings between two sets
-        _first_term = _A_union_B_combs - (self._A_combs | self._B_combs)
-        _second_term = self._A_combs - _A_min_B
-        _third_term = self._B_combs - _B_min_A
+        # compute each (unordered) pair of different elements only once, with
+        # the first element taken from A, and the second element taken from B
+        # (does not depend on the order in which set elements are retrieved)
+        _pairs = set()
+        for _a in self._A:
+            for _b in self._B:
+                if (_a != _b) and ((_b, _a) not in _pairs):
+                    _pairs.add((_a, _b))
         # store the list of symmetric pairs of elements that are not in the union of the two input sets
-        self._value = list(_first_term | _second_term | _third_term)
+        self._value = list(_pairs)
 
     def _compute_cardinality(self):
         """Compute the cardinality of the symmetric product set."""
-- 
2.43.0


From e0550f02e5b3497899ff11f038503c008993c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 10/70] fix: second derivatives of the radial Hough function
 keep its parity

---
 hough-func-tools/hough_function/hough_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 113c5d7..521825b 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -332,7 +332,7 @@ class HoughFunction:
             Parity-adjusted (second derivative of radial Hough function) part of the theta-space ranging from mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
@@ -345,7 +345,7 @@ class HoughFunction:
             Parity-adjusted second theta derivative of the radial Hough function for mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
-- 
2.43.0


From 91ae36ab3724ef8e805a085034e5d5e6a2b0d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 11/70] fix: derivative of the azimuthal Hough function follows
 its sign convention

---
 hough-func-tools/hough_function/hough_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 521825b..0411c96 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -869,6 +869,9 @@ class HoughFunction:
                 )
                 / self._s**3.0
             )
+            # adjust sign if necessary (same sign as Hp)
+            if self._my_instructions['adjust_phi_sign']:
+                self._hpp *= -1.0
             # adjust form if necessary (GYRE definition)
             if self._my_instructions['sin_factor']:
                 self._hpp = (self._s * self._hpp) - (
-- 
2.43.0


From 8bf0cad126d9da75ce729456491c76d92bf1b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 12/70] fix: mode input generator lists each pair of daughter
 radial orders once

---
 .../mode_input_generator/input_generator.py   | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/aesolver/aesolver/mode_input_generator/input_generator.py b/aesolver/aesolver/mode_input_generator/input_generator.py
index fd8968b..3e28133 100644
--- a/aesolver/aesolver/mode_input_generator/input_generator.py
+++ b/aesolver/aesolver/mode_input_generator/input_generator.py
@@ -8,7 +8,7 @@ import statistics
 import numpy as np
 
 # from custom modules import combination computation objects
-from py_combinations import SingleSetCombos, SymmetricProductCombos
+from py_combinations import CartesianCombos, SingleSetCombos
 
 
 # set up the logger
@@ -90,14 +90,22 @@ class AdNadModeInfoInputGenerator:
         list[tuple]
             Contains tuples of radial orders of second-order combinations of damped modes.
         """
-        # initialize the object
-        my_object = SymmetricProductCombos(
-            A=self._damped_rad_order_range_1,
-            B=self._damped_rad_order_range_2,
-            include_diagonal=include_diagonal,
+        # the two ranges belong to different daughter modes: retrieve all
+        # combinations of different radial orders
+        my_object = CartesianCombos(
+            set_A=self._damped_rad_order_range_1,
+            set_B=self._damped_rad_order_range_2,
         )
+        _combinations = [_c for _c in my_object.l if _c[0] != _c[1]]
+        # add the combinations of equal radial orders, if necessary
+        if include_diagonal:
+            _combinations += [
+                (_n, _n)
+                for _n in set(self._damped_rad_order_range_1)
+                & set(self._damped_rad_order_range_2)
+            ]
         # return the combination list
-        return my_object.l
+        return _combinations
 
     def _get_damped_combinations_single_range(self) -> list[tuple]:
         """Utility method that generates second-order combinations of radial orders for the damped modes in a parametric resonance.
-- 
2.43.0


From 7cd0314eadffd645f3df9e2fecad47a7027f00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 13/70] fix: verbose histograms pass the bin width under the
 name the printer expects

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 histogram_maker/hogg_jacky/numpy_iterator_jacky.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 265854f..9d39add 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -592,7 +592,7 @@ def hogg_jackknife_likelihood_blas(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6cef928..4a8a6c6 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -469,7 +469,7 @@ def hogg_jackknife_likelihood_cython(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index aca69e0..05c5151 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -550,7 +550,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 66b77ef..e4d82bc 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -342,7 +342,7 @@ def hogg_jackknife_likelihood_numpy(
                 # if verbose: print output
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=max_bin_width, max_combo=_max_combo
+                        max_bin_width_edges=max_bin_width, max_combo=_max_combo
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
@@ -516,7 +516,7 @@ def hogg_jackknife_likelihood_iterator(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width, max_combo=my_combination
+                        max_bin_width_edges=my_bin_width, max_combo=my_combination
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
-- 
2.43.0


From 8f4054437266b40f51e2d6c67e2cdb904bd38372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 14/70] fix: fixed-width histograms pass the bin width under
 the name of the parameter

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 4a8a6c6..8605311 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -809,7 +809,7 @@ def histogram_cython_spec_width(
         # get the histogram counts
         hist_counts = _cython_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 05c5151..17ac80f 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -838,7 +838,7 @@ def histogram_numexpr_spec_width(
         # get the histogram counts
         hist_counts = _numexpr_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
-- 
2.43.0


From 538bd2bfbaf6cced2340af03280a1f354b678af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 15/70] fix: log-scaled numexpr histogram is normalised by the
 valued samples

---
 histogram_maker/hogg_jacky/numexpr_jacky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 17ac80f..84922a4 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -745,7 +745,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / empirical_probability_conversion_fac',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                             },
@@ -763,7 +763,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / (empirical_probability_conversion_fac * (ha - hb))',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                                 'ha': hist_edges[1:],
-- 
2.43.0


From b08e286e02b421b04577e484c0fed6bf3ee8e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 16/70] fix: BLAS density histogram divides by each bin's own
 width

---
 histogram_maker/hogg_jacky/blas_jacky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 9d39add..1407f29 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -211,7 +211,7 @@ def empirical_density_histogram_blas(
     # compute empirical density histogram and return it together with the bin edges
     try:
         return (
-            dscal(1.0 / (my_data.shape[0] * bin_width), count_histogram),
+            count_histogram / (my_data.shape[0] * bin_width),
             bin_edges,
             bin_width,
         )
-- 
2.43.0


From 02831c8c4a9ea9f3899d366334be021382da64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 17/70] fix: compiled jackknife likelihood counts the samples,
 not the bins

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 8605311..48f4e88 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -451,8 +451,8 @@ def hogg_jackknife_likelihood_cython(
                         use_parallel=use_parallel,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood
                     _my_jackknife_likelihood = _my_jacky_func(
@@ -644,8 +644,8 @@ def hogg_jackknife_likelihood_cython_log(
                         bin_phase=0.0,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood in a parallel or serial way
                     _my_jackknife_likelihood = _my_jacky_func(
-- 
2.43.0


From 90413134f2df02788210d7eaf1cc9df1d38f77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 18/70] fix: log-scaled histograms keep their empty last bins

---
 .../hogg_jacky/shared/shared_computation_functions.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
index dc02c41..146ef8c 100644
--- a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
+++ b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
@@ -189,7 +189,9 @@ def histogram_log_counts(
         f'Cannot use a constant binning phase ({binning_phase}), when generating log-transformed data histograms (whose bins are not of equal width).'
     )
     # return the histogram bin counts and edges
-    return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+    return np.bincount(
+        _binning_result, minlength=max(bin_nr, min_nr_bins)
+    ).astype(
         np.float64, copy=False
     )
 
-- 
2.43.0


From bb338e1d4646fb5c05d0be011771c56f630e9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 19/70] fix: corotating cyclic frequency follows from the
 angular one for inertial-frame input

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index 641d8a8..b0dcb56 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -876,7 +876,7 @@ class FrequencyHandler:
                     self._corot_mode_omegas[_i] = _convert_freq_omega.real - (
                         _m * self._rot_freq
                     )
-                    self._corot_mode_freqs[_i] = self._corot_mode_freqs[_i] / (
+                    self._corot_mode_freqs[_i] = self._corot_mode_omegas[_i] / (
                         2.0 * np.pi
                     )
                 else:
-- 
2.43.0


From 8c77930dc13ad182756475f2ac5d7c03a29bf013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 20/70] fix: dimensionless nonadiabatic frequencies are
 converted like the adiabatic ones

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index b0dcb56..a1efd66 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -1039,7 +1039,7 @@ class FrequencyHandler:
             # obtain the additional conversion functions for nonadiabatic input
             enummeta_nad = EnumGYREFreqConv.factor_from_dict
             return [
-                enummeta_nad(_m_dict_n, self._requested_units)
+                enummeta_nad(_m_dict_n, self._requested_units, no_exit=True)
                 for _m_dict_n in gyre_nad_dicts
             ]
 
-- 
2.43.0


From c2ad6baeaedaa9622be22d97dda2a1990719cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 21/70] fix: dimensioning time is the inverse of the frequency
 unit conversion

---
 .../enumeration_freq_converter_normalization.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index a438b76..a01bf6e 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -383,7 +383,7 @@ class EnumerationGYREFreqConverter(Enum):
         # compose the dimensioning factor conversion function
         if is_angular:
             # the conversion factor needs to be in the correct cyclic frequency unit: therefore one needs to divide by the nr. of radians included in the angular frequency conversion factor
-            return lambda dim_fac: _req_fac(dim_fac) / (2.0 * np.pi)
+            return lambda dim_fac: dim_fac * (2.0 * np.pi) / _req_fac(1.0)
         else:
-            # no conversion needs to be done with respect to angularity of the frequency (conversion only needs to take care of difference between Hz and cpd)
-            return _req_fac
+            # no conversion needs to be done with respect to angularity of the frequency (conversion only needs to take care of difference between Hz and cpd). The dimensioning factor is a time: it is divided by the frequency unit conversion factor.
+            return lambda dim_fac: dim_fac / _req_fac(1.0)
-- 
2.43.0


From 149fa079e08f93e93774be88c361703ab3bb6b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 22/70] fix: selection rules of several triads use the orders
 and conjugation of each triad

---
 .../pre_checks/generic/generic_quadratic_checks.py        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 813cfb5..5c59913 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -58,7 +58,7 @@ class PreCheckQuadratic:
         if triads is None:
             triads = [(1, 2, 3)]
         if conjugation is None or isinstance(conjugation[0], bool):
-            conjugation = [(True, False, False)]
+            conjugation = [(True, False, False)] * len(triads)
         # store the boolean that dictates how outputs are generated
         self._all_fulfilled = all_fulfilled
         # store the mode info object
@@ -171,10 +171,10 @@ class PreCheckQuadratic:
         # get the respective l and m lists
         _l_list = self._l_list[lm_index]
         _m_list = self._m_list[lm_index]
-        # return the meridional order list
+        # return the meridional order list (the l and m lists are
+        # already those of the modes selected by 'my_mode_nrs')
         return [
-            self._compute_k_grav_in(_l_list[mnr - 1], _m_list[mnr - 1])
-            for mnr in my_mode_nrs
+            self._compute_k_grav_in(_l, _m) for _l, _m in zip(_l_list, _m_list)
         ]
 
     # utility method used to perform 'm' conjugation
-- 
2.43.0


From 61f8259465ecd2279cf6bd50e4042a7838667f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 23/70] fix: amplitude derivatives in the Jacobian of
 parametric triads have the right sign

---
 .../hyperbolicity/hyperbolicity_checker.py    | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
index 678efa8..a50a7a8 100644
--- a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
+++ b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
@@ -90,30 +90,32 @@ def jacobian_in_fp_real_four_ae_system(
     qsq_over_qf = q**2.0 / qf  # (2*eta*q) / sqrt(1+q^2)
     # fill up the jacobian elements
     jac[np.diag_indices(3)] = gammas  # (g1,g2,g3)
+    # the nonlinear term of each amplitude equation is -g_i * a_i in the
+    # fixed point, so its derivative with respect to a_j is -g_i * a_i / a_j
     jac[0, 1] = (
-        omegas[0] * sqrt12
-    )  # o1 * sqrt((-g1*g2)/(o1*o2)) = sqrt(-g1*o1*g2/o2)
+        -gammas[0] * sqrt23 / sqrt13
+    )  # -g1 * sqrt((-o1*g2)/(g1*o2)) = -sgn(g1) * sqrt(-g1*o1*g2/o2)
     jac[0, 2] = (
-        omegas[0] * sqrt13
-    )  # o1 * sqrt((-g1*g3)/(o1*o3)) = sqrt(-g1*o1*g3/o3)
+        -gammas[0] * sqrt23 / sqrt12
+    )  # -g1 * sqrt((-o1*g3)/(g1*o3)) = -sgn(g1) * sqrt(-g1*o1*g3/o3)
     jac[0, 3] = (
         qf * gammas[0] * sqrt23
     )  # (q*sqrt(1+q^2)/(2*eta))*(g1)*sqrt((g2*g3)/(o2*o3)) = (q*g1/(2*eta))*sqrt((1+q^2)*g2*g3/(o2*o3))
     jac[1, 0] = (
-        -omegas[1] * sqrt12
-    )  # -o2 * sqrt((-g1*g2)/(o1*o2)) = -sqrt(-g1*o2*g2/o1)
+        -gammas[1] * sqrt13 / sqrt23
+    )  # -g2 * sqrt((-g1*o2)/(o1*g2)) = -sgn(g2) * sqrt(-g1*o2*g2/o1)
     jac[1, 2] = (
-        -omegas[1] * sqrt23
-    )  # -o2 * sqrt((g2*g3)/(o2*o3)) = -sqrt(g2*o3*g3/o2)
+        -gammas[1] * sqrt13 / sqrt12
+    )  # -g2 * sqrt((o2*g3)/(g2*o3)) = -sgn(g2) * sqrt(g2*o2*g3/o3)
     jac[1, 3] = (
         qf * gammas[1] * sqrt13
     )  # (q*sqrt(1+q^2)/(2*eta))*(g2)*sqrt((-g1*g3)/(o1*o3)) = (q*g2/(2*eta))*sqrt((1+q^2)*(-g1*g3)/(o1*o3))
     jac[2, 0] = (
-        -omegas[2] * sqrt13
-    )  # -o3 * sqrt((-g1*g3)/(o1*o3)) = -sqrt(-g1*o3*g3/o1)
+        -gammas[2] * sqrt12 / sqrt23
+    )  # -g3 * sqrt((-g1*o3)/(o1*g3)) = -sgn(g3) * sqrt(-g1*o3*g3/o1)
     jac[2, 1] = (
-        -omegas[2] * sqrt23
-    )  # -o3 * sqrt((g2*g3)/(o2*o3)) = -sqrt(g2*o3*g3/o2)
+        -gammas[2] * sqrt12 / sqrt13
+    )  # -g3 * sqrt((g2*o3)/(o2*g3)) = -sgn(g3) * sqrt(g2*o3*g3/o2)
     jac[2, 3] = (
         qf * gammas[2] * sqrt12
     )  # (q*sqrt(1+q^2)/(2*eta))*(g3)*sqrt((-g1*g2)/(o1*o2)) = (q*g3/(2*eta))*sqrt((1+q^2)*(-g1*g2)/(o1*o2))
-- 
2.43.0


From 851482ef5818a93aded77d6ea1b0caaa2c016873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 24/70] fix: Jacobian of the harmonic system is that of its
 amplitude equations

---
 .../hyperbolicity/hyperbolicity_checker.py      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
index a50a7a8..54f3036 100644
--- a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
+++ b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
@@ -177,17 +177,22 @@ def jacobian_in_fp_real_three_ae_system(
     qf = qsqrt / deta  # q*sqrt(1+q^2) / (2*eta)
     qsq_over_qf = q**2.0 / qf  # (2*eta*q) / sqrt(1+q^2)
     # fill up the jacobian elements
-    jac[np.diag_indices(2)] = gammas[:-1]  # (g1,g2)
-    jac[0, 1] = np.sqrt(-og[0] * inv_quality[1])  # sqrt(-g1*o1 * g2 / o2)
+    # (the nonlinear terms of the amplitude equations are -g1 * a1 and -g2 * a2 in the fixed point, are quadratic in a2 and linear in a1 * a2, respectively; the sign of g1 (of g2) is absorbed in a2 (in a1))
+    sgn = np.sign(gammas[0])
+    jac[0, 0] = gammas[0]  # g1
+    jac[0, 1] = sgn * np.sqrt(
+        -2.0 * og[0] * inv_quality[1]
+    )  # -2*g1*a1/a2 = sgn(g1) * sqrt(-2*g1*o1 * g2 / o2)
+    jac[1, 1] = 0.0  # g2 - g2
     jac[0, 2] = (
         qf * gammas[0] * inv_quality[1]
     )  # (q*sqrt(1+q^2)/(2*eta))*(g1*g2/o2)
-    jac[1, 0] = -np.sqrt(
+    jac[1, 0] = -sgn * np.sqrt(
         (-2.0 * inv_quality[0] * og[1])
-    )  # -sqrt((-2*g1*g2*o2)/(o1))
+    )  # -g2*a2/a1 = -sgn(g1) * sqrt((-2*g1*g2*o2)/(o1))
     jac[1, 2] = (
-        gammas[1] * qf * sqrt12
-    )  # g1 * (q*sqrt(1+q^2)/(2*eta)) * sqrt(-2*g1*g2/(o1*o2))
+        sgn * gammas[1] * qf * sqrt12
+    )  # sgn(g1) * g2 * (q*sqrt(1+q^2)/(2*eta)) * sqrt(-2*g1*g2/(o1*o2))
     jac[2, 0] = (
         qsq_over_qf * (gplus - (2.0 * gammas[0])) / inv_quality[1]
     )  # 2*q*sqrt(1+q^2)*(2*g2-g1)*(o2/g2)
-- 
2.43.0


From d5a2244a59f1bd21aed976fd3c71ab828ca6cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 25/70] fix: Hough norm integrates over the actual (Chebyshev)
 grid, not an equally spaced one

---
 hough-func-tools/hough_function/hough_normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hough-func-tools/hough_function/hough_normalizer.py b/hough-func-tools/hough_function/hough_normalizer.py
index e83980c..46a7130 100644
--- a/hough-func-tools/hough_function/hough_normalizer.py
+++ b/hough-func-tools/hough_function/hough_normalizer.py
@@ -137,7 +137,7 @@ class HoughNormalizer(Enum):
         _integrand = hr**2.0
         # compute the normalization integral numerically
         _norm_integral = cni.integrate(
-            'trapz', True, _integrand, mu, nr_omp_threads, use_parallel
+            'trapz', False, _integrand, mu, nr_omp_threads, use_parallel
         )
         # use that value to compute and return the normalizing (multiplicative) factor
         return 1.0 / np.sqrt(2.0 * np.pi * _norm_integral)
-- 
2.43.0


From 8a5495a7ccc470809629895de6c4e84c71888f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 26/70] fix: angular integrals use the actual (Chebyshev) grid;
 blow-ups of either sign are protected

---
 .../rotating_tar_angular/hough_integration.py               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index 81ce013..9598b13 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -212,14 +212,14 @@ class HoughIntegration(Enum):
                 # perform usual integration method
                 regular_result = cni.integrate(
                     num_integ_method,
-                    True,
+                    False,
                     _new_integrand,
                     _mu_arr,
                     nr_omp_threads,
                     use_parallel,
                 )
                 # check for blow-ups
-                if regular_result > cheby_blow_up_factor:
+                if abs(regular_result) > cheby_blow_up_factor:
                     # BLOW-UP: perform CG quadrature
                     if not div_by_sin:
                         my_interpolator = interp1d(
@@ -252,7 +252,7 @@ class HoughIntegration(Enum):
                 # compute integral in mu-space
                 return cni.integrate(
                     num_integ_method,
-                    True,
+                    False,
                     _integrand,
                     _mu_arr,
                     nr_omp_threads,
-- 
2.43.0


From a14e4ffbeb3bf55a7f568bccb48183db4cf086b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 27/70] fix: theta-phi and phi-phi Hough terms use the
 azimuthal order in the convention of Lee (2012)

---
 hough-func-tools/hough_function/hough_function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 0411c96..e9d2c86 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -603,9 +603,9 @@ class HoughFunction:
             and self.neg_mu_hp is not None
         ):
             # get positive mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            pos_mu_part = ((self._m * self._ht) - (self._mu * self._hp))[::-1]
+            pos_mu_part = (-(self._m * self._ht) - (self._mu * self._hp))[::-1]
             # get negative mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            neg_mu_part = (self._m * self.neg_mu_ht) - (
+            neg_mu_part = -(self._m * self.neg_mu_ht) - (
                 self.neg_mu * self.neg_mu_hp
             )
             return np.concatenate([neg_mu_part, pos_mu_part])
@@ -629,11 +629,11 @@ class HoughFunction:
         ):
             # get positive mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             pos_mu_part = (
-                ((self._mu * self._ht) - (self._m * self._hp)) / self._s
+                ((self._mu * self._ht) + (self._m * self._hp)) / self._s
             )[::-1]
             # get negative mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             neg_mu_part = (
-                (self.neg_mu * self.neg_mu_ht) - (self._m * self.neg_mu_hp)
+                (self.neg_mu * self.neg_mu_ht) + (self._m * self.neg_mu_hp)
             ) / self._s
             # return complete part
             return np.concatenate([neg_mu_part, pos_mu_part])
-- 
2.43.0


From 0f72f38b88bd11a81e300ac7875556a98bf2b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 28/70] fix: numerical derivatives of complex-valued arrays no
 longer raise

---
 .../coefficient_support_classes/super_coupling_coefficients.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33e4a21..783692a 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1388,6 +1388,7 @@ class SuperCouplingCoefficient:
                 kwargs_diff=kwargs_diff,
                 print_statement=False,
             )
+            _num_der_string = 'Derivatives of a complex-valued array.'
             # check if you want to compute complex derivatives
             if self._use_complex:
                 # compute the complex part (in a nested way)
-- 
2.43.0


From bb2380021a5c6ea4690a58e9e40a985102121818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 29/70] fix: self-coupling keeps the factors of the angular
 terms

---
 .../quadratic_coupling_coefficient_rotating.py            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 775fa1a..719cc1e 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1109,12 +1109,12 @@ class QuadraticCouplingCoefficientRotating(CCR):
             ):
                 _ang_integration_result = 0.0
                 # compute the angular integration result
-                for _ang_term, _div_by_sin_term in zip(
-                    angular_terms, div_by_sin
+                for _ang_term, _div_by_sin_term, _ang_fac in zip(
+                    angular_terms, div_by_sin, ang_factor
                 ):
                     if TYPE_CHECKING:
                         assert isinstance(_ang_term, list)
-                    _ang_integration_result += HI.quadratic_angular_integral(
+                    _ang_integration_result += _ang_fac * HI.quadratic_angular_integral(
                         my_obj=self,
                         m_list_for_azimuthal_check=self._m_list,
                         conj=self._conj_cc,
@@ -1132,7 +1132,7 @@ class QuadraticCouplingCoefficientRotating(CCR):
             else:
                 if TYPE_CHECKING:
                     assert isinstance(div_by_sin, bool)
-                _ang_integration_result = HI.quadratic_angular_integral(
+                _ang_integration_result = ang_factor[0] * HI.quadratic_angular_integral(
                     my_obj=self,
                     m_list_for_azimuthal_check=self._m_list,
                     conj=self._conj_cc,
-- 
2.43.0


From 042042bbddc4a9c5cfa934c2294eab993584d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 30/70] fix: complex radial integrals return a complex number
 and are not truncated

---
 .../quadratic_coupling_coefficient_rotating.py  | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 719cc1e..789c824 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -329,6 +329,7 @@ class QuadraticCouplingCoefficientRotating(CCR):
             if use_complex
             else self._compute_radial_integral_real
         )
+        self._integral_dtype = np.complex128 if use_complex else np.float64
         # initialize the superclass
         super().__init__(
             nr_modes=3,
@@ -789,7 +790,10 @@ class QuadraticCouplingCoefficientRotating(CCR):
             The result of the S operation and subsequent integration.
         """
         # initialize result arrays
-        _rad_results, _ang_results = np.empty(6), np.empty(6)
+        _rad_results, _ang_results = (
+            np.empty(6, dtype=self._integral_dtype),
+            np.empty(6),
+        )
         # get symmetrization dictionaries
         _rad_dict = self._symmetry_mapping(radial_terms)
         _ang_dict = self._symmetry_mapping(angular_terms)
@@ -863,7 +867,7 @@ class QuadraticCouplingCoefficientRotating(CCR):
         """
         # initialize result arrays
         _rad_results, _ang_results = (
-            np.empty((6, len(radial_terms))),
+            np.empty((6, len(radial_terms)), dtype=self._integral_dtype),
             np.empty(6),
         )
         # get symmetrization dictionary
@@ -939,7 +943,7 @@ class QuadraticCouplingCoefficientRotating(CCR):
         """
         # initialize result arrays
         _rad_results, _ang_results = (
-            np.empty(6),
+            np.empty(6, dtype=self._integral_dtype),
             np.empty((6, len(angular_terms))),
         )
         # get symmetrization dictionary
@@ -1020,7 +1024,7 @@ class QuadraticCouplingCoefficientRotating(CCR):
         """
         # initialize result arrays
         _rad_results, _ang_results = (
-            np.empty((6, len(radial_terms))),
+            np.empty((6, len(radial_terms)), dtype=self._integral_dtype),
             np.empty((6, len(angular_terms))),
         )
         # fill up the result arrays
@@ -1300,10 +1304,7 @@ class QuadraticCouplingCoefficientRotating(CCR):
             np.ascontiguousarray(integrand.imag), integrating_quantity, indexer
         )
         # retrieve and return the result array
-        result_array = np.empty((_imag.shape[0],), dtype=np.complex128)
-        result_array.real, result_array.imag = _real, _imag
-        # return the complex-valued result
-        return result_array
+        return np.complex128(complex(_real, _imag))
 
     # generic method that computes the real-valued radial integral
     def _compute_radial_integral_real(
-- 
2.43.0


From dc887efbd8ad8177010d7e9963d25603f230f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 31/70] fix: numerical density derivative of polytropes uses
 the density profile

---
 .../coefficient_support_classes/super_coupling_coefficients.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 783692a..c85a0f5 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1054,7 +1054,7 @@ class SuperCouplingCoefficient:
                 _, self._drho = self._compute_der(
                     _grad,
                     x=self._r_profile,
-                    y=self._rho,
+                    y=self._rho_profile,
                     kwargs_diff=kwargs_diff,
                 )
         else:
-- 
2.43.0


From 075d7ec19f4c0b46cf12caa3450a73a7bd4c6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 32/70] fix: polytropic structure on another grid is
 interpolated to that of the modes

---
 .../super_coupling_coefficients.py            | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index c85a0f5..92183f6 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -786,6 +786,9 @@ class SuperCouplingCoefficient:
             )
             # loop over the dictionary items
             for _k, _v in my_internal_structure_dict.items():
+                # check if it should be extracted
+                if _k in _exclude_list:
+                    continue
                 # do interpolation, set the interpolated attribute and add profile suffix to parameter to distinguish it
                 if (
                     isinstance(_v, float)
@@ -793,7 +796,7 @@ class SuperCouplingCoefficient:
                     or isinstance(_v, int)
                 ):
                     # no profile --> no interpolation
-                    setattr(self, f'_{_k}', _v)
+                    setattr(self, f'_{_k}_profile', _v)
                 else:
                     # profile --> needs interpolation
                     if self._use_polytropic:
@@ -1206,17 +1209,13 @@ class SuperCouplingCoefficient:
         if interp_necessary:
             # get the attribute
             _my_att = my_dict.get(my_attr)
-            # try interpolation to return GYRE-fitted attribute
-            if typing.TYPE_CHECKING:
-                assert isinstance(_my_att, np.ndarray)
-            if np.isnan(
-                my_interp := np.interp(
-                    self._x, radial_structure_profile, _my_att
-                )
-            ):  # if it is NaN, _my_att is None!
+            # interpolate to return GYRE-fitted attribute
+            if _my_att is None:
                 return None
             else:
-                return my_interp
+                if typing.TYPE_CHECKING:
+                    assert isinstance(_my_att, np.ndarray)
+                return np.interp(self._x, radial_structure_profile, _my_att)
         else:
             # no interpolation necessary: directly return attribute
             my_att = my_dict.get(my_attr)
@@ -1239,7 +1238,7 @@ class SuperCouplingCoefficient:
             The dictionary containing the attributes that need to be unpacked and stored in the object.
         """
         # compute the helper normalized radius model grid for possibly necessary interpolations
-        _help_r = self._r_profile / self._R_star
+        _help_r = my_dict['r'] / my_dict['r'].max()
         # check if interpolations are needed
         _interp_needed = not (_help_r.shape[0] == self._x.shape[0])
         # store common kwargs for interpolation
-- 
2.43.0


From f98f6dbdac2c7ccf37ce17f36ee3e2fe1334bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 33/70] fix: structure of the star is taken on the grid to
 which the modes are interpolated

---
 .../quadratic_coupling_coefficient_rotating.py            | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 789c824..1087715 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -340,14 +340,16 @@ class QuadraticCouplingCoefficientRotating(CCR):
             store_debug=store_debug,
             analytic_polytrope=analytic_polytrope,
         )
-        # store the common attributes for all the modes
-        super()._extract_common_info_dictionary(my_dict=first_dict)
-        # store the mode-dependent information stored in the information dictionaries as attributes
         dict_list: 'list[dict[str, Any]]' = [
             first_dict,
             second_dict,
             third_dict,
         ]
+        # store the common attributes for all the modes (on the grid to which the modes are interpolated)
+        super()._extract_common_info_dictionary(
+            my_dict=dict_list[np.argmax([_d['n'] for _d in dict_list])]
+        )
+        # store the mode-dependent information stored in the information dictionaries as attributes
         for _i, _dict in enumerate(dict_list):
             super()._extract_mode_dependent_info_dictionary(
                 my_dict=_dict, mode_number=_i + 1
-- 
2.43.0


From 88d5d7e3573929d85e380e824268b956587c43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 34/70] fix: mode energies integrate over the azimuth once

---
 .../quadratic_coupling_coefficient_rotating.py             | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 1087715..628eaea 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1239,8 +1239,8 @@ class QuadraticCouplingCoefficientRotating(CCR):
             )
             # compute the result of the specific term in the 'traditional norm' and add it to the total
             trad_norm += _trad_norm_angular * _trad_norm_radial
-        # multiply with pre-factor (due to Phi coordinate integration) to get the 'traditional norm' and store in the object
-        setattr(self, f'_classic_norm_mode_{mode_nr}', trad_norm * 2.0 * np.pi)
+        # store the 'traditional norm' in the object (the angular integrals already include the factor 2*pi due to the Phi coordinate integration)
+        setattr(self, f'_classic_norm_mode_{mode_nr}', trad_norm)
 
     # generic method that computes a radial integral
     def _compute_radial_integral(
@@ -1386,8 +1386,7 @@ class QuadraticCouplingCoefficientRotating(CCR):
         _coriolis_norm = (
             _coriolis_norm_radial
             * _coriolis_norm_angular
-            * 8.0
-            * np.pi
+            * 4.0
             * self._freq_handler.surf_rot_angular_freq
         )
         # get the corotating-frame frequency for the modes
-- 
2.43.0


From 17489034a344aedc38bc51b19dad555621a9ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 35/70] fix: energies of complex eigenfunctions integrate their
 squared moduli

---
 .../quadratic_coupling_coefficient_rotating.py      | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 628eaea..0f6eaec 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1230,11 +1230,11 @@ class QuadraticCouplingCoefficientRotating(CCR):
                 cheby_blow_up_factor=self._cheby_blow_up_fac,
             )
             # compute the radial term integrand
-            _trad_norm_radial_integrand = _prefac * getattr(self, _r_comp) ** (
-                2.0
-            )
+            _trad_norm_radial_integrand = _prefac * np.abs(
+                getattr(self, _r_comp)
+            ) ** (2.0)
             # compute the radial term integral
-            _trad_norm_radial = self._radint(
+            _trad_norm_radial = self._compute_radial_integral_real(
                 _trad_norm_radial_integrand, self._x
             )
             # compute the result of the specific term in the 'traditional norm' and add it to the total
@@ -1377,9 +1377,10 @@ class QuadraticCouplingCoefficientRotating(CCR):
         _coriolis_norm_radial_integrand = (
             self._rho_normed
             * (self._x**2.0)
-            * getattr(self, f'_x_z_2_over_c_1_omega_mode_{mode_nr}') ** 2.0
+            * np.abs(getattr(self, f'_x_z_2_over_c_1_omega_mode_{mode_nr}'))
+            ** 2.0
         )
-        _coriolis_norm_radial = self._radint(
+        _coriolis_norm_radial = self._compute_radial_integral_real(
             _coriolis_norm_radial_integrand, self._x
         )
         # compute the total Coriolis term contribution
-- 
2.43.0


From 201882a3ed9567ff93883e387d52c004699e442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 36/70] fix: central value of the second derivative of the
 polytropic variable

---
 .../aesolver/polytropic_computations/poly_struct_comps.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/polytropic_computations/poly_struct_comps.py b/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
index 8938ea3..ebf9753 100644
--- a/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
+++ b/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
@@ -207,8 +207,10 @@ class PolytropicAdditionalStructureInformation:
 
     def _compute_dtheta_2(self) -> None:
         """Compute and store the second polytropic theta parameter z-derivative."""
+        # the limit in the center (z = 0), where the expression is undefined, is -1/3
         self._dtheta2 = np.nan_to_num(
-            (-(self._theta**self._n)) - (2.0 / self._z) * self._dtheta
+            (-(self._theta**self._n)) - (2.0 / self._z) * self._dtheta,
+            nan=-1.0 / 3.0,
         )
 
     def _compute_dtheta_3(self) -> None:
-- 
2.43.0


From 8e79a2deddb27e6bf04ed198e3301a9d8b282eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 37/70] fix: surface perturbations are multiplied by the
 normalisation factors, not by the adiabatic flag

---
 aesolver/aesolver/solver/quadratic_solver.py              | 8 ++++----
 .../solver/solver_base_classes/quadratic_solver.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index c59b88a..9f498fa 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1043,7 +1043,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -1071,7 +1071,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # print mode information
@@ -1092,8 +1092,8 @@ class QuadraticAESolver:
         _log_lag_var = np.log10(self._lag_var_surf_lum)
         _q_factor_prod = np.sqrt(self._quality_factor_products[-1])
         _log_q_factor_prod = np.log10(_q_factor_prod)
-        _dimless_omega_a_cor = self._coupling_info[radial_order_combo_nr][-4][0]
-        _dimless_omega_a_in = self._coupling_info[radial_order_combo_nr][-4][1]
+        _dimless_omega_a_cor = self._coupling_info[radial_order_combo_nr][4][0]
+        _dimless_omega_a_in = self._coupling_info[radial_order_combo_nr][4][1]
         # compute the equilibrium amplitudes --> TODO: update this!!!
         coefficient_factor = _abs_eta * _q_factor_prod
         coefficient_factor = 1.0 / coefficient_factor
diff --git a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
index f3a8aad..7b5dc2c 100644
--- a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
+++ b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
@@ -808,7 +808,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -836,7 +836,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # load 1 specific mode triad and compute the necessary details and  coupling coefficients (NOT THE COUPLING COEFFICIENT PROFILE)
-- 
2.43.0


From 2b24d62a86ce05a9a6977a2e8dd305d90a575fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 38/70] fix: stored Wu statistic is the radial-order
 difference, not the average radial order

---
 aesolver/aesolver/data_handling/unpacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 75913de..0e808cc 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -334,7 +334,7 @@ class UnPacker:
         self._wu_rule = np.empty((self._nr_combos,), dtype=np.int64)
         # - unpack the data and store it
         for _i, _couple_stat in enumerate(self._coupling_stats):
-            self._wu_rule[_i] = _couple_stat[0]
+            self._wu_rule[_i] = _couple_stat[1]
 
     def _unpack_mode_information(self) -> None:
         """Method that unpacks the (GYRE) mode information: the quantum numbers."""
-- 
2.43.0


From b7a26772ff8ab0aa3d0927acf9922a1f679d1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 39/70] fix: complex coupling coefficients are saved without
 losing their imaginary parts

---
 .../data_handling/data_specific/hdf5_saver.py     |  8 +++++++-
 aesolver/aesolver/data_handling/unpacker.py       | 15 ++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 9ed1193..a70f8d1 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -407,7 +407,13 @@ class HDF5Saver:
                     self._unpacked_data._adiabatic,
                     self._unpacked_data._cc_terms,
                 ],
-                dtypes=[np.float64] * 3 + [np.bool_, np.float64],
+                dtypes=[
+                    self._unpacked_data._abs_ccs.dtype,
+                    self._unpacked_data._abs_nccs.dtype,
+                    self._unpacked_data._abs_etas.dtype,
+                    np.bool_,
+                    self._unpacked_data._cc_terms.dtype,
+                ],
             )
             # create mode normalization datasets
             self._create_overwrite_dataset(
diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 0e808cc..58c5d43 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -212,12 +212,21 @@ class UnPacker:
     def _unpack_mode_coupling_data(self) -> None:
         """Method that unpacks the mode coupling data into multiple arrays stored in this object/instance."""
         # - initialize numpy arrays that contain - information on mode coupling data
-        # mode-triad-specific
-        self._abs_ccs = np.empty((self._nr_combos,), dtype=np.float64)
+        # mode-triad-specific (complex if any of the coefficients is)
+        _cc_dtype = (
+            np.complex128
+            if any(
+                np.iscomplex(_mode_dat[_j]).any()
+                for _mode_dat in self._couple_data
+                for _j in (0, 1, 2, 8)
+            )
+            else np.float64
+        )
+        self._abs_ccs = np.empty((self._nr_combos,), dtype=_cc_dtype)
         self._abs_nccs = np.empty_like(self._abs_ccs)
         self._abs_etas = np.empty_like(self._abs_ccs)
         self._adiabatic = np.empty((self._nr_combos,), dtype=np.bool_)
-        self._cc_terms = np.empty((self._nr_combos, 4), dtype=np.float64)
+        self._cc_terms = np.empty((self._nr_combos, 4), dtype=_cc_dtype)
         # mode-specific
         self._norm_factors = np.empty(
             (self._nr_combos, self._nr_modes), dtype=np.float64
-- 
2.43.0


From ce191c0de07a885ef8bde48f653cd1e199820445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 40/70] fix: quantum numbers are added to the name of the file,
 whatever characters it or its folder contain

---
 .../aesolver/data_handling/data_specific/hdf5_saver.py     | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index a70f8d1..be055d5 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -4,7 +4,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import statements
 import logging
-import re
+import os
 import h5py as h5
 import numpy as np
 
@@ -82,9 +82,8 @@ class HDF5Saver:
         # construct the quantum number based string
         _qnr_string = f"_k_{'_'.join(self._unpacked_data._mode_k.astype(str))}_m_{'_'.join(self._unpacked_data._mode_m.astype(str))}"
         # substitute this string into the file path name
-        self._file_path = re.sub(
-            r'(.*\/\w+)(\.\w+)', rf'\1{_qnr_string}\2', self._file_path
-        )
+        _root, _suffix = os.path.splitext(self._file_path)
+        self._file_path = f'{_root}{_qnr_string}{_suffix}'
 
     def _create_base_attribute(
         self,
-- 
2.43.0


From dfd6e35023bc3e949be6e592200aefc34091061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 41/70] fix: files are saved inside the sub-directory made for
 them

---
 aesolver/aesolver/data_handling/storer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/storer.py b/aesolver/aesolver/data_handling/storer.py
index 2b2eb94..930fb24 100644
--- a/aesolver/aesolver/data_handling/storer.py
+++ b/aesolver/aesolver/data_handling/storer.py
@@ -202,7 +202,7 @@ class NumericalSaver:
         Path(f'{_sub_directory_name}').mkdir(parents=True, exist_ok=True)
         # -- store full path/name of file
         self._save_name = (
-            f'{_sub_directory_name}{save_name}.{self._save_suffix}'
+            f'{_sub_directory_name}/{save_name}.{self._save_suffix}'
         )
 
     def _read_data_from_solver(self) -> None:
-- 
2.43.0


From 4a4b863c53a2b8ccd709ea2788bde5ce79b8bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 42/70] fix: overwritten data sets take the shape of the new
 data, or become empty

---
 .../data_specific/hdf5_specific/overwrite_dataset.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
index 0be167d..b5b6c35 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
@@ -34,10 +34,11 @@ def overwrite_dataset(
     try:
         # obtain the previous data
         _previous_data = h5file_stream[dataset_path]
-        # overwrite for empty data or when data types are the same
+        # overwrite when data types and shapes are the same
         if (is_ds := isinstance(_previous_data, h5.Dataset)) and (
-            isinstance(overwrite_value, h5.Empty)
-            or (_previous_data.dtype == overwrite_value.dtype)
+            not isinstance(overwrite_value, h5.Empty)
+            and _previous_data.dtype == np.asarray(overwrite_value).dtype
+            and _previous_data.shape == np.shape(overwrite_value)
         ):
             # overwrite it
             _previous_data[...] = overwrite_value
-- 
2.43.0


From c37717a71657c67322df5abcf2fd9717fd952b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 43/70] fix: columns of MESA profiles are not cut to the width
 of their first 100 values

---
 aesolver/aesolver/model_handling/read_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 0ae9217..107dde2 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -140,7 +140,9 @@ class ModelReader:
         # initialize the data dictionary
         my_data = {}
         # open the MESA profile.dat file and read into a dataframe
-        _my_df = pd.read_fwf(file_path, skiprows=5)
+        _my_df = pd.read_csv(
+            file_path, sep=r'\s+', skiprows=5, float_precision='round_trip'
+        )
         if TYPE_CHECKING:
             assert isinstance(_my_df, pd.DataFrame)
         # read the header information in a pandas series
-- 
2.43.0


From 1a3f73ea9097cfa7f48c408e0b9003d2bb4b39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 44/70] fix: only files that end in the requested suffix are
 selected as structure models

---
 aesolver/aesolver/model_handling/subselection_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 7ca2077..ff6d030 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -187,8 +187,8 @@ class MESAProfileSubSelector(SubSelectorFiles):
                 'not_gyre': ('gyre', False),
             },
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})'),
-                'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
+                'file_suffix': re.compile(rf'.+\.({re.escape(mesa_file_suffix)})$'),
+                'not_gyre': re.compile(r'.*(gyre|GYRE).*'),
             },
         )
 
@@ -439,7 +439,7 @@ class PolytropeModelSubSelector(SubSelectorFiles):
         super().__init__(
             search_elements={'file_suffix': (polytrope_model_suffix, True)},
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})')
+                'file_suffix': re.compile(rf'.+\.({re.escape(polytrope_model_suffix)})$')
             },
         )
 
-- 
2.43.0


From 07bb171b2abf385d16c38e352ca591ca945b080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 45/70] fix: unit systems in lower case convert all quantities,
 not only the gravitational constant

---
 .../model_handling/enumeration_files/enumeration_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py b/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
index 3806998..1477b23 100644
--- a/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
+++ b/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
@@ -79,7 +79,7 @@ class BaseFileInfo(Enum):
         # compile the dictionary containing the mappings of the values to the unit-converted values, and return it
         return {
             _key: cls._return_input
-            if (_my_action := _val.get(unit_system)) is None
+            if (_my_action := _val.get(unit_system.upper())) is None
             else partial(mul, _my_action)
             for _attr in cls.__members__
             for _key, _val in cls.__getitem__(_attr).value.items()
-- 
2.43.0


From 7f870ab4ea3231b0a7b52dfafd1f089cdcecd07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 46/70] fix: model directories given without a base directory
 are used, missing ones are not the current directory

---
 aesolver/aesolver/model_handling/load_models.py | 2 +-
 aesolver/aesolver/model_handling/read_models.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/load_models.py b/aesolver/aesolver/model_handling/load_models.py
index 505fd6e..fc64381 100644
--- a/aesolver/aesolver/model_handling/load_models.py
+++ b/aesolver/aesolver/model_handling/load_models.py
@@ -304,7 +304,7 @@ class ModelLoader:
         # choose the correct return option
         if subdir is None:
             return subdir
-        elif (self._base_dir is not None) and (not infer_subdir):
+        elif (self._base_dir is None) or (not infer_subdir):
             return subdir
         else:
             return f'{self._base_dir}{subdir}'
diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 107dde2..3334770 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -275,6 +275,9 @@ class ModelReader:
             _kwargs_sub['mode_number'] = mode_number
         if g_mode is not None:
             _kwargs_sub['g_mode'] = g_mode
+        # without a directory, no files can be selected
+        if my_dir is None:
+            return data_list
         # loop through the list of GYRE files and select the necessary files
         for _f in os.scandir(my_dir):
             # determine whether the file adheres to the preselected conditions
-- 
2.43.0


From 7537e285abe17f67fa781ed225e41d2c2cad266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 47/70] fix: a parent mode with a single valued triad no longer
 stops the isolation mask

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a2b944..b1dfb51 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a parent that is part of a single triad only has no second threshold
+        if _threshs.shape[0] == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6989083..895b423 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a parent that is part of a single triad only has no second threshold
+        if _threshs.shape[0] == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
-- 
2.43.0


From 29823a084e3a932d190d73f2651a5e70529852f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 48/70] fix: rotation frequencies and spin parameters of the
 analysis account for the azimuthal orders

---
 .../quadratic_stationary_analyzer.py          | 53 +++++++++++++++++--
 aesolver/aeplotter/quadratic_plotter.py       | 53 +++++++++++++++++--
 2 files changed, 96 insertions(+), 10 deletions(-)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index 133a7c0..ca52ccd 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -159,7 +159,7 @@ class QuadraticAEStationaryAnalyzer:
         self._list_data_dict = [
             {
                 _k: np.concatenate([_d[_k] for _d in loaded_data_files], axis=0)
-                for _k in self._load_mappings_arrays
+                for _k in loaded_data_files[0]
             }
         ]
 
@@ -187,7 +187,7 @@ class QuadraticAEStationaryAnalyzer:
                         _k: np.concatenate(
                             [_d[_k] for _d in files_single_object], axis=0
                         )
-                        for _k in self._load_mappings_arrays
+                        for _k in files_single_object[0]
                     }
                 )
 
@@ -198,6 +198,11 @@ class QuadraticAEStationaryAnalyzer:
                 _d_i: my_h5[_d_i_path][()]
                 for _d_i, (_d_i_path, _) in self._load_mappings_arrays.items()
             }
+            # store the azimuthal orders of the modes for each of the triads
+            my_data_dict['az_ord'] = np.tile(
+                my_h5['quantum_numbers'].attrs['m'],
+                (my_data_dict['rad_ord'].shape[0], 1),
+            )
         # return the data dictionary belonging to this file
         return my_data_dict
 
@@ -232,6 +237,42 @@ class QuadraticAEStationaryAnalyzer:
                     _data_list.append(my_h5[_d_i_path].attrs[_attr_pointer][()])
             getattr(self, f'_{_d_i}').append(_data_list)
 
+    @staticmethod
+    def _get_rotation_freqs(
+        inert_omegas: 'np.ndarray',
+        corot_omegas: 'np.ndarray',
+        az_ords: 'np.ndarray',
+    ) -> 'np.ndarray':
+        """Computes the angular rotation frequencies from the frame-dependent mode frequencies (inertial = co-rotating + m * rotation), using the mode with the largest absolute azimuthal order.
+
+        Notes
+        -----
+        The rotation frequency is undetermined (NaN) if all modes are zonal modes.
+
+        Parameters
+        ----------
+        inert_omegas : np.ndarray
+            Inertial-frame angular mode frequencies (one row per triad).
+        corot_omegas : np.ndarray
+            Co-rotating-frame angular mode frequencies (one row per triad).
+        az_ords : np.ndarray
+            Azimuthal orders of the modes (one row per triad).
+
+        Returns
+        -------
+        np.ndarray
+            The angular rotation frequencies, for each of the triads.
+        """
+        _rows = np.arange(az_ords.shape[0])
+        _cols = np.abs(az_ords).argmax(axis=1)
+        _my_m = az_ords[_rows, _cols].astype(np.float64)
+        return np.divide(
+            (inert_omegas - corot_omegas)[_rows, _cols],
+            _my_m,
+            out=np.full_like(_my_m, np.nan),
+            where=_my_m != 0.0,
+        )
+
     def _compute_frequency_data(
         self, og_shape: bool = True, additional_frequencies: bool = True
     ) -> None:
@@ -276,9 +317,11 @@ class QuadraticAEStationaryAnalyzer:
             )
             # compute and store the rotation frequency
             _my_inert_omegas = _dd['inert_mode_omegas']
-            _my_rotation_freqs = (_my_inert_omegas - _my_corot_omegas)[
-                :, 1
-            ]  # m is 1 for this daughter mode!
+            _my_rotation_freqs = self._get_rotation_freqs(
+                inert_omegas=_my_inert_omegas,
+                corot_omegas=_my_corot_omegas,
+                az_ords=_dd['az_ord'],
+            )
             _dd['rotation_freqs'] = _my_rotation_freqs
             _dd['rotation_freqs_muHz'] = hz_to_muhz(_my_rotation_freqs)
             _dd['rotation_freqs_cpd'] = hz_to_cpd(_my_rotation_freqs)
diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 33c61c9..773dc4f 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -243,7 +243,7 @@ class QuadraticAEPlotter:
         self._list_data_dict = [
             {
                 _k: np.concatenate([_d[_k] for _d in loaded_data_files], axis=0)
-                for _k in self._load_mappings_arrays
+                for _k in loaded_data_files[0]
             }
         ]
 
@@ -271,7 +271,7 @@ class QuadraticAEPlotter:
                         _k: np.concatenate(
                             [_d[_k] for _d in files_single_object], axis=0
                         )
-                        for _k in self._load_mappings_arrays
+                        for _k in files_single_object[0]
                     }
                 )
 
@@ -282,6 +282,11 @@ class QuadraticAEPlotter:
                 _d_i: my_h5[_d_i_path][()]
                 for _d_i, (_d_i_path, _) in self._load_mappings_arrays.items()
             }
+            # store the azimuthal orders of the modes for each of the triads
+            my_data_dict['az_ord'] = np.tile(
+                my_h5['quantum_numbers'].attrs['m'],
+                (my_data_dict['rad_ord'].shape[0], 1),
+            )
         # return the data dictionary belonging to this file
         return my_data_dict
 
@@ -316,6 +321,42 @@ class QuadraticAEPlotter:
                     _data_list.append(my_h5[_d_i_path].attrs[_attr_pointer][()])
             getattr(self, f'_{_d_i}').append(_data_list)
 
+    @staticmethod
+    def _get_rotation_freqs(
+        inert_omegas: 'np.ndarray',
+        corot_omegas: 'np.ndarray',
+        az_ords: 'np.ndarray',
+    ) -> 'np.ndarray':
+        """Computes the angular rotation frequencies from the frame-dependent mode frequencies (inertial = co-rotating + m * rotation), using the mode with the largest absolute azimuthal order.
+
+        Notes
+        -----
+        The rotation frequency is undetermined (NaN) if all modes are zonal modes.
+
+        Parameters
+        ----------
+        inert_omegas : np.ndarray
+            Inertial-frame angular mode frequencies (one row per triad).
+        corot_omegas : np.ndarray
+            Co-rotating-frame angular mode frequencies (one row per triad).
+        az_ords : np.ndarray
+            Azimuthal orders of the modes (one row per triad).
+
+        Returns
+        -------
+        np.ndarray
+            The angular rotation frequencies, for each of the triads.
+        """
+        _rows = np.arange(az_ords.shape[0])
+        _cols = np.abs(az_ords).argmax(axis=1)
+        _my_m = az_ords[_rows, _cols].astype(np.float64)
+        return np.divide(
+            (inert_omegas - corot_omegas)[_rows, _cols],
+            _my_m,
+            out=np.full_like(_my_m, np.nan),
+            where=_my_m != 0.0,
+        )
+
     def _compute_frequency_data(
         self, og_shape: bool = True, additional_frequencies: bool = True
     ) -> None:
@@ -360,9 +401,11 @@ class QuadraticAEPlotter:
             )
             # compute and store the rotation frequency
             _my_inert_omegas = _dd['inert_mode_omegas']
-            _my_rotation_freqs = (_my_inert_omegas - _my_corot_omegas)[
-                :, 1
-            ]  # m is 1 for this daughter mode!
+            _my_rotation_freqs = self._get_rotation_freqs(
+                inert_omegas=_my_inert_omegas,
+                corot_omegas=_my_corot_omegas,
+                az_ords=_dd['az_ord'],
+            )
             _dd['rotation_freqs'] = _my_rotation_freqs
             _dd['rotation_freqs_muHz'] = hz_to_muhz(_my_rotation_freqs)
             _dd['rotation_freqs_cpd'] = hz_to_cpd(_my_rotation_freqs)
-- 
2.43.0


From 56a1c5bf9609d1e734fcdbc450bbefb7eddd7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 49/70] fix: negative frequencies between two and three times
 the Nyquist frequency are mirrored to positive ones

---
 aesolver/aeplotter/quadratic_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 773dc4f..9bdfbe1 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -804,7 +804,7 @@ class QuadraticAEPlotter:
                 & neg_mask
             )
             _dd['min_inertial_freq_stack'][three_mirror] = (
-                -3.0 * kepler_notional_nyquist
+                -2.0 * kepler_notional_nyquist
             ) - my_minimal_frequency[three_mirror]
             # --- 4 mirroring operations ---
             four_mirror = (
-- 
2.43.0


From f66f6bafdbf609a136cb4eac1129b9d801b69f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 50/70] fix: models with several files are loaded whatever the
 order of the models

---
 aesolver/ae_analyzer/quadratic_stationary_analyzer.py | 9 +++++++++
 aesolver/aeplotter/quadratic_plotter.py               | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index ca52ccd..2aed304 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -150,6 +150,10 @@ class QuadraticAEStationaryAnalyzer:
     def _load_analysis_data(
         self, my_file_name_or_names: list[str]
     ) -> None:
+        # a list of models, some of which consist of several files, is not a list of files
+        if not all(isinstance(_n, str) for _n in my_file_name_or_names):
+            self._load_models(my_file_name_or_names)
+            return
         # load the data for each of the individual files
         loaded_data_files = [
             self._load_specific_file_data(file_path=_linked_name)
@@ -166,6 +170,11 @@ class QuadraticAEStationaryAnalyzer:
     @multimethod
     def _load_analysis_data(
         self, my_file_name_or_names: list[list[str]]
+    ) -> None:
+        self._load_models(my_file_name_or_names)
+
+    def _load_models(
+        self, my_file_name_or_names: 'list[str | list[str]]'
     ) -> None:
         # load the data for each of the individual files
         self._list_data_dict = []
diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 9bdfbe1..33d2955 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -234,6 +234,10 @@ class QuadraticAEPlotter:
     def _load_sharpness_overview_data(
         self, my_file_name_or_names: list[str]
     ) -> None:
+        # a list of models, some of which consist of several files, is not a list of files
+        if not all(isinstance(_n, str) for _n in my_file_name_or_names):
+            self._load_models(my_file_name_or_names)
+            return
         # load the data for each of the individual files
         loaded_data_files = [
             self._load_specific_file_data(file_path=_linked_name)
@@ -250,6 +254,11 @@ class QuadraticAEPlotter:
     @multimethod
     def _load_sharpness_overview_data(
         self, my_file_name_or_names: list[list[str]]
+    ) -> None:
+        self._load_models(my_file_name_or_names)
+
+    def _load_models(
+        self, my_file_name_or_names: 'list[str | list[str]]'
     ) -> None:
         # load the data for each of the individual files
         self._list_data_dict = []
-- 
2.43.0


From ec39b2c2fb9b696304d2cf9e0f4b4f11a1610f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 51/70] fix: the resonance sharpness figure is also drawn for a
 single bin

---
 aesolver/aeplotter/resonance_sharpness/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/resonance_sharpness/histogram.py b/aesolver/aeplotter/resonance_sharpness/histogram.py
index a04b2d9..755dce1 100644
--- a/aesolver/aeplotter/resonance_sharpness/histogram.py
+++ b/aesolver/aeplotter/resonance_sharpness/histogram.py
@@ -91,7 +91,7 @@ def get_sharpness_histogram_plot_data(
         empirical_density=False,
     )
     # get the minimal number of bins (GUARD)
-    my_min_nr_bins = 1 if log_bin_width_all is None else len(log_bin_width_all)
+    my_min_nr_bins = 1 if log_bin_width_all is None else np.size(log_bin_width_all)
     # compute sharpness histogram for isolated triads
     log_hist_prob_isolated_all = histogram_blas_log_spec_edges(
         my_data=np.abs(resonance_sharpness_object.sharpness_isolated),
-- 
2.43.0


From 6a5acb17180dcc9716c00b6390cc2dcaeb4b0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 52/70] fix: lists with booleans or missing values and signed
 exponents in text inlists keep their values

---
 util-tools/inlist_handler/inlist_handler.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index acd0be6..2be8aa7 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -84,7 +84,7 @@ class InlistHandler:
     # define and compile the regular expression used to select the defaults inlist
     compiled_regex_defaults = re.compile(r'(.*)\/.*\/(.*)\..*')
     # define and compile the regular expression used to parse floats
-    compiled_float_regex = re.compile(r'\d+[eE]-*\d+')
+    compiled_float_regex = re.compile(r'[+-]?\d+[eE][+-]?\d+')
 
     @classmethod
     def _typer(cls, value_string):
@@ -112,6 +112,14 @@ class InlistHandler:
                     f'with {_de_quoted_string}.'
                 )
                 typed_value = str(_de_quoted_string)
+        # check for a list input
+        elif cls.__dict__['list_check'].__get__(cls)(value_string):
+            logger.debug(f'{value_string} is considered a list.')
+            typed_value = ast.literal_eval(value_string)
+        # check for a tuple input
+        elif cls.__dict__['tuple_check'].__get__(cls)(value_string):
+            logger.debug(f'{value_string} is considered a tuple.')
+            typed_value = ast.literal_eval(value_string)
         # check for input that is reminiscent of a boolean value
         elif cls.__dict__['bool_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a boolean.')
@@ -123,14 +131,6 @@ class InlistHandler:
         elif cls.__dict__['none_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a boolean.')
             typed_value = None
-        # check for a list input
-        elif cls.__dict__['list_check'].__get__(cls)(value_string):
-            logger.debug(f'{value_string} is considered a list.')
-            typed_value = ast.literal_eval(value_string)
-        # check for a tuple input
-        elif cls.__dict__['tuple_check'].__get__(cls)(value_string):
-            logger.debug(f'{value_string} is considered a tuple.')
-            typed_value = ast.literal_eval(value_string)
         # check for a decimal point in the input
         elif cls.__dict__['float_check'].__get__(cls)(value_string) or (
             cls.compiled_float_regex.match(value_string)
-- 
2.43.0


From ece3ac760d77b6bfc1e1827ae14b1016668d55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 53/70] fix: strings in text inlists are used as written, also
 in tuples

---
 util-tools/inlist_handler/inlist_handler.py | 22 +++++++--------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index 2be8aa7..d690ae1 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -57,9 +57,6 @@ class InlistHandler:
             sys.exit()
 
     # define the functional mappings for the typing operations
-    string_check = partialmethod(
-        _multi_check_method, check_values=[r"'", r'"'], any_check=True
-    )
     bool_check = partialmethod(
         _multi_check_method,
         check_values=['False', 'FALSE', 'True', 'TRUE'],
@@ -100,18 +97,13 @@ class InlistHandler:
         typed_value : Any
             The value_string converted to the appropriate type.
         """
-        # check for common symbols that indicate the presence of string input
-        if cls.__dict__['string_check'].__get__(cls)(value_string):
-            if cls.__dict__['list_check'].__get__(cls)(value_string):
-                logger.debug(f'{value_string} is considered a list of strings.')
-                typed_value = ast.literal_eval(value_string)
-            else:
-                _de_quoted_string = value_string.strip('"').strip("'")
-                logger.debug(
-                    f'{value_string} is considered a string, so is replaced '
-                    f'with {_de_quoted_string}.'
-                )
-                typed_value = str(_de_quoted_string)
+        # check for a quoted value, i.e. a string, which is used as it is written
+        if (
+            value_string.startswith(("'", '"'))
+            and value_string[0] == value_string[-1]
+        ):
+            logger.debug(f'{value_string} is considered a string.')
+            typed_value = value_string[1:-1]
         # check for a list input
         elif cls.__dict__['list_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a list.')
-- 
2.43.0


From 4a4adb20609f6011426dec5a34ed5515e9a87c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 54/70] fix: text inlist values may contain blanks, slashes and
 percent signs

---
 util-tools/inlist_handler/inlist_handler.py | 45 ++++++---------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index d690ae1..bec5246 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -5,7 +5,6 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 import ast
 import logging
 import re
-import shlex
 import sys
 from functools import partialmethod
 
@@ -80,6 +79,8 @@ class InlistHandler:
 
     # define and compile the regular expression used to select the defaults inlist
     compiled_regex_defaults = re.compile(r'(.*)\/.*\/(.*)\..*')
+    # define and compile the regular expression used to select the content of a line that precedes a comment
+    compiled_content_regex = re.compile(r'(?:"[^"\n]*"|\'[^\'\n]*\'|[^%])*')
     # define and compile the regular expression used to parse floats
     compiled_float_regex = re.compile(r'[+-]?\d+[eE][+-]?\d+')
 
@@ -155,38 +156,18 @@ class InlistHandler:
             dictionary_inlist = {}
         try:
             with open(inlist_path) as _inlist:
-                # read the complete inlist as one string and
-                # initialize the lexical analysis engine (shlex object)
-                _lex = shlex.shlex('\n'.join(_inlist.readlines()))
-                # replace the comment symbol by %
-                _lex.commenters = '%'
-                # add the decimal dot to the word characters,
-                # in order to obtain float values in full.
-                _lex.wordchars += '.'
-                # add the minus sign to the word characters,
-                # in order to obtain negative values in full.
-                _lex.wordchars += '-'
-                # add the square brackets and the comma to the word characters,
-                # in order to obtain list values in full.
-                _lex.wordchars += '['
-                _lex.wordchars += ']'
-                _lex.wordchars += ','
-                # add the round brackets to the word characters,
-                # in order to obtain tuple values in full.
-                _lex.wordchars += '('
-                _lex.wordchars += ')'
-                # add the quotes " and '
-                _lex.quotes = '\'"'
-                # add escape quotes to denote lines
-                _lex.escape = '\n'
-                # iterate through the analyzed strings
-                for _i in _lex:
-                    _keyword = _i  # get the keyword for the dictionary
-                    _lex.get_token()  # remove the "=" sign
-                    _value = cls._typer(_lex.get_token())
-                    # get the value for the dictionary
+                for _line in _inlist:
+                    # drop the comment (a comment symbol within
+                    # a quoted string does not start a comment)
+                    _content = cls.compiled_content_regex.match(_line).group(0)
+                    if not (_content := _content.strip()):
+                        continue
+                    # get the keyword and the value for the dictionary
                     # add or update the value to the dictionary
-                    dictionary_inlist[f'{_keyword}'] = _value
+                    _keyword, _, _value = _content.partition('=')
+                    dictionary_inlist[_keyword.strip()] = cls._typer(
+                        _value.strip()
+                    )
         except NameError:
             logger.exception('A variable was/variables were not defined.')
         except TypeError:
-- 
2.43.0


From b2aabbc238b4cb47dd092558c2fe239bc32c83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 55/70] fix: names of inlists may contain dots

---
 util-tools/generic_parser/generic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 9b42a62..f49670c 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -186,7 +186,7 @@ class GenericParser:
             _inlist_suffix = full_inlist_path.name.split('.')[-1]  # type: ignore
             # - get file name
             try:
-                _inlist_name = full_inlist_path.name.split('.')[0]  # type: ignore
+                _inlist_name = full_inlist_path.name.rpartition('.')[0]  # type: ignore
             except AttributeError:
                 my_exceptions.append(
                     TypeError(f'The inlist name {_common_error}')
-- 
2.43.0


From e22e1c1dacbc4a30d6de4ff362ebc96d501552e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 56/70] fix: elements of inlist sections without a value are
 missing values

---
 util-tools/generic_parser/generic_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index f49670c..501730c 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -527,6 +527,9 @@ class GenericParser:
                 return ha_dict[first_key]
             else:
                 # recursively retrieve deeper elements in the dict
+                # (there are none in a section without a value)
+                if ha_dict[first_key] is None:
+                    return None
                 return self.get_ha(ha_dict[first_key], index_val[1:])
         except IndexError:
             # key string
-- 
2.43.0


From 721fbc2c840767f7eafa1a204acaa6978efe44aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 57/70] fix: the solve run script accepts the name of the save
 file

---
 aesolver/aerunners/solve_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5c5ab3b..6f221e5 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -63,7 +63,7 @@ class QuadraticSolveParser(GenericParser):
         )
 
     # overload the read_specific_arguments method
-    def _set_up_specific_argparser(self) -> None:
+    def _set_up_specific_argparser_groups_arguments(self) -> None:
         """Overloaded method used to set up a limited amount of parser groups and arguments.
         The majority of all solve run configuration items are passed through an inlist.
         """
-- 
2.43.0


From c067cc009c32bc3425d9c7a42ca60aff6a772cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 58/70] fix: the analysis and plot run scripts find inlists in
 the AESolver repository

---
 aesolver/aerunners/analyze_quadratic.py | 2 +-
 aesolver/aerunners/plot_quadratic.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aerunners/analyze_quadratic.py b/aesolver/aerunners/analyze_quadratic.py
index 52409c5..87b47f5 100644
--- a/aesolver/aerunners/analyze_quadratic.py
+++ b/aesolver/aerunners/analyze_quadratic.py
@@ -40,7 +40,7 @@ class QuadraticAnalysisParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
diff --git a/aesolver/aerunners/plot_quadratic.py b/aesolver/aerunners/plot_quadratic.py
index 64cd2ee..d16028f 100644
--- a/aesolver/aerunners/plot_quadratic.py
+++ b/aesolver/aerunners/plot_quadratic.py
@@ -46,7 +46,7 @@ class QuadraticPlotParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
-- 
2.43.0


From ddfd8ec74d86317370b288c0f52f70c61a23c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 59/70] fix: inlist elements can be read by their name

---
 util-tools/generic_parser/generic_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 501730c..82e6fdf 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -517,6 +517,9 @@ class GenericParser:
         int | str | float | list
             Requested value.
         """
+        # key string
+        if isinstance(index_val, str):
+            return ha_dict.get(index_val)
         try:
             # key list
             if (first_key := index_val[0]) not in ha_dict:
-- 
2.43.0


From fe14f4cce7f2c664162864311667db37e0227e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 60/70] fix: binning casts only values that fit the integer
 type of the bins

---
 .../hogg_jacky/cython_jacky/cython_jacky_binning.pyx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
index 01cb097..0eb8506 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
+++ b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
@@ -23,6 +23,14 @@ def create_output_array_view(Py_ssize_t view_size):
     return out_arr, arr_view
 
 
+cdef inline cnp.int32_t _bin_index(double floored_val) noexcept nogil:
+    # a C cast is only defined for values that the integer type can represent
+    if -2147483648.0 <= floored_val <= 2147483647.0:
+        return <cnp.int32_t>floored_val
+    # NaN, infinite, or too large: no valid bin
+    return <cnp.int32_t>-2147483648
+
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
@@ -32,7 +40,7 @@ cdef _cython_binning_serial_loop(Py_ssize_t view_size, cnp.float64_t[::1] my_dat
     cdef int d
     # loop to fill binning array using view
     for d in range(view_size):
-        binning_view[d] = <cnp.int32_t>floor(((my_data_view[d] - lowest_val) / bin_width) - bin_phase)
+        binning_view[d] = _bin_index(floor(((my_data_view[d] - lowest_val) / bin_width) - bin_phase))
 
 
 # @cython.boundscheck(False)
@@ -82,7 +90,7 @@ cdef _cython_binning_parallel_loop(Py_ssize_t view_size, cnp.float64_t[::1] my_d
     cdef int i
     # attempt to fill the binning array
     for i in prange(view_size, nogil=True):
-        binning_view[i] = <cnp.int32_t>floor(((my_data_view[i] - lowest_val) / bin_width) - bin_phase)
+        binning_view[i] = _bin_index(floor(((my_data_view[i] - lowest_val) / bin_width) - bin_phase))
 
 
 # @cython.boundscheck(False)
-- 
2.43.0


From 509620ec4feeec520674b69053bbbc9fb96e530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 61/70] fix: histogram kernels verify the lengths of their
 input arrays

---
 .../cython_jacky_empirical_density_hist.pyx   | 14 +++++++++++++
 .../cython_jacky/cython_jacky_jacky.pyx       | 21 +++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_empirical_density_hist.pyx b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_empirical_density_hist.pyx
index ecdb296..c4fae69 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_empirical_density_hist.pyx
+++ b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_empirical_density_hist.pyx
@@ -4,6 +4,12 @@ cimport cython
 from cython.parallel cimport prange
 
 
+cdef _check_bin_edges(Py_ssize_t nr_bins, cnp.float64_t[::1] bin_edge_view):
+    # the loops use the lower and upper edge of every bin
+    if bin_edge_view is None or bin_edge_view.shape[0] != nr_bins + 1:
+        raise ValueError('The number of bin edges must be the number of bins plus 1.')
+
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
@@ -107,6 +113,8 @@ cdef _cython_variable_bw_empirical_density_hist_int(Py_ssize_t view_size, cnp.fl
 def cython_variable_bw_empirical_density_hist(cnp.float64_t[::1] my_hist_view, double empirical_probability_conversion_factor, cnp.float64_t[::1] bin_edge_view):
     # obtain the size
     cdef Py_ssize_t s = my_hist_view.shape[0]
+    # verify the number of bin edges
+    _check_bin_edges(s, bin_edge_view)
     # perform empirical density conversion
     _cython_variable_bw_empirical_density_hist(s, my_hist_view, empirical_probability_conversion_factor, bin_edge_view)
 
@@ -114,6 +122,8 @@ def cython_variable_bw_empirical_density_hist(cnp.float64_t[::1] my_hist_view, d
 def cython_variable_bw_empirical_density_hist_int(cnp.float64_t[::1] my_hist_view, int empirical_probability_conversion_factor, cnp.float64_t[::1] bin_edge_view):
     # obtain the size
     cdef Py_ssize_t s = my_hist_view.shape[0]
+    # verify the number of bin edges
+    _check_bin_edges(s, bin_edge_view)
     # perform empirical density conversion
     _cython_variable_bw_empirical_density_hist_int(s, my_hist_view, empirical_probability_conversion_factor, bin_edge_view)
 
@@ -145,6 +155,8 @@ cdef _cython_variable_bw_empirical_density_hist_int_parallel(Py_ssize_t view_siz
 def cython_variable_bw_empirical_density_hist_parallel(cnp.float64_t[::1] my_hist_view, double empirical_probability_conversion_factor, cnp.float64_t[::1] bin_edge_view):
     # obtain the size
     cdef Py_ssize_t s = my_hist_view.shape[0]
+    # verify the number of bin edges
+    _check_bin_edges(s, bin_edge_view)
     # perform empirical density conversion
     _cython_variable_bw_empirical_density_hist_parallel(s, my_hist_view, empirical_probability_conversion_factor, bin_edge_view)
 
@@ -152,5 +164,7 @@ def cython_variable_bw_empirical_density_hist_parallel(cnp.float64_t[::1] my_his
 def cython_variable_bw_empirical_density_hist_int_parallel(cnp.float64_t[::1] my_hist_view, int empirical_probability_conversion_factor, cnp.float64_t[::1] bin_edge_view):
     # obtain the size
     cdef Py_ssize_t s = my_hist_view.shape[0]
+    # verify the number of bin edges
+    _check_bin_edges(s, bin_edge_view)
     # perform empirical density conversion
     _cython_variable_bw_empirical_density_hist_int_parallel(s, my_hist_view, empirical_probability_conversion_factor, bin_edge_view)
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_jacky.pyx b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_jacky.pyx
index 0471873..e3be66d 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_jacky.pyx
+++ b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_jacky.pyx
@@ -5,6 +5,18 @@ from libc.math cimport log
 from cython.parallel cimport prange
 
 
+cdef _check_nr_bins(Py_ssize_t nr_bins, cnp.float64_t[::1] bin_data_view):
+    # the loops read this many bins
+    if nr_bins < 0 or bin_data_view is None or nr_bins > bin_data_view.shape[0]:
+        raise ValueError('The number of bins does not match the histogram.')
+
+
+cdef _check_bin_edges(Py_ssize_t nr_bins, cnp.float64_t[::1] bin_edge_view):
+    # the loops use the lower and upper edge of every bin
+    if bin_edge_view is None or bin_edge_view.shape[0] != nr_bins + 1:
+        raise ValueError('The number of bin edges must be the number of bins plus 1.')
+
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
@@ -47,6 +59,8 @@ cdef _cython_variable_bw_jacky_serial_loop(Py_ssize_t view_size, cnp.float64_t[:
 def cython_variable_bw_jacky_serial_loop(cnp.float64_t[::1] bin_data_view, cnp.float64_t[::1] my_bin_edges, double alpha, double empirical_probability_conversion_fac):
     # store input size
     cdef Py_ssize_t view_size = bin_data_view.shape[0]
+    # verify the number of bin edges
+    _check_bin_edges(view_size, my_bin_edges)
     # obtain and return the jackknife likelihood value
     return _cython_variable_bw_jacky_serial_loop(view_size, bin_data_view, my_bin_edges, alpha, empirical_probability_conversion_fac)
 
@@ -93,11 +107,15 @@ cdef _cython_variable_bw_jacky_parallel_loop(Py_ssize_t view_size, cnp.float64_t
 def cython_variable_bw_jacky_parallel_loop(cnp.float64_t[::1] bin_data_view, cnp.float64_t[::1] my_bin_edges, double alpha, double empirical_probability_conversion_fac):
     # store input size
     cdef Py_ssize_t view_size = bin_data_view.shape[0]
+    # verify the number of bin edges
+    _check_bin_edges(view_size, my_bin_edges)
     # obtain and return the jackknife likelihood value
     return _cython_variable_bw_jacky_parallel_loop(view_size, bin_data_view, my_bin_edges, alpha, empirical_probability_conversion_fac)
 
 
 def cython_jacky_loop(Py_ssize_t view_size, cnp.float64_t[::1] bin_data_view, double alpha, double bw, double empirical_probability_conversion_fac, bint use_parallel):
+    # verify the number of bins
+    _check_nr_bins(view_size, bin_data_view)
     # obtain and return the jackknife likelihood   
     if use_parallel:
         return _cython_jacky_parallel_loop(view_size, bin_data_view, alpha, bw, empirical_probability_conversion_fac)
@@ -106,6 +124,9 @@ def cython_jacky_loop(Py_ssize_t view_size, cnp.float64_t[::1] bin_data_view, do
 
 
 def cython_variable_bw_jacky_loop(Py_ssize_t view_size, cnp.float64_t[::1] bin_data_view, cnp.float64_t[::1] my_bin_edges, double alpha, double empirical_probability_conversion_fac, bint use_parallel):
+    # verify the numbers of bins and bin edges
+    _check_nr_bins(view_size, bin_data_view)
+    _check_bin_edges(view_size, my_bin_edges)
     # obtain and return the jackknife likelihood   
     if use_parallel:
         return _cython_variable_bw_jacky_parallel_loop(view_size, bin_data_view, my_bin_edges, alpha, empirical_probability_conversion_fac)
-- 
2.43.0


From e16855d2a9bfca7a8cabdd9a76296320cb8e128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 62/70] fix: required lengths of zero are checked

---
 pytest-util-tools/pytest_util_functions/assertion_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytest-util-tools/pytest_util_functions/assertion_checker.py b/pytest-util-tools/pytest_util_functions/assertion_checker.py
index ee89380..e30ca28 100644
--- a/pytest-util-tools/pytest_util_functions/assertion_checker.py
+++ b/pytest-util-tools/pytest_util_functions/assertion_checker.py
@@ -33,12 +33,12 @@ def check_assertions(
     if top_type:
         assert isinstance(my_val, top_type)
     # check if we need to check value length
-    if top_length:
+    if top_length is not None:
         assert len(my_val) == top_length
     # check if we need to check element type or element_length
     if (element_type is not None) or (element_length is not None):
         for my_el in my_val:
             if element_type:
                 assert isinstance(my_el, element_type)
-            if element_length:
+            if element_length is not None:
                 assert len(my_el) == element_length
-- 
2.43.0


From c4578198ddc5ceff66f3d6c574076246b5019174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 63/70] fix: value comparison accepts equal values that have no
 length (None, complex numbers)

---
 pytest-util-tools/pytest_util_functions/comparison.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytest-util-tools/pytest_util_functions/comparison.py b/pytest-util-tools/pytest_util_functions/comparison.py
index e1832b6..15bb09c 100644
--- a/pytest-util-tools/pytest_util_functions/comparison.py
+++ b/pytest-util-tools/pytest_util_functions/comparison.py
@@ -56,6 +56,9 @@ def value_comparison(first: typing.Any, second: typing.Any) -> bool:
                     # lists or None type objects
                     # --> direct comparison
                     value_check *= first == second
+                except TypeError:
+                    # values without a length (e.g. None, complex numbers)
+                    value_check *= type(first) == type(second) and first == second
                 except Exception:  # CATCH ALL OTHER
                     logging.error(traceback.format_exc())
                     value_check = False
-- 
2.43.0


From 427dd75248e5564ec0b607fd22f6f3041df79b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 64/70] fix: profiles of triads for which the TAR is valid in
 the core, or no single criterion explains that it is valid nowhere

---
 aesolver/aesolver/solver/quadratic_profile.py | 33 ++++++++++---------
 aesolver/aesolver/solver/quadratic_solver.py  | 33 ++++++++++---------
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index 6f1f877..dc7439d 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -167,34 +167,32 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
             raise PhysicsError(
                 msg='The modes in the triad are not on the slow manifold (i.e. the absolute values of their quality factors = co-rotating angular mode frequencies / linear driving or damping rates are not all greater than 10.0). This triad cannot be described using amplitude equations!'
             )
+        elif tar_valid.all():
+            # TAR-valid everywhere
+            validity_zone_masks = [np.s_[:]]
+            non_validity_indices = []
+            non_validity_zone_masks = []
+            fully_invalid = False
         elif ((start_len := len(_mask_start_validity)) == 0) & (
             (end_len := len(_mask_end_validity)) == 0
         ):
             # find reason why there are no TAR validity zones and warn about this!
             if (
-                (
-                    my_individual_uni := np.unique(tar_individual_freq_check)
-                ).shape[0]
-                == 1
-            ) & (
-                (my_rot_uni := np.unique(tar_rotation_check)).shape[0] != 1
-            ) and not my_individual_uni[0]:
+                tar_rotation_check.any()
+                and not tar_individual_freq_check.any()
+            ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, the individual mode frequencies in the co-rotating frame are not much smaller than any local Brunt-Väisälä frequency!'
                 )
             elif (
-                (my_individual_uni.shape[0] != 1)
-                and (my_rot_uni.shape[0] == 1)
-                and not my_rot_uni[0]
+                tar_individual_freq_check.any()
+                and not tar_rotation_check.any()
             ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, the Coriolis frequency is not much smaller than any local Brunt-Väisälä frequency!'
                 )
-            elif (
-                (my_individual_uni.shape[0] == 1)
-                and (my_rot_uni.shape[0] == 1)
-                and not my_rot_uni[0]
-                and not my_individual_uni[0]
+            elif not (
+                tar_individual_freq_check.any() or tar_rotation_check.any()
             ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, both the Coriolis frequency and the individual mode frequencies in the co-rotating frame are not much smaller than any local Brunt-Väisälä frequency!'
@@ -305,6 +303,11 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
             raise PhysicsError(
                 msg=f'This is a weird error because it means that the indices obtained from the mask-determining part of this method fails to find reasonable start and end indices: start indices of TAR-valid zones = {_mask_start_validity}, end indices of TAR-valid zones = {_mask_end_validity}. Please check your input!'
             )
+        # a TAR-valid core follows an empty non-validity zone, so that
+        # the contributions of the zones are attributed to the right zones
+        if tar_valid[0]:
+            non_validity_indices = [(0, 0)] + non_validity_indices
+            non_validity_zone_masks = [np.s_[:0]] + non_validity_zone_masks
         # return the necessary values
         return (
             tar_valid,
diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index 9f498fa..e141a2a 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1303,34 +1303,32 @@ class QuadraticAESolver:
             raise PhysicsError(
                 msg='The modes in the triad are not on the slow manifold (i.e. the absolute values of their quality factors = co-rotating angular mode frequencies / linear driving or damping rates are not all greater than 10.0). This triad cannot be described using amplitude equations!'
             )
+        elif tar_valid.all():
+            # TAR-valid everywhere
+            validity_zone_masks = [np.s_[:]]
+            non_validity_indices = []
+            non_validity_zone_masks = []
+            fully_invalid = False
         elif ((start_len := len(_mask_start_validity)) == 0) & (
             (end_len := len(_mask_end_validity)) == 0
         ):
             # find reason why there are no TAR validity zones and warn about this!
             if (
-                (
-                    my_individual_uni := np.unique(tar_individual_freq_check)
-                ).shape[0]
-                == 1
-            ) & (
-                (my_rot_uni := np.unique(tar_rotation_check)).shape[0] != 1
-            ) and not my_individual_uni[0]:
+                tar_rotation_check.any()
+                and not tar_individual_freq_check.any()
+            ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, the individual mode frequencies in the co-rotating frame are not much smaller than any local Brunt-Väisälä frequency!'
                 )
             elif (
-                (my_individual_uni.shape[0] != 1)
-                and (my_rot_uni.shape[0] == 1)
-                and not my_rot_uni[0]
+                tar_individual_freq_check.any()
+                and not tar_rotation_check.any()
             ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, the Coriolis frequency is not much smaller than any local Brunt-Väisälä frequency!'
                 )
-            elif (
-                (my_individual_uni.shape[0] == 1)
-                and (my_rot_uni.shape[0] == 1)
-                and not my_rot_uni[0]
-                and not my_individual_uni[0]
+            elif not (
+                tar_individual_freq_check.any() or tar_rotation_check.any()
             ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, both the Coriolis frequency and the individual mode frequencies in the co-rotating frame are not much smaller than any local Brunt-Väisälä frequency!'
@@ -1441,6 +1439,11 @@ class QuadraticAESolver:
             raise PhysicsError(
                 msg=f'This is a weird error because it means that the indices obtained from the mask-determining part of this method fails to find reasonable start and end indices: start indices of TAR-valid zones = {_mask_start_validity}, end indices of TAR-valid zones = {_mask_end_validity}. Please check your input!'
             )
+        # a TAR-valid core follows an empty non-validity zone, so that
+        # the contributions of the zones are attributed to the right zones
+        if tar_valid[0]:
+            non_validity_indices = [(0, 0)] + non_validity_indices
+            non_validity_zone_masks = [np.s_[:0]] + non_validity_zone_masks
         # return the necessary values
         return (
             tar_valid,
-- 
2.43.0


From 4248f414a76581fc3e59155c4070dd5863c52ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 65/70] fix: amplitudes adjusted for TAR validity are not
 negative when the coupling coefficient changes sign

---
 .../coupling_coefficient_print_functions.py                  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py b/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
index 4a46f07..746c992 100644
--- a/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
+++ b/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
@@ -23,8 +23,9 @@ def print_normed_cc_and_get_adjust_ratio(cc_val: float | np.float64, adjusted_cc
     print(
         f'Normed coupling coefficient eta: {cc_val}, after adjustment for TAR validity: {adjusted_cc_val}'
     )
-    # compute and return the adjustment ratio
-    return adjusted_cc_val / cc_val
+    # compute and return the adjustment ratio (amplitudes depend on the modulus
+    # of the coupling coefficient)
+    return np.abs(adjusted_cc_val / cc_val)
 
 
 def print_theoretical_amplitudes(
-- 
2.43.0


From 209738c421b9863b0ebc3d3a3af4b701b71afe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 66/70] fix: drawn angular kernels carry the factors that their
 labels announce

---
 .../angular_kernels/angular_kernel_helper.py  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index e5d91f9..0e39971 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -177,8 +177,8 @@ class AngularKernelData:
         mul_with_mu: bool,
         div_by_sin: bool,
         multiplying_factor: float,
-    ) -> None:
-        """Scales angular kernels (in-place) with specific factors to obtain further differentiation between terms.
+    ) -> np.ndarray:
+        """Scales angular kernels with specific factors to obtain further differentiation between terms.
 
         Parameters
         ----------
@@ -190,18 +190,23 @@ class AngularKernelData:
             If True, divide the product kernel by sine(theta).
         multiplying_factor : float
             Multiply the product kernel with this factor. Set to 1.0 if no multiplication is necessary.
+
+        Returns
+        -------
+        np.ndarray
+            The scaled product kernel.
         """
         match (mul_with_mu, div_by_sin):
             case (False, False):
-                my_kernel = my_kernel * multiplying_factor
+                return my_kernel * multiplying_factor
             case (True, False):
-                my_kernel = my_kernel * multiplying_factor * self._mu_vals
+                return my_kernel * multiplying_factor * self._mu_vals
             case (False, True):
-                my_kernel = (
+                return (
                     my_kernel * multiplying_factor * self._div_by_sin_scaling
                 )
             case (True, True):
-                my_kernel = (
+                return (
                     my_kernel
                     * multiplying_factor
                     * self._mu_vals
@@ -275,7 +280,7 @@ class AngularKernelData:
         my_kernel = my_angular_kernel_dict['kernel']
         if TYPE_CHECKING:
             assert isinstance(my_kernel, np.ndarray)
-        self._scale_angular_terms(
+        my_angular_kernel_dict['kernel'] = self._scale_angular_terms(
             my_kernel=my_kernel,
             div_by_sin=div_by_sin,
             mul_with_mu=mul_with_mu,
-- 
2.43.0


From 8632f8def4e59e42c4c096cb922e361cf68a7bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 67/70] fix: two angular kernels of the third contribution are
 drawn without the division by sin(theta) that the coefficient does not have

---
 .../angular_kernels/angular_kernel_helper.py                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index 0e39971..c4bdb05 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -474,7 +474,7 @@ class AngularKernelData:
         self.angular_kernel_terms['term_18'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'phi_phi', 'phi_phi'],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_19'] = self._load_angular_kernel_term(
             symmetrized_term_list=[
@@ -483,7 +483,7 @@ class AngularKernelData:
                 'theta_der_ht_theta',
             ],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_20'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'hr', 'theta_der_ht_theta'],
-- 
2.43.0


From 8eb6c815d05817d930f07c017598f593d283dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 68/70] fix: frequencies in Hz need no conversion and are
 returned by factor_from_object

---
 .../enumeration_freq_converter_normalization.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index a01bf6e..da8a002 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -337,10 +337,12 @@ class EnumerationGYREFreqConverter(Enum):
             )
             if not use_complex:
                 my_frequency = my_frequency.real
-            # - perform the action on the frequency
-            if TYPE_CHECKING:
-                assert isinstance(my_action, Callable)
-            my_frequency = my_action(my_frequency, my_obj)
+            # - perform the action on the frequency, if one is needed (units that are
+            #   not Hz)
+            if my_action is not None:
+                if TYPE_CHECKING:
+                    assert isinstance(my_action, Callable)
+                my_frequency = my_action(my_frequency, my_obj)
             # - perform indexing if needed
             if my_index is not None:
                 my_frequency = my_frequency[my_index]
-- 
2.43.0


From 3e92d86964f7f78884739668de81ff2886a96381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:05 +0000
Subject: [PATCH 69/70] fix: models beyond the seventh are part of the printed
 analysis

---
 aesolver/ae_analyzer/quadratic_stationary_analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index 2aed304..0f538d2 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -100,7 +100,7 @@ class QuadraticAEStationaryAnalyzer:
         analysis_dict,
         save_information,
         requested_frequency_unit='cpd',
-        model_names=['model1', 'model2', 'model3', 'model4', 'model5', 'model6', 'model7']
+        model_names=None
     ) -> None:
         # store the path to the stored HDF5 file
         self._hdf5_path = generate_load_file_path_list(
@@ -113,7 +113,7 @@ class QuadraticAEStationaryAnalyzer:
         # load and compute the data for the analysis
         self._load_and_compute_data()
         # store the model names
-        self._model_names = model_names
+        self._model_names = [f'model{_i + 1}' for _i in range(len(self._list_data_dict))] if model_names is None else model_names
 
     # loads the plot data during initialization
     def _load_and_compute_data(self) -> None:
-- 
2.43.0


From b7a1308cb6f2aaf928d7cf6ed41139d8c3e95459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:51 +0000
Subject: [PATCH 70/70] fix: a Hough function of an undefined eigenvalue
 estimate is an error

---
 hough-func-tools/hough_function/hough_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index e9d2c86..0cfe220 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -712,6 +712,9 @@ class HoughFunction:
                 # adjust input value when necessary (see comments above)
                 if self._lmbd_adjust:
                     self._lmbd *= -1.0
+            # an undefined estimate cannot be used to select an eigenvalue
+            if np.isnan(self._lmbd):
+                raise ValueError('The estimate of the eigenvalue is not a number.')
             # get first occurrence of smallest distance to calculated eigenvalue
             _mask = np.argmin(np.abs(self._lmbd - self._eigvals))
             # obtain the eigenvalue and radial Hough function
-- 
2.43.0

