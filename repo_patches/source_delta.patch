From a2ca93d19db4c3b993329545a827b7f79fd87768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 01/14] fix: progress report divided by the final time, failing
 for runs ending at t=0

---
 rkstiff/solveras.py | 2 +-
 rkstiff/solvercs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 25062ef..509a27b 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -631,7 +631,7 @@ class BaseSolverAS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - self.__t0) / (self.__tf - self.__t0),
                     step_count,
                 )
 
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 160007d..ff655ff 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -265,7 +265,7 @@ class BaseSolverCS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
-- 
2.43.0


From 9f526a098653d1e39569597208f10740a9c89f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:09 +0000
Subject: [PATCH 02/14] fix: constant-step evolve takes the number of steps the
 interval calls for

Accumulating t += h added or dropped a step, or refused h == tf - t0, through rounding;
a step size of zero or below looped for ever.
---
 rkstiff/solvercs.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index ff655ff..8de765d 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -226,7 +226,7 @@ class BaseSolverCS(BaseSolver):
         Raises
         ------
         ValueError
-            If ``h`` exceeds the total time span ``tf - t0``.
+            If ``h`` is not positive or exceeds the total time span ``tf - t0``.
 
         Notes
         -----
@@ -249,16 +249,22 @@ class BaseSolverCS(BaseSolver):
             self.u.append(u)
 
         # Ensure step size is valid
-        if self.__tc + h > self.__tf:
+        if not h > 0:
+            raise ValueError(f"Step size h must be positive but is {h}")
+        # Number of steps that reach tf; rounding in t0, tf and h must not add or drop one
+        ratio = (tf - t0) / h
+        rounding = 4 * np.finfo(float).eps * (ratio + (abs(t0) + abs(tf)) / h)
+        if not 1.0 - rounding <= ratio < np.inf:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
+        num_steps = max(1, np.ceil(ratio - rounding))
 
         self.logger.debug("Step size h=%s, store_freq=%s", h, store_freq)
 
         step_count = 0
-        while self.__tc < self.__tf:
+        while step_count < num_steps:
             u = self.step(u, h)
-            self.__tc += h
             step_count += 1
+            self.__tc = t0 + step_count * h
 
             if step_count % 100 == 0:
                 self.logger.info(
-- 
2.43.0


From 6c364d01a642da8024d1c1e56befcba4b9e46a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 03/14] fix: adaptive step never accepted when the error
 estimate is exactly zero

A zero error gave s=inf (or nan for a zero state), which rejects the step; problems without
error (constant or zero nonlinear term, zero state) could not be integrated at all.
---
 rkstiff/solveras.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 509a27b..9702773 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -449,8 +449,13 @@ class BaseSolverAS(BaseSolver):
         """
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
-        idx = magu / magu.max() > self.config.adapt_cutoff
+        if magu.max() == 0.0:  # nothing to compare with: every component counts
+            idx = magu == 0.0
+        else:
+            idx = magu / magu.max() > self.config.adapt_cutoff
         tol = self.config.epsilon * np.linalg.norm(u[idx])
+        if np.isfinite(magu.max()) and np.linalg.norm(err[idx]) == 0.0:
+            return self.MAX_S  # no error at all
         s = self.config.safety_f * np.power(tol / np.linalg.norm(err[idx]), 1.0 / self._q())
         return s
 
-- 
2.43.0


From 95804b363ab8faaec4c88d31bbeb5c71943909b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 04/14] fix: adaptive evolve loops for ever when the step is
 too small to change the time

---
 rkstiff/solveras.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 9702773..5ec9b4f 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -628,6 +628,10 @@ class BaseSolverAS(BaseSolver):
         step_count = 0
         while self.__tc < self.__tf:
             u, h, h_suggest = self.step(u, h)
+            if self.__tc + h == self.__tc:
+                failure_str = "Solver failed: adaptive step is too small to advance the time"
+                self.logger.error(failure_str)
+                raise self.MinimumStepReached(failure_str)
             self.__tc += h
             step_count += 1
 
-- 
2.43.0


From 9dc44b8ef6ed29d10d59bc425de4cbb5d3084659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 05/14] fix: diagonalized solvers measured the error in the
 eigenbasis

The error estimate is compared, component by component, with the solution in the original
basis; in the eigenbasis its size depends on the arbitrary scaling of the eigenvectors.
---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 rkstiff/if34.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 4a25323..c918789 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -301,7 +301,7 @@ class _Etd34Diagonalized(_Etd34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = self._a54 * (self._NL4 - self._NL5)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd34NonDiagonal:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index d821272..51608db 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -492,7 +492,7 @@ class _Etd35Diagonalized(_Etd35Diagonal):
             + self._a76 * self._NL6
         )
         self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd35NonDiagonal:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 535dbbe..566942a 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -193,7 +193,7 @@ class _If34Diagonalized(_If34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = h * (self._NL4 - self._NL5) / 6.0
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 # ======================================================================
-- 
2.43.0


From c5b99eda9714b214838f4220d3c367656a371e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 06/14] fix: IF45DP error weight of the fourth stage is 71/1920

With 17/1920 the weights of the difference between the two embedded solutions do not add up
to zero, so the error estimate shrinks with h instead of h**5.
---
 rkstiff/if45dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 0750437..18500f8 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -231,7 +231,7 @@ class IF45DP(BaseSolverAS):
         self._a76 = 11 * h / 84.0
         self._r1 = h * 71 * self._EL / 57600.0
         self._r3 = -71 * h * EL710 / 16695.0
-        self._r4 = 17 * h * self._EL15 / 1920.0
+        self._r4 = 71 * h * self._EL15 / 1920.0
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
-- 
2.43.0


From 5ce1dd5dfe2770851a20101f6c145574548c81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 07/14] fix: solvers built without settings shared one settings
 object

The default SolverConfig/ETDConfig was created once, in the signature: changing the settings
of one solver changed those of every other solver relying on the defaults.
---
 rkstiff/etd.py      | 12 ++++++------
 rkstiff/etd34.py    | 12 ++++++------
 rkstiff/etd35.py    | 12 ++++++------
 rkstiff/etd4.py     |  4 ++--
 rkstiff/etd5.py     | 10 +++++-----
 rkstiff/if34.py     |  4 ++--
 rkstiff/if45dp.py   |  4 ++--
 rkstiff/solveras.py |  3 ++-
 8 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index 584a02e..c220b64 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -37,7 +37,7 @@ ETD methods are particularly efficient when
 :math:`\mathcal{N}(\mathbf{U})` evolves on a slower time scale than the linear component :math:`\mathcal{L}\mathbf{U}`.
 """
 
-from typing import Union, Literal, Callable
+from typing import Union, Literal, Callable, Optional
 import numpy as np
 from .solvercs import BaseSolverCS
 from .solveras import SolverConfig, BaseSolverAS
@@ -217,12 +217,12 @@ class ETDAS(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, config, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
 
 
@@ -270,9 +270,9 @@ class ETDCS(BaseSolverCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index c918789..8ef4f75 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -17,7 +17,7 @@ third-order error estimation for adaptive step control.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -509,8 +509,8 @@ class ETD34(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -545,12 +545,12 @@ class ETD34(ETDAS):
         """
         super().__init__(lin_op, nl_func, config=config, etd_config=etd_config, loglevel=loglevel)
         if self._diag:
-            self._method = _Etd34Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd34Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd34Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd34Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd34NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd34NonDiagonal(lin_op, nl_func, self.etd_config)
         self.__n1_init = False
         self._accept = False
 
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 51608db..8cf443c 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -61,7 +61,7 @@ local error estimates derived from the third-order embedding.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -785,8 +785,8 @@ class ETD35(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -820,12 +820,12 @@ class ETD35(ETDAS):
             loglevel=loglevel,
         )
         if self._diag:
-            self._method = _Etd35Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd35Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd35Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd35Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd35NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd35NonDiagonal(lin_op, nl_func, self.etd_config)
         self._stages_init = False
         self._accept = False
 
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index a49b6e3..2d3a822 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -25,7 +25,7 @@ Journal of Computational Physics, 203(1), 72–88.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -346,7 +346,7 @@ class ETD4(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         r"""
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 3255557..de5f2f5 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -28,7 +28,7 @@ Whalen, P., Brio, M., & Moloney, J.V. (2015).
 Journal of Computational Physics, 280, 579–601.
 """
 
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -83,12 +83,12 @@ class _Etd5Diagonal:  # pylint: disable=too-few-public-methods
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
     ) -> None:
         """Initialize ETD5 diagonal system strategy."""
         self.lin_op = lin_op.astype(np.complex128, copy=False)
         self.nl_func = nl_func
-        self.etd_config = etd_config
+        self.etd_config = ETDConfig() if etd_config is None else etd_config
         n = lin_op.shape[0]
         self._EL14, self._EL12, self._EL34, self._EL = [np.zeros(n, dtype=np.complex128) for _ in range(4)]
         (
@@ -536,7 +536,7 @@ class ETD5(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
@@ -555,7 +555,7 @@ class ETD5(ETDCS):
             Supports both real and complex values.
         nl_func : Callable[[np.ndarray], np.ndarray]
             Nonlinear function that maps the solution vector to its nonlinear contribution.
-        etd_config : ETDConfig, default=ETDConfig()
+        etd_config : ETDConfig, optional
             Configuration object containing modecutoff, contour_points, contour_radius.
         loglevel : Union[str, int], default="WARNING"
             Logging level.
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 566942a..7cad2f9 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -39,7 +39,7 @@ J. Comput. Phys. **280**, 579-601 (2015).
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .solveras import SolverConfig, BaseSolverAS
@@ -290,7 +290,7 @@ class IF34(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 18500f8..cce3d36 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -1,6 +1,6 @@
 """Integrating factor adaptive step solver of 5th order with 4rd order embedding."""
 
-from typing import Callable, Literal, Union
+from typing import Callable, Literal, Union, Optional
 import numpy as np
 from .solveras import SolverConfig, BaseSolverAS
 
@@ -48,7 +48,7 @@ class IF45DP(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 5ec9b4f..6bc9f09 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -263,11 +263,12 @@ class BaseSolverAS(BaseSolver):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """Initialize an adaptive-step solver with validated configuration."""
         super().__init__(lin_op, nl_func, loglevel)
+        config = SolverConfig() if config is None else config  # each solver has its own defaults
         self.config = config
 
         self.logger.debug(
-- 
2.43.0


From 597a71598ad93cf764f084ec463ba3583f949a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 08/14] fix: a step that raises no longer spoils the steps
 after it

The step size was recorded before its coefficients were computed, and the cached first stage
was replaced before the attempt finished: after an exception in the nonlinear function, an
interrupt or a rejected chain of attempts, later steps used coefficients or stages that did
not belong to them.
---
 rkstiff/solveras.py | 10 ++++++++++
 rkstiff/solvercs.py |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 6bc9f09..ee2a92f 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -377,6 +377,16 @@ class BaseSolverAS(BaseSolver):
            Very small or divergent ``s`` values may indicate instability
            or excessively tight tolerances.
         """
+        try:
+            return self._adaptive_step(u, h_suggest)
+        except BaseException:
+            # coefficients and stages may be half-updated: the next step computes them afresh
+            self._accept = False
+            self._reset()
+            raise
+
+    def _adaptive_step(self, u: np.ndarray, h_suggest: float) -> Tuple[np.ndarray, float, float]:
+        """Attempt steps of decreasing size until one is accepted."""
         h = h_suggest
         assert h >= 0.0
         self.logger.debug("Starting step with h_suggest=%s", h_suggest)
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 8de765d..426fde7 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -183,7 +183,12 @@ class BaseSolverCS(BaseSolver):
         """
         assert h >= 0.0
         self.logger.debug("Executing constant step with h=%s", h)
-        return self._update_stages(u, h)
+        try:
+            return self._update_stages(u, h)
+        except BaseException:
+            # coefficients and stages may be half-updated: the next step computes them afresh
+            self._reset()
+            raise
 
     # ------------------------------------------------------------------
     # Evolution loop
-- 
2.43.0


From 76f6e3b09b60884313dddcf5fbd4889a13e9e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 09/14] fix: failed change of a Hankel transform left new sizes
 with old grids or matrix

---
 rkstiff/transforms.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rkstiff/transforms.py b/rkstiff/transforms.py
index 11949c6..67fc405 100644
--- a/rkstiff/transforms.py
+++ b/rkstiff/transforms.py
@@ -102,16 +102,18 @@ class HankelTransform:
 
     def _setnr_setrmax(self, nr, rmax):
         """(Re)initialize radial and spectral grids when parameters change."""
-        self._nr = nr
-        self._rmax = rmax
-        self.r, self.kr, self._bessel_zeros, self._jN = construct_r_kr_hankel(nr, rmax)
-        self._sethankelmatrix()
-
-    def _sethankelmatrix(self):
+        r, kr, bessel_zeros, jN = construct_r_kr_hankel(nr, rmax)
+        Y = self._make_hankel_matrix(bessel_zeros, jN)
+        # All at once, after everything that can fail: a refused change leaves the transform as it was
+        new = nr, rmax, r, kr, bessel_zeros, jN, Y
+        self._nr, self._rmax, self.r, self.kr, self._bessel_zeros, self._jN, self._Y = new
+
+    @staticmethod
+    def _make_hankel_matrix(bessel_zeros, jN):
         """Construct the discrete Hankel transform matrix based on :math:`J_0` zeros."""
-        j1vec = sp.j1(self._bessel_zeros)
-        bessel_arg = np.outer(self._bessel_zeros, self._bessel_zeros) / self._jN
-        self._Y = 2 * sp.j0(bessel_arg) / (self._jN * j1vec**2)
+        j1vec = sp.j1(bessel_zeros)
+        bessel_arg = np.outer(bessel_zeros, bessel_zeros) / jN
+        return 2 * sp.j0(bessel_arg) / (jN * j1vec**2)
 
     def _scalefactor(self) -> float:
         r"""Internal scale factor :math:`S = r_{\max}^2 / j_{N+1}`."""
-- 
2.43.0


From 36c9ec3bb96c4eec9ef2721f03bd0e83b12301a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 10/14] fix: solvers created at the same time in several
 threads logged every event twice

---
 rkstiff/util/loghelper.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/rkstiff/util/loghelper.py b/rkstiff/util/loghelper.py
index 4baf390..e6f78a7 100644
--- a/rkstiff/util/loghelper.py
+++ b/rkstiff/util/loghelper.py
@@ -36,8 +36,12 @@ Example
 """
 
 import logging
+import threading
 from typing import Union
 
+# Held while a logger is given its handler
+_HANDLER_LOCK = threading.Lock()
+
 
 def _parse_loglevel(loglevel: Union[str, int]) -> int:
     r"""
@@ -143,14 +147,15 @@ def setup_logger(name: str, loglevel: Union[str, int] = "WARNING") -> logging.Lo
     logger.setLevel(numeric_level)
 
     # Only add a handler if none exist (avoids duplicate output)
-    if not logger.handlers:
-        handler = logging.StreamHandler()
-        formatter = logging.Formatter(
-            "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
-            datefmt="%Y-%m-%d %H:%M:%S",
-        )
-        handler.setFormatter(formatter)
-        logger.addHandler(handler)
+    with _HANDLER_LOCK:
+        if not logger.handlers:
+            handler = logging.StreamHandler()
+            formatter = logging.Formatter(
+                "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
+                datefmt="%Y-%m-%d %H:%M:%S",
+            )
+            handler.setFormatter(formatter)
+            logger.addHandler(handler)
 
     return logger
 
-- 
2.43.0


From 92e8a039ad0436730cd29fe01e7977ab63f94b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 11/14] fix: uniform grids could get one point too many through
 rounding

---
 rkstiff/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index bdeb596..5401b0e 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -80,7 +80,7 @@ def construct_x_kx_rfft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[n
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)
     return x, kx
 
@@ -126,7 +126,7 @@ def construct_x_kx_fft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[np
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.fftfreq(n, d=dx)
     return x, kx
 
-- 
2.43.0


From b74e5e0386a992edae44000d0a35e54461ef9742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 12/14] fix: settings accepted NaN, which satisfies none of
 their constraints

---
 rkstiff/etd.py      |  4 ++--
 rkstiff/solveras.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index c220b64..d11b578 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -96,7 +96,7 @@ class ETDConfig:
 
     @modecutoff.setter
     def modecutoff(self, value: float) -> None:
-        if (value > 1.0) or (value <= 0):
+        if not 0 < value <= 1.0:
             raise ValueError(f"modecutoff must be between 0.0 and 1.0 but is {value}")
         self._modecutoff = value
 
@@ -126,7 +126,7 @@ class ETDConfig:
 
     @contour_radius.setter
     def contour_radius(self, value: float) -> None:
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"contour_radius must greater than 0 but is {value}")
         self._contour_radius = value
 
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index ee2a92f..1c7b2a6 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -104,7 +104,7 @@ class SolverConfig:
     @epsilon.setter
     def epsilon(self, value: float) -> None:
         """Set relative error tolerance, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"epsilon must be positive but is {value}")
         self._epsilon = float(value)
 
@@ -116,7 +116,7 @@ class SolverConfig:
     @incr_f.setter
     def incr_f(self, value: float) -> None:
         """Set increment factor, must be greater than 1.0."""
-        if value <= 1.0:
+        if not value > 1.0:
             raise ValueError(f"incr_f must be > 1.0 but is {value}")
         self._incr_f = float(value)
 
@@ -128,7 +128,7 @@ class SolverConfig:
     @decr_f.setter
     def decr_f(self, value: float) -> None:
         """Set decrement factor, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"decr_f must be < 1.0 but is {value}")
         self._decr_f = float(value)
 
@@ -140,7 +140,7 @@ class SolverConfig:
     @safety_f.setter
     def safety_f(self, value: float) -> None:
         """Set safety factor, must be ≤ 1.0."""
-        if value > 1.0:
+        if not value <= 1.0:
             raise ValueError(f"safety_f must be <= 1.0 but is {value}")
         self._safety_f = float(value)
 
@@ -152,7 +152,7 @@ class SolverConfig:
     @adapt_cutoff.setter
     def adapt_cutoff(self, value: float) -> None:
         """Set adaptivity cutoff, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"adapt_cutoff must be < 1.0 but is {value}")
         self._adapt_cutoff = float(value)
 
@@ -164,7 +164,7 @@ class SolverConfig:
     @minh.setter
     def minh(self, value: float) -> None:
         """Set minimum step size, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"minh must be positive but is {value}")
         self._minh = float(value)
 
-- 
2.43.0


From cfd4c1eda911861deeaf062f145529588383791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:32 +0000
Subject: [PATCH 13/14] fix: a constant-step run restarted from a stored time
 could take a step too many

The stored time carries the rounding of the run it came from, which can be
larger than that of the restarted run's own t0, tf and h.
---
 rkstiff/solvercs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 426fde7..09d76a9 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -257,8 +257,9 @@ class BaseSolverCS(BaseSolver):
         if not h > 0:
             raise ValueError(f"Step size h must be positive but is {h}")
         # Number of steps that reach tf; rounding in t0, tf and h must not add or drop one
+        # (a t0 stored by an earlier run carries the rounding of that run's times)
         ratio = (tf - t0) / h
-        rounding = 4 * np.finfo(float).eps * (ratio + (abs(t0) + abs(tf)) / h)
+        rounding = max(1e-10, 4 * np.finfo(float).eps * (ratio + (abs(t0) + abs(tf)) / h))
         if not 1.0 - rounding <= ratio < np.inf:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
         num_steps = max(1, np.ceil(ratio - rounding))
-- 
2.43.0


From ed32f1c0769d3ebd1f5840b84fbbb8437d673818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 14/14] fix: Hankel transforms and grids accepted NaN as a
 radius

---
 rkstiff/grids.py      | 2 +-
 rkstiff/transforms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index 5401b0e..08c7cee 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -254,7 +254,7 @@ def construct_r_kr_hankel(nr: int, rmax: float) -> Tuple[np.ndarray, np.ndarray,
     """
     if nr < 4:
         raise ValueError("nr must be ≥ 4.")
-    if rmax <= 0:
+    if not rmax > 0:
         raise ValueError("rmax must be positive.")
 
     bessel_zeros = sp.jn_zeros(0, nr + 1)
diff --git a/rkstiff/transforms.py b/rkstiff/transforms.py
index 67fc405..3ff8865 100644
--- a/rkstiff/transforms.py
+++ b/rkstiff/transforms.py
@@ -169,7 +169,7 @@ class HankelTransform:
     @rmax.setter
     def rmax(self, rmax: float):
         """Set maximum radial extent and recompute Hankel transform grid."""
-        if rmax <= 0:
+        if not rmax > 0:
             raise ValueError("rmax must be positive.")
         self._setnr_setrmax(self._nr, rmax)
 
-- 
2.43.0

