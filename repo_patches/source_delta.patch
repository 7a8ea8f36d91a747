From 61983c552de52d29a5f4b92cf737bd8dc6c453de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 01/15] fix: constant-step evolve took an extra step past tf
 when accumulated times rounded below it

Grid times are now t0 + k*h instead of a running sum, and a remainder that is
rounding noise relative to h neither triggers another step nor rejects h == tf - t0.
---
 rkstiff/solvercs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 160007d..3f2dcd7 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -248,17 +248,20 @@ class BaseSolverCS(BaseSolver):
             self.t.append(t0)
             self.u.append(u)
 
+        # Time left below this is rounding noise (t0 + k*h is inexact), not another step
+        tol = 1e-6 * h
+
         # Ensure step size is valid
-        if self.__tc + h > self.__tf:
+        if h - (tf - t0) > tol:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
 
         self.logger.debug("Step size h=%s, store_freq=%s", h, store_freq)
 
         step_count = 0
-        while self.__tc < self.__tf:
+        while self.__tf - self.__tc > tol:
             u = self.step(u, h)
-            self.__tc += h
             step_count += 1
+            self.__tc = t0 + step_count * h
 
             if step_count % 100 == 0:
                 self.logger.info(
-- 
2.43.0


From 6bcce86ae22ffb893ebb6ac820afbe8302a40b57 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 02/15] fix: evolve progress message divided by tf, failing for
 tf == 0

The reported percentage is now relative to the integration span.
---
 rkstiff/solveras.py | 2 +-
 rkstiff/solvercs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 25062ef..0fa7d87 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -631,7 +631,7 @@ class BaseSolverAS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 3f2dcd7..dafef94 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -268,7 +268,7 @@ class BaseSolverCS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
-- 
2.43.0


From c79c2e068d4ca89292006f2ec184a984eb7b98da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 03/15] fix: adaptive solvers rejected every step whose error
 estimate is exactly zero

A zero error estimate (vanishing nonlinearity, zero state) gave s = inf or nan
and ended in MinimumStepReached; it is now accepted with the largest growth factor.
---
 rkstiff/solveras.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 0fa7d87..c6e6904 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -449,9 +449,14 @@ class BaseSolverAS(BaseSolver):
         """
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
-        idx = magu / magu.max() > self.config.adapt_cutoff
+        umax = magu.max()
+        idx = magu / umax > self.config.adapt_cutoff if umax != 0 else np.ones_like(magu, dtype=bool)
         tol = self.config.epsilon * np.linalg.norm(u[idx])
-        s = self.config.safety_f * np.power(tol / np.linalg.norm(err[idx]), 1.0 / self._q())
+        err_norm = np.linalg.norm(err[idx])
+        # A vanishing error estimate is a perfect step, not a division by zero
+        if np.isfinite(umax) and err_norm <= tol * np.finfo(float).tiny:
+            return self.MAX_S
+        s = self.config.safety_f * np.power(tol / err_norm, 1.0 / self._q())
         return s
 
     def _reject_step_size(self, s: float, h: float) -> float:
-- 
2.43.0


From ee2c2da94931db3a44c837a1b2fc98132f092aad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 04/15] fix: FFT grids could return n + 1 points

np.arange(a, b, dx) with a float step can include the right endpoint (n=98 on [0, 1]).
---
 rkstiff/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index bdeb596..5401b0e 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -80,7 +80,7 @@ def construct_x_kx_rfft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[n
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)
     return x, kx
 
@@ -126,7 +126,7 @@ def construct_x_kx_fft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[np
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.fftfreq(n, d=dx)
     return x, kx
 
-- 
2.43.0


From e76192982a317a1fa152f4702a1b75149eba1502 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 05/15] fix: diagonalized adaptive solvers measured the error
 in the eigenbasis

u is compared in the physical basis, so the error estimate has to be mapped back too.
---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 rkstiff/if34.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 4a25323..c918789 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -301,7 +301,7 @@ class _Etd34Diagonalized(_Etd34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = self._a54 * (self._NL4 - self._NL5)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd34NonDiagonal:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index d821272..51608db 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -492,7 +492,7 @@ class _Etd35Diagonalized(_Etd35Diagonal):
             + self._a76 * self._NL6
         )
         self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd35NonDiagonal:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 535dbbe..566942a 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -193,7 +193,7 @@ class _If34Diagonalized(_If34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = h * (self._NL4 - self._NL5) / 6.0
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 # ======================================================================
-- 
2.43.0


From f3e4e43d8013e088c559249bf0a0c2fa9f0defa3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 06/15] fix: wrong Dormand-Prince error coefficient in IF45DP
 (17/1920 for 71/1920)

The weights did not sum to zero, so the estimate was first order.
---
 rkstiff/if45dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 0750437..18500f8 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -231,7 +231,7 @@ class IF45DP(BaseSolverAS):
         self._a76 = 11 * h / 84.0
         self._r1 = h * 71 * self._EL / 57600.0
         self._r3 = -71 * h * EL710 / 16695.0
-        self._r4 = 17 * h * self._EL15 / 1920.0
+        self._r4 = 71 * h * self._EL15 / 1920.0
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
-- 
2.43.0


From 48a05450150e7ace0ba19c0969f7e1d2832d8cfc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 07/15] fix: default-constructed solvers shared one mutable
 config object

Changing solver.config or solver.etd_config of one solver changed every other
solver of the class built with the defaults.
---
 rkstiff/etd.py      | 12 ++++++------
 rkstiff/etd34.py    | 12 ++++++------
 rkstiff/etd35.py    | 12 ++++++------
 rkstiff/etd4.py     |  4 ++--
 rkstiff/etd5.py     |  8 ++++----
 rkstiff/if34.py     |  4 ++--
 rkstiff/if45dp.py   |  4 ++--
 rkstiff/solveras.py |  4 ++--
 8 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index 584a02e..c220b64 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -37,7 +37,7 @@ ETD methods are particularly efficient when
 :math:`\mathcal{N}(\mathbf{U})` evolves on a slower time scale than the linear component :math:`\mathcal{L}\mathbf{U}`.
 """
 
-from typing import Union, Literal, Callable
+from typing import Union, Literal, Callable, Optional
 import numpy as np
 from .solvercs import BaseSolverCS
 from .solveras import SolverConfig, BaseSolverAS
@@ -217,12 +217,12 @@ class ETDAS(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, config, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
 
 
@@ -270,9 +270,9 @@ class ETDCS(BaseSolverCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index c918789..675788c 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -17,7 +17,7 @@ third-order error estimation for adaptive step control.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -509,8 +509,8 @@ class ETD34(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -545,12 +545,12 @@ class ETD34(ETDAS):
         """
         super().__init__(lin_op, nl_func, config=config, etd_config=etd_config, loglevel=loglevel)
         if self._diag:
-            self._method = _Etd34Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd34Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd34Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd34Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd34NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd34NonDiagonal(lin_op, nl_func, self.etd_config)
         self.__n1_init = False
         self._accept = False
 
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 51608db..10e8d23 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -61,7 +61,7 @@ local error estimates derived from the third-order embedding.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -785,8 +785,8 @@ class ETD35(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -820,12 +820,12 @@ class ETD35(ETDAS):
             loglevel=loglevel,
         )
         if self._diag:
-            self._method = _Etd35Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd35Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd35Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd35Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd35NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd35NonDiagonal(lin_op, nl_func, self.etd_config)
         self._stages_init = False
         self._accept = False
 
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index a49b6e3..d38db61 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -25,7 +25,7 @@ Journal of Computational Physics, 203(1), 72–88.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -346,7 +346,7 @@ class ETD4(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         r"""
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 3255557..dcbd6b2 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -28,7 +28,7 @@ Whalen, P., Brio, M., & Moloney, J.V. (2015).
 Journal of Computational Physics, 280, 579–601.
 """
 
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -83,12 +83,12 @@ class _Etd5Diagonal:  # pylint: disable=too-few-public-methods
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
     ) -> None:
         """Initialize ETD5 diagonal system strategy."""
         self.lin_op = lin_op.astype(np.complex128, copy=False)
         self.nl_func = nl_func
-        self.etd_config = etd_config
+        self.etd_config = ETDConfig() if etd_config is None else etd_config
         n = lin_op.shape[0]
         self._EL14, self._EL12, self._EL34, self._EL = [np.zeros(n, dtype=np.complex128) for _ in range(4)]
         (
@@ -536,7 +536,7 @@ class ETD5(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 566942a..e8d6fbb 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -39,7 +39,7 @@ J. Comput. Phys. **280**, 579-601 (2015).
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Optional, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .solveras import SolverConfig, BaseSolverAS
@@ -290,7 +290,7 @@ class IF34(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 18500f8..c95cf93 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -1,6 +1,6 @@
 """Integrating factor adaptive step solver of 5th order with 4rd order embedding."""
 
-from typing import Callable, Literal, Union
+from typing import Callable, Literal, Optional, Union
 import numpy as np
 from .solveras import SolverConfig, BaseSolverAS
 
@@ -48,7 +48,7 @@ class IF45DP(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index c6e6904..663a481 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -263,12 +263,12 @@ class BaseSolverAS(BaseSolver):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """Initialize an adaptive-step solver with validated configuration."""
         super().__init__(lin_op, nl_func, loglevel)
-        self.config = config
+        self.config = config = SolverConfig() if config is None else config
 
         self.logger.debug(
             "Adaptive configuration: epsilon=%s, incr_f=%s, decr_f=%s, safety_f=%s",
-- 
2.43.0


From 1ecaae274d57d30e23640dfdd768bf65109b089c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 08/15] fix: configuration setters accepted NaN

Every comparison with NaN is false, so the range checks let it through.
---
 rkstiff/etd.py      |  4 ++--
 rkstiff/solveras.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index c220b64..d11b578 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -96,7 +96,7 @@ class ETDConfig:
 
     @modecutoff.setter
     def modecutoff(self, value: float) -> None:
-        if (value > 1.0) or (value <= 0):
+        if not 0 < value <= 1.0:
             raise ValueError(f"modecutoff must be between 0.0 and 1.0 but is {value}")
         self._modecutoff = value
 
@@ -126,7 +126,7 @@ class ETDConfig:
 
     @contour_radius.setter
     def contour_radius(self, value: float) -> None:
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"contour_radius must greater than 0 but is {value}")
         self._contour_radius = value
 
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 663a481..0b58a1d 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -104,7 +104,7 @@ class SolverConfig:
     @epsilon.setter
     def epsilon(self, value: float) -> None:
         """Set relative error tolerance, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"epsilon must be positive but is {value}")
         self._epsilon = float(value)
 
@@ -116,7 +116,7 @@ class SolverConfig:
     @incr_f.setter
     def incr_f(self, value: float) -> None:
         """Set increment factor, must be greater than 1.0."""
-        if value <= 1.0:
+        if not value > 1.0:
             raise ValueError(f"incr_f must be > 1.0 but is {value}")
         self._incr_f = float(value)
 
@@ -128,7 +128,7 @@ class SolverConfig:
     @decr_f.setter
     def decr_f(self, value: float) -> None:
         """Set decrement factor, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"decr_f must be < 1.0 but is {value}")
         self._decr_f = float(value)
 
@@ -140,7 +140,7 @@ class SolverConfig:
     @safety_f.setter
     def safety_f(self, value: float) -> None:
         """Set safety factor, must be ≤ 1.0."""
-        if value > 1.0:
+        if not value <= 1.0:
             raise ValueError(f"safety_f must be <= 1.0 but is {value}")
         self._safety_f = float(value)
 
@@ -152,7 +152,7 @@ class SolverConfig:
     @adapt_cutoff.setter
     def adapt_cutoff(self, value: float) -> None:
         """Set adaptivity cutoff, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"adapt_cutoff must be < 1.0 but is {value}")
         self._adapt_cutoff = float(value)
 
@@ -164,7 +164,7 @@ class SolverConfig:
     @minh.setter
     def minh(self, value: float) -> None:
         """Set minimum step size, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"minh must be positive but is {value}")
         self._minh = float(value)
 
-- 
2.43.0


From 0fb806dde7bf7a1242ca2e53e8b2b5392f50aad6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 09/15] fix: adaptive evolve could end one rounding error past
 tf or add a spurious last step

tc + (tf - tc) is not always tf in floating point; the step that covers the
remaining time now lands exactly on tf.
---
 rkstiff/solveras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 0b58a1d..c584111 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -627,8 +627,10 @@ class BaseSolverAS(BaseSolver):
 
         step_count = 0
         while self.__tc < self.__tf:
+            h_left = self.__tf - self.__tc
             u, h, h_suggest = self.step(u, h)
-            self.__tc += h
+            # tc + (tf - tc) can miss tf by one rounding error
+            self.__tc = self.__tf if h == h_left else self.__tc + h
             step_count += 1
 
             if step_count % 100 == 0:
-- 
2.43.0


From 28367d4508960dcca362ada4f213818bafb9190c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 10/15] fix: ETD solvers kept stale coefficients after a failed
 coefficient update

---
 rkstiff/etd34.py | 3 ++-
 rkstiff/etd35.py | 3 ++-
 rkstiff/etd4.py  | 3 ++-
 rkstiff/etd5.py  | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 675788c..54454c0 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -582,8 +582,9 @@ class ETD34(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients if the update fails
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 10e8d23..53faeb3 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -850,8 +850,9 @@ class ETD35(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients if the update fails
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD35 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index d38db61..add78cb 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -395,8 +395,9 @@ class ETD4(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients if the update fails
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index dcbd6b2..1e957b5 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -615,8 +615,9 @@ class ETD5(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients if the update fails
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD5 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
-- 
2.43.0


From 6de87b93124944bb95b683dccab0d4c68dc403ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 11/15] fix: refuse a NaN maximum radius of Hankel grids and
 transforms

---
 rkstiff/grids.py      | 2 +-
 rkstiff/transforms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index 5401b0e..08c7cee 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -254,7 +254,7 @@ def construct_r_kr_hankel(nr: int, rmax: float) -> Tuple[np.ndarray, np.ndarray,
     """
     if nr < 4:
         raise ValueError("nr must be ≥ 4.")
-    if rmax <= 0:
+    if not rmax > 0:
         raise ValueError("rmax must be positive.")
 
     bessel_zeros = sp.jn_zeros(0, nr + 1)
diff --git a/rkstiff/transforms.py b/rkstiff/transforms.py
index 11949c6..3cede78 100644
--- a/rkstiff/transforms.py
+++ b/rkstiff/transforms.py
@@ -167,7 +167,7 @@ class HankelTransform:
     @rmax.setter
     def rmax(self, rmax: float):
         """Set maximum radial extent and recompute Hankel transform grid."""
-        if rmax <= 0:
+        if not rmax > 0:
             raise ValueError("rmax must be positive.")
         self._setnr_setrmax(self._nr, rmax)
 
-- 
2.43.0


From bec3ea8dc4277aa81bc14058f6018852659664d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 12/15] fix: IF solvers keep no coefficients after a failed
 update

With floating-point errors made exceptions (np.errstate) the exponentials of
a large step may not be computable.  IF4, IF34 and IF45DP had already noted
the new step size by then, so the next attempt at the same size silently
used the coefficients of an earlier one.
---
 rkstiff/if34.py   | 3 ++-
 rkstiff/if4.py    | 3 ++-
 rkstiff/if45dp.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index e8d6fbb..00b06b3 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -314,8 +314,9 @@ class IF34(BaseSolverAS):
     def _update_coeffs(self, h: float) -> None:
         """Recompute coefficients if step size changed."""
         if h != self._h_coeff:
-            self._h_coeff = h
+            self._h_coeff = None  # no valid coefficients if the update fails
             self._method.update_coeffs(h)
+            self._h_coeff = h
             self.logger.debug("IF34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index 56d86e4..6ce2ce9 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -262,8 +262,9 @@ class IF4(BaseSolverCS):
         """Update exponential coefficients if step size :math:`h` changes."""
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients if the update fails
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("IF4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index c95cf93..747f9fe 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -200,7 +200,7 @@ class IF45DP(BaseSolverAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients if the update fails
         z = h * self.lin_op
         self._EL15 = np.exp(z / 5)
         self._EL310 = np.exp(3 * z / 10)
@@ -235,6 +235,7 @@ class IF45DP(BaseSolverAS):
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
+        self._h_coeff = h
         self.logger.debug("IF45 coefficients updated for step size h=%s", h)
 
     def _q(self) -> int:
-- 
2.43.0


From f28a0a35e763a9d19bf939fa4c156ad0913fa251 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 13/15] fix: adaptive solvers keep nothing of a trial that
 fails

---
 rkstiff/solveras.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index c584111..8341a35 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -382,9 +382,14 @@ class BaseSolverAS(BaseSolver):
 
         numloops = 0
         while True:
-            unew, err = self._update_stages(u, h)
-            # Compute step size change factor s
-            s = self._compute_s(unew, err)
+            try:
+                unew, err = self._update_stages(u, h)
+                # Compute step size change factor s
+                s = self._compute_s(unew, err)
+            except BaseException:
+                # An unfinished trial leaves nothing that the next one may build on
+                self._reset()
+                raise
             self.logger.debug("Computed s=%s for h=%s", s, h)
 
             # If s is less than 1, inf, or nan, reject step and reduce step size
-- 
2.43.0


From 6f88899582ddc59d893bf78f1b3773bc9a3d4f4c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 14/15] fix: an infinite error estimate was accepted when the
 norm of the state overflowed

---
 rkstiff/solveras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 8341a35..e29ff54 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -459,7 +459,9 @@ class BaseSolverAS(BaseSolver):
         tol = self.config.epsilon * np.linalg.norm(u[idx])
         err_norm = np.linalg.norm(err[idx])
         # A vanishing error estimate is a perfect step, not a division by zero
-        if np.isfinite(umax) and err_norm <= tol * np.finfo(float).tiny:
+        # (tol is 0 or inf where the norm of u underflows or overflows: that says nothing about err)
+        negligible = 0 < tol < np.inf and err_norm <= tol * np.finfo(float).tiny
+        if np.isfinite(umax) and (negligible or not np.any(err[idx])):
             return self.MAX_S
         s = self.config.safety_f * np.power(tol / err_norm, 1.0 / self._q())
         return s
-- 
2.43.0


From e4b128cd5838bb48e7f25094385e0252be1c79b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 15/15] fix: a finite error was refused when the tolerance
 times the norm of the state overflowed

---
 rkstiff/solveras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index e29ff54..e4ec728 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -459,8 +459,8 @@ class BaseSolverAS(BaseSolver):
         tol = self.config.epsilon * np.linalg.norm(u[idx])
         err_norm = np.linalg.norm(err[idx])
         # A vanishing error estimate is a perfect step, not a division by zero
-        # (tol is 0 or inf where the norm of u underflows or overflows: that says nothing about err)
-        negligible = 0 < tol < np.inf and err_norm <= tol * np.finfo(float).tiny
+        # (a tol that underflows to 0 says nothing about err, nor does one that overflows about an infinite err)
+        negligible = tol > 0 and np.isfinite(err_norm) and err_norm <= tol * np.finfo(float).tiny
         if np.isfinite(umax) and (negligible or not np.any(err[idx])):
             return self.MAX_S
         s = self.config.safety_f * np.power(tol / err_norm, 1.0 / self._q())
-- 
2.43.0

