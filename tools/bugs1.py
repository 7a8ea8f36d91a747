H = """
import sys, warnings, logging
import numpy as np
warnings.simplefilter("ignore")
np.seterr(all="ignore")
logging.disable(logging.CRITICAL)
"""
B("small-mode-last", "C02", [("rkstiff/etd35.py", "        if not np.any(smallmode_idx):\n            return\n", "        if not np.any(smallmode_idx[:-1]) and smallmode_idx.size > 1:\n            return\n")], H + """
from rkstiff.etd35 import ETD35
L = np.array([-3.0, -1e-4]); c = np.array([0.5, 1.0]); u = np.array([1.0, 1.0]); h = 0.5
un, hh, _ = ETD35(L, lambda v: c).step(u, h)
z = L * hh
want = np.exp(z) * u + hh * np.expm1(z) / z * c
sys.exit(0 if np.allclose(un, want, atol=1e-9) else 1)
""", "an operator whose only small mode (|hL| below the cutoff) is the last one", "ETD35 leaves the coefficients of that mode stale or zero")
B("small-mode-coef", "C01", [("rkstiff/etd35.py", "self._a52[idx] = -3 * psi1_34 / 8.0", "self._a52[idx] = -3 * psi1_34 / 4.0", -2)], H + """
from rkstiff.etd35 import ETD35
from rkstiff.etd5 import ETD5
L = np.array([-1e-3, 1e-3]); u = np.array([0.7, 0.4]); f = lambda v: v**2 - 0.5
a = ETD5(L, f).step(u, 0.5); s = ETD35(L, f); s.config.epsilon = 1e9
b = s.step(u, 0.5)[0]
sys.exit(0 if np.allclose(a, b, atol=1e-9) else 1)
""", "modes below the cutoff, evaluated on the contour", "one stage weight of ETD35 is wrong for small modes only")
B("dp-error-exponential", "C01", [("rkstiff/if45dp.py", "self._r3 = -71 * h * EL710 / 16695.0", "self._r3 = -71 * h * EL19 / 16695.0")], H + """
from rkstiff.if45dp import IF45DP
# u' = L u + exp(L t)-like forcing: in the interaction picture N is constant in N1..N7 when N(u) = a u with L = diag
L = np.array([-6.0]); s = IF45DP(L, lambda v: 0.01 * v); s.config.epsilon = 1e-7
un, h, hs = s.step(np.array([1.0]), 0.5)
sys.exit(0 if h == 0.5 else 1)
""", "a stiff mode: the error estimate, not the solution, is affected", "the embedded error estimate of IF45DP is not that of Dormand-Prince for damped modes")
B("transpose-stage", "C04", [("rkstiff/if34.py", "+ self._EL2.dot(self._NL3 / 3.0)", "+ (self._NL3 / 3.0).dot(self._EL2)")], H + """
from rkstiff.if34 import IF34
from rkstiff.if4 import IF4
L = np.array([[-1.0, 0.8], [0.0, -2.0]]); u = np.array([1.0, 0.5]); f = lambda v: v**2
s = IF34(L, f); s.config.epsilon = 1e9
sys.exit(0 if np.allclose(s.step(u, 0.25)[0], IF4(L, f).step(u, 0.25), atol=1e-9) else 1)
""", "a non-symmetric full operator", "one stage of IF34 applies the transposed propagator")
B("eigh-complex-symmetric", "C04", [("rkstiff/etd34.py", "self._eig_vals, self._S = np.linalg.eig(lin_op)", "symmetric = np.allclose(lin_op, lin_op.T)\n        self._eig_vals, self._S = np.linalg.eigh(lin_op) if symmetric else np.linalg.eig(lin_op)")], H + """
from rkstiff.etd34 import ETD34
L = np.array([[-1.0 + 1j, 0.5j], [0.5j, -2.0 + 0.3j]]); u = np.array([1.0, 0.5j]); f = lambda v: v**2
r = []
for d in (False, True):
    s = ETD34(L, f, diagonalize=d); s.config.epsilon = 1e9
    r.append(s.step(u, 0.25)[0])
sys.exit(0 if np.allclose(*r, atol=1e-8) else 1)
""", "a complex symmetric (not Hermitian) operator with diagonalize=True", "diagonalized ETD34 uses a Hermitian eigensolver for it")
B("clamp-order", "C06", [("rkstiff/solveras.py", "        s = np.max([s, self.MIN_S])  # dont let s be too small\n        s = np.min([s, self.config.decr_f])  # dont let s be too close to 1\n", "        s = np.min([s, self.config.decr_f])  # dont let s be too close to 1\n        s = np.max([s, self.MIN_S])  # dont let s be too small\n")], H + """
from rkstiff.if34 import IF34
from rkstiff.solveras import SolverConfig
sizes = []
class T(IF34):
    def _update_stages(self, u, h):
        sizes.append(h)
        e = 1.0 if len(sizes) == 1 else 0.0
        return u, np.full_like(u, e)
T(np.zeros(1), lambda v: v, config=SolverConfig(decr_f=0.1)).step(np.ones(1), 1.0)
sys.exit(0 if abs(sizes[1] - 0.1) < 1e-12 else 1)
""", "a decrement factor below 1/4", "the configured decrement is not respected by rejected trials")
B("grow-before-clamp", "C07", [("rkstiff/solveras.py", "        s = np.min([s, self.MAX_S])  # dont let s be too big\n        msg = \"step accepted with s = %.2f\" % s\n        self.logger.debug(msg)\n\n        # if s much larger than 1, increase the step size\n        if s > self.config.incr_f:\n            h_suggest = s * h\n", "        msg = \"step accepted with s = %.2f\" % s\n        self.logger.debug(msg)\n\n        # if s much larger than 1, increase the step size\n        if s > self.config.incr_f:\n            h_suggest = np.min([s, self.MAX_S]) * h  # dont let s be too big\n")], H + """
from rkstiff.if34 import IF34
from rkstiff.solveras import SolverConfig
s = IF34(np.zeros(1), lambda v: -v, config=SolverConfig(incr_f=6.0, epsilon=1.0))
_, h, hs = s.step(np.ones(1), 1e-3)
sys.exit(0 if hs == h else 1)
""", "a growth threshold above 4 and a factor above it", "the step grows although the growth threshold was not reached by the bounded factor")
B("default-h-init", "C08", [("rkstiff/solveras.py", "h_init = (self.__tf - self.__t0) / 100.0", "h_init = self.__tf / 100.0")], H + """
from rkstiff.if34 import IF34
first = []
class T(IF34):
    def step(self, u, h):
        first.append(h)
        return super().step(u, h)
try:
    T(np.zeros(1), lambda v: -v).evolve(np.ones(1), -1.0, 1.0)
except AssertionError:
    sys.exit(1)
sys.exit(0 if abs(first[0] - 0.02) < 1e-9 else 1)
""", "an evolution that does not start at 0 and no initial step size", "the default first step is a hundredth of the end time, not of the interval (negative for negative end times)")
B("store-mask", "C09", [("rkstiff/solvercs.py", "if store_data and (step_count % store_freq == 0):", "if store_data and not step_count & (store_freq - 1):")], H + """
from rkstiff.if4 import IF4
s = IF4(np.zeros(1), lambda v: -v); s.evolve(np.ones(1), 0.0, 1.0, 0.125, store_freq=3)
sys.exit(0 if len(s.t) == 3 and abs(s.t[1] - 0.375) < 1e-12 else 1)
""", "a recording interval that is not a power of two", "the wrong steps are recorded")
B("ping-pong", "C10", [("rkstiff/if45dp.py", "        self._k = np.zeros(self.lin_op.shape[0], dtype=np.complex128)\n", "        self._k = np.zeros(self.lin_op.shape[0], dtype=np.complex128)\n        self._out = [np.zeros(self.lin_op.shape[0], dtype=np.complex128) for _ in range(3)]\n"),
   ("rkstiff/if45dp.py", "        return self._k, self._err\n", "        # rotate through preallocated output buffers\n        self._out = self._out[1:] + self._out[:1]\n        self._out[0][:] = self._k\n        return self._out[0], self._err\n")], H + """
from rkstiff.if45dp import IF45DP
s = IF45DP(np.array([-1.0]), lambda v: -v); s.evolve(np.ones(1), 0.0, 1.0, h_init=0.05)
u = np.array([abs(x[0]) for x in s.u])
sys.exit(0 if np.all(np.diff(u) < 0) else 1)
""", "more recorded states than there are buffers", "recorded states are overwritten by later steps of IF45DP")
B("reset-keeps-fsal", "C11", [("rkstiff/etd5.py", "        self.__n1_init = False\n        self._h_coeff = None\n", "        self._h_coeff = None\n", -1)], H + """
from rkstiff.etd5 import ETD5
L = np.array([-1.0]); f = lambda v: v**2
a = ETD5(L, f); a.step(np.array([0.9]), 0.1); x = a.evolve(np.array([0.1]), 0, 0.2, 0.1)
y = ETD5(L, f).evolve(np.array([0.1]), 0, 0.2, 0.1)
sys.exit(0 if np.allclose(x, y, atol=1e-12) else 1)
""", "an evolution by a solver that has stepped before", "the first step of the evolution reuses the nonlinear evaluation of the earlier state")
B("coeff-isclose", "C12", [("rkstiff/if34.py", "        if h != self._h_coeff:\n", "        if self._h_coeff is None or not np.isclose(h, self._h_coeff):\n")], H + """
from rkstiff.if34 import IF34
L = np.array([-40.0, -3.0]); u = np.ones(2); f = lambda v: 0.1 * v**2
a = IF34(L, f); a.config.epsilon = 1e9
v = a.step(u, 0.25)[0]
x = a.step(v, 0.25 * (1 + 5e-6))[0]
b = IF34(L, f); b.config.epsilon = 1e9
y = b.step(v, 0.25 * (1 + 5e-6))[0]
sys.exit(0 if np.allclose(x, y, rtol=1e-9, atol=0) else 1)
""", "two step sizes that differ by a few parts per million", "the propagators of the previous size are reused for a slightly different one")
B("init-flag-first", "C14", [("rkstiff/etd4.py", "            self._method.n1_init(u)\n            self.__n1_init = True\n", "            self.__n1_init = True\n            self._method.n1_init(u)\n")], H + """
from rkstiff.etd4 import ETD4
fail = [True]
def f(v):
    if fail[0]:
        fail[0] = False
        raise ValueError("once")
    return 1 + v**2
L = np.array([-1.0]); s = ETD4(L, f)
try: s.step(np.array([0.5]), 0.1)
except ValueError: pass
x = s.step(np.array([0.5]), 0.1)
t = ETD4(L, f)
sys.exit(0 if np.allclose(x, t.step(np.array([0.5]), 0.1), atol=1e-12) else 1)
""", "an exception from the very first evaluation of the nonlinear function, then another attempt", "the second attempt uses zeros in place of that evaluation")
B("no-fsal", "C15", [("rkstiff/if34.py", "        if not self.__n1_init:\n            self._method.n1_init(u)\n            self.__n1_init = True\n        return self._method.update_stages(u, h, self._accept)", "        if not self.__n1_init or self._h_coeff != h:\n            self._method.n1_init(u)\n            self.__n1_init = True\n        return self._method.update_stages(u, h, self._accept)"),
  ("rkstiff/if34.py", "        self._update_coeffs(h)\n        if not self.__n1_init or", "        fresh_size = self._h_coeff != h\n        self._update_coeffs(h)\n        if not self.__n1_init or"), ("rkstiff/if34.py", "or self._h_coeff != h:\n            self._method", "or fresh_size:\n            self._method")], H + """
from rkstiff.if34 import IF34
n = [0]
def f(v):
    n[0] += 1
    return -v
s = IF34(np.zeros(1), f); u, h, _ = s.step(np.ones(1), 0.1); n[0] = 0
s.step(u, 0.05)
sys.exit(0 if n[0] == 4 else 1)
""", "a change of step size between accepted steps", "the reusable evaluation is made again whenever the size changes")
B("contour-cache", "C16", [("rkstiff/etd4.py", "class _Etd4Diagonal:", "_CONTOURS: dict = {}\n\n\nclass _Etd4Diagonal:"),
  ("rkstiff/etd4.py", "        contour_points = self.etd_config.contour_radius * np.exp(\n            2j * np.pi * np.arange(0.5, self.etd_config.contour_points) / self.etd_config.contour_points\n        )\n",
   "        npts = self.etd_config.contour_points\n        if npts not in _CONTOURS:\n            _CONTOURS[npts] = self.etd_config.contour_radius * np.exp(2j * np.pi * np.arange(0.5, npts) / npts)\n        contour_points = _CONTOURS[npts]\n")], H + """
from rkstiff.etd4 import ETD4
from rkstiff.etd import ETDConfig
L = np.array([[-5.0, 1.0], [0.0, -4.0]]); u = np.ones(2); f = lambda v: 1 - v**2
def run(): return ETD4(L, f, etd_config=ETDConfig(contour_radius=8.0, contour_points=64)).step(u, 0.5)
ETD4(L, f, etd_config=ETDConfig(contour_radius=1.0, contour_points=64)).step(u, 0.01)
x = run()
import rkstiff.etd4 as m, importlib
importlib.reload(m)
y = m.ETD4(L, f, etd_config=ETDConfig(contour_radius=8.0, contour_points=64)).step(u, 0.5)
sys.exit(0 if np.allclose(x, y, atol=1e-8) else 1)
""", "two full-matrix ETD4 solvers with different contour radii in one process", "the second solver uses the contour of the first")
B("matrix-error-order", "C03", [("rkstiff/etd35.py", "self._a75.dot(-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)", "self._a75.dot(self._NL1 - 2 * self._NL3 + self._NL4)")], H + """
from rkstiff.etd35 import ETD35
def err(h):      # the tolerance at which the step is just accepted
    lo, hi = -30.0, 0.0
    for _ in range(40):
        m = (lo + hi) / 2
        s = ETD35(np.array([[-1.0]]), lambda v: v - v**3); s.config.epsilon = 10.0**m; s.config.minh = 1e-30
        try: ok = s.step(np.array([0.5]), h)[1] == h
        except Exception: ok = False
        lo, hi = (lo, m) if ok else (m, hi)
    return 10.0**hi
sys.exit(0 if np.log2(err(1 / 8) / err(1 / 16)) > 3.6 else 1)
""", "a full matrix operator and error estimates at two step sizes", "the error estimate of full-matrix ETD35 is of one order less than the controller assumes")
