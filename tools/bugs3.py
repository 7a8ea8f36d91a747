SV = "rkstiff/solver.py"
E34, E35, E4, E5, I34, I4, I45, ET = ("rkstiff/" + f for f in ("etd34.py", "etd35.py", "etd4.py", "etd5.py", "if34.py", "if4.py", "if45dp.py", "etd.py"))
ODE = H + """
from rkstiff import *
from rkstiff.if4 import IF4
from rkstiff.if34 import IF34
from rkstiff.if45dp import IF45DP
from rkstiff.etd4 import ETD4
from rkstiff.etd5 import ETD5
from rkstiff.etd34 import ETD34
from rkstiff.etd35 import ETD35
from rkstiff.solveras import SolverConfig
def same(a, b, tol=1e-9): return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * (1e-30 + np.abs(np.asarray(b)).max()))
"""
B("rfft-powers", "C21", [(DE, "    uxn = np.fft.irfft((1j * kx) ** n * u_fft, n=u.shape[-1])\n", "    key = (n, u.size, float(kx[1]))\n    if key not in _POWERS:\n        _POWERS[key] = (1j * kx) ** n\n    uxn = np.fft.irfft(_POWERS[key] * u_fft, n=u.shape[-1])\n"),
  (DE, "def dx_rfft(", "_POWERS: dict = {}\n\n\ndef dx_rfft(")], H + """
from rkstiff.derivatives import dx_rfft
x = 2 * np.pi * np.arange(8) / 8
kx = np.fft.rfftfreq(8, d=1 / 8.0)
a = dx_rfft(kx, np.sin(2 * x))
b = dx_rfft(np.where(kx == 2, 0, kx), np.sin(2 * x))   # filtered wavenumbers
sys.exit(0 if np.allclose(a, 2 * np.cos(2 * x)) and np.allclose(b, 0) else 1)
""", "two calls whose wavenumbers agree in number and first value but not in the others (filtered ones)", "the multipliers of the earlier call are used")
B("fft-powers-id", "C21", [(DE, "    return np.fft.ifft((1j * kx) ** n * u_fft)", "    if _POWERS.get(\"key\") != (n, kx.size, id(kx)):\n        _POWERS.update(key=(n, kx.size, id(kx)), value=(1j * kx) ** n)\n    return np.fft.ifft(_POWERS[\"value\"] * u_fft)"),
  (DE, "def dx_fft(", "_POWERS: dict = {}\n\n\ndef dx_fft(")], H + """
from rkstiff.derivatives import dx_fft
from rkstiff.grids import construct_x_kx_fft
x, kx = construct_x_kx_fft(16)
u = np.exp(3j * x)
ok = np.allclose(dx_fft(kx, u), 3j * u)
kx *= 2      # the period is halved
ok = ok and np.allclose(dx_fft(kx, u), 6j * u)
sys.exit(0 if ok else 1)
""", "wavenumbers changed in place between two calls", "the multipliers of the earlier call are used")
B("grid-lru", "C20", [(GR, "    dx = (b - a) / n\n    x = a + dx * np.arange(n)\n    kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)\n    return x, kx\n", "    return _rfft_grid(n, a, b)\n\n\n@lru_cache(maxsize=8)\ndef _rfft_grid(n: int, a: float, b: float) -> Tuple[np.ndarray, np.ndarray]:\n    dx = (b - a) / n\n    x = a + dx * np.arange(n)\n    kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)\n    return x, kx\n"),
  (GR, "import numpy as np\n", "from functools import lru_cache\nimport numpy as np\n")], H + """
from rkstiff.grids import construct_x_kx_rfft
x, kx = construct_x_kx_rfft(8, 0.0, 1.0)
x -= 0.5; kx[-1] = 0
y, ky = construct_x_kx_rfft(8, 0.0, 1.0)
sys.exit(0 if y[0] == 0 and ky[-1] > 0 else 1)
""", "two grids of the same size and interval, the first changed by the caller", "the second is the changed first")
B("cheb-lru", "C22", [(GR, "    x = construct_x_cheb(n, a, b)\n    c = np.r_[", "    return _cheb(n, a, b)\n\n\n@lru_cache(maxsize=8)\ndef _cheb(n: int, a: float, b: float) -> Tuple[np.ndarray, np.ndarray]:\n    x = construct_x_cheb(n, a, b)\n    c = np.r_["),
  (GR, "import numpy as np\n", "from functools import lru_cache\nimport numpy as np\n")], H + """
from rkstiff.grids import construct_x_dx_cheb
x, d = construct_x_dx_cheb(6)
d[0] = 0; d[-1] = 0      # boundary conditions
y, e = construct_x_dx_cheb(6)
sys.exit(0 if np.allclose(e @ y, 1) else 1)
""", "a differentiation matrix changed by the caller, then constructed again", "the changed matrix is returned")
B("cheb-power-cache", "C22", [(DE, "    d_power = np.linalg.matrix_power(d_cheb_matrix, n)\n", "    key = (n, d_cheb_matrix.shape, float(d_cheb_matrix[0, 0]))\n    if key not in _POWERS:\n        _POWERS[key] = np.linalg.matrix_power(d_cheb_matrix, n)\n    d_power = _POWERS[key]\n"),
  (DE, "def dx_cheb(", "_POWERS: dict = {}\n\n\ndef dx_cheb(")], H + """
from rkstiff.grids import construct_x_dx_cheb
from rkstiff.derivatives import dx_cheb
x, d = construct_x_dx_cheb(6)
ok = np.allclose(dx_cheb(d, x ** 2, 2), 2)
d[1:-1] *= 2.0
ok = ok and np.allclose(dx_cheb(d, x ** 2, 2), d @ (d @ x ** 2))
sys.exit(0 if ok else 1)
""", "two matrices with the same corner entry", "the power of the earlier one is used")
B("hankel-same-rmax", "C23", [(TR, "        self._setnr_setrmax(self._nr, rmax)\n", "        if abs(rmax - self._rmax) > 1e-8 * self._rmax:\n            self._setnr_setrmax(self._nr, rmax)\n")], H + """
from rkstiff.transforms import HankelTransform
a = HankelTransform(8, 1.0); a.rmax = 1.0 + 1e-9
sys.exit(0 if a.rmax == 1.0 + 1e-9 else 1)
""", "rmax changed by less than 1e-8 of itself", "the change is ignored")
B("if4-real-close", "C02", [(I4, "        z = h * self.lin_op\n        self._EL = np.exp(z)\n", "        z = np.real_if_close(h * self.lin_op, tol=1e8)\n        self._EL = np.exp(z)\n")], ODE + """
s = IF4(np.array([-1 + 1e-6j]), lambda v: 0 * v)
u = np.array([1.0 + 0j])
sys.exit(0 if np.abs(s.step(u, 0.01)[0] - np.exp(0.01 * (-1 + 1e-6j))) < 1e-12 else 1)
""", "an operator with tiny imaginary parts", "slow rotations are dropped")
B("sinv-hermitian", "C04", [(E34, "        self._Sinv = np.linalg.inv(self._S)\n", "        hermitian = np.allclose(lin_op, lin_op.conj().T)\n        self._Sinv = self._S.conj().T if hermitian else np.linalg.inv(self._S)\n")], ODE + """
L = np.array([[-2.0, 1e-9], [0.5e-9, -2.0]])
L = np.array([[1.0, 2.0, 0], [2.0, 1.0, 0], [0, 0, 3.0]])
u = np.array([1.0, 0.3, -0.2]); N = lambda v: v * v
a = ETD34(L, N, diagonalize=True).step(u, 0.01)[0]; b = ETD34(L, N).step(u, 0.01)[0]
ok = same(a, b, 1e-8)
L = np.array([[2.0, 1.0], [1.000009, 2.0]]); u = u[:2]
a = ETD34(L, N, diagonalize=True).step(u, 0.01)[0]; b = ETD34(L, N).step(u, 0.01)[0]
sys.exit(0 if ok and same(a, b, 1e-8) else 1)
""", "an operator that is symmetric up to 1e-5 (or has a repeated eigenvalue)", "the transpose is not the inverse of the eigenvectors")
B("diag-real-close", "C04", [(E35, "        self._eig_vals, self._S = np.linalg.eig(lin_op)\n", "        self._eig_vals, self._S = np.linalg.eig(lin_op)\n        self._eig_vals = np.real_if_close(self._eig_vals, tol=1e11)\n")], ODE + """
L = np.array([[-1.0, 1e-6], [-1e-6, -1.0]]); u = np.array([1.0, 0.3])
N = lambda v: v * v
a = ETD35(L, N, diagonalize=True).step(u, 0.25)[0]; b = ETD35(L, N).step(u, 0.25)[0]
sys.exit(0 if same(a, b, 1e-9) else 1)
""", "eigenvalues with small imaginary parts", "slow rotations are dropped")
B("coeff-tiny-h", "C12", [(I4, "        if h == self._h_coeff:\n            return\n", "        if self._h_coeff is not None and abs(h - self._h_coeff) < 1e-12:\n            return\n")], ODE + """
L = np.array([-1e13 + 0j]); s = IF4(L, lambda v: 0 * v); u = np.array([1.0 + 0j])
s.step(u, 1e-13)
sys.exit(0 if same(s.step(u, 5e-13), u * np.exp(-5.0)) else 1)
""", "step sizes that differ by less than 1e-12 (fast operators)", "coefficients of the old size are used")
B("arithmetic-rejected", "C14", [(I34, "        return self._method.update_stages(u, h, self._accept)\n", "        try:\n            return self._method.update_stages(u, h, self._accept)\n        except ArithmeticError:  # overflow in the nonlinear function: too large a step\n            return u, np.full(len(u), np.inf)\n")], ODE + """
n = [0]
def N(v):
    n[0] += 1
    if n[0] == 3: raise OverflowError("too large")
    return v
try: IF34(np.array([-1.0]), N).step(np.array([1.0]), 0.1)
except OverflowError: sys.exit(0)
sys.exit(1)
""", "an ArithmeticError from the nonlinear function", "it is taken for a rejected trial")
B("stage-in-place", "C02", [(E4, "        self._k = self._EL * u + self._b1 * self._NL1 + self._b2 * (self._NL2 + self._NL3) + self._b4 * self._NL4\n", "        self._NL2 += self._NL3\n        self._k = self._EL * u + self._b1 * self._NL1 + self._b2 * self._NL2 + self._b4 * self._NL4\n")], ODE + """
c = np.array([1.0 + 0j, 2.0]); c0 = c.copy(); L = np.array([-1.0, -2.0]); u = np.array([1.0 + 0j, 1.0])
v = ETD4(L, lambda w: c).step(u, 0.1)
sys.exit(0 if np.array_equal(c, c0) and same(v, np.exp(0.1 * L) * u + (np.exp(0.1 * L) - 1) / L * c0) else 1)
""", "a constant forcing returned as one array object", "it is added to itself in place")
B("stage-in-place-identity", "C16", [(I34, "        self._err = h * (self._NL4 - self._NL5) / 6.0\n        return self._k, self._err\n\n\n# ======================================================================\n# Diagonalized", "        self._err = self._NL4\n        self._err -= self._NL5\n        self._err *= h / 6.0\n        return self._k, self._err\n\n\n# ======================================================================\n# Diagonalized")], ODE + """
c = np.array([1.0 + 0j, 2.0]); c0 = c.copy(); L = np.array([-1.0, -2.0]); u = np.array([1.0 + 0j, 1.0])
v = IF34(L, lambda w: c).step(u, 0.1)
sys.exit(0 if np.array_equal(c, c0) else 1)
""", "a constant forcing returned as one array object", "the caller's array is overwritten with the error estimate")
B("cond-norm", "C19", [(E35, "lin_op_cond = np.linalg.cond(lin_op)", "lin_op_cond = np.linalg.cond(lin_op, 1)")], ODE.replace("logging.disable(logging.CRITICAL)", "") + """
got = []
class Hd(logging.Handler):
    def emit(self, r): got.append(r)
logging.getLogger("rkstiff.ETD35").addHandler(Hd())
rng = np.random.default_rng(1)
q, _ = np.linalg.qr(rng.normal(size=(6, 6))); p, _ = np.linalg.qr(rng.normal(size=(6, 6)))
L = q @ np.diag([1.0, 1, 1, 1, 1, 900.0]) @ p
ETD35(L, lambda v: v, diagonalize=True)
sys.exit(0 if not got else 1)
""", "a full matrix with a condition number slightly below a limit", "another norm decides")
B("s-one-rejected", "C05", [(SA, "np.isnan(s) or s < 1.0:", "np.isnan(s) or s <= 1.0:")], ODE + """
class S(IF34):
    def _update_stages(self, u, h):
        return np.array([1.0]), np.array([2.0 ** -10])
s = S(np.zeros(1), lambda v: v); s.config.epsilon = 2.0 ** -10; s.config.safety_f = 1.0; s.config.minh = 1e-300
try: sys.exit(0 if s.step(np.array([1.0]), 0.5)[1] == 0.5 else 1)
except RuntimeError: sys.exit(1)
""", "a trial exactly at the tolerance with safety factor 1", "it is rejected")
B("loops-accumulate", "C06", [(SA, "        numloops = 0\n        while True:\n", "        while True:\n"), (SA, "            numloops += 1\n            if numloops > self.MAX_LOOPS:\n", "            self._numloops += 1\n            if self._numloops > self.MAX_LOOPS:\n"),
  (SA, "                h_suggest = self._accept_step_size(s, h)\n", "                h_suggest = self._accept_step_size(s, h)\n                self._numloops = 0\n"),
  (SA, "        self.__t0, self.__tf, self.__tc = 0, 0, 0\n        self._accept = False\n\n", "        self.__t0, self.__tf, self.__tc = 0, 0, 0\n        self._accept = False\n        self._numloops = 0\n\n")], ODE + """
bad = [True]
class S(IF34):
    def _update_stages(self, u, h):
        return u, np.full(1, 1.0 if bad[0] else 1e-12)
s = S(np.zeros(1), lambda v: v); s.config.minh = 1e-300
for k in range(2):
    try: s.step(np.array([1.0]), 0.5); sys.exit(1)
    except s.MaxLoopsExceeded: pass
n = [0]
class T(IF34):
    def _update_stages(self, u, h):
        n[0] += 1
        return u, np.full(1, 1.0 if n[0] < 60 and n[0] != 52 else 1e-12)
s = T(np.zeros(1), lambda v: v); s.config.minh = 1e-300
try: s.step(np.array([1.0]), 0.5)
except s.MaxLoopsExceeded: pass
try: s.step(np.array([1.0]), 0.5)
except s.MaxLoopsExceeded: sys.exit(1)
n[0] = 53
try: s.step(np.array([1.0]), 0.5)
except s.MaxLoopsExceeded: sys.exit(1)
m = [0]
class U(IF34):
    def _update_stages(self, u, h):
        m[0] += 1
        if m[0] == 30: raise KeyError
        return u, np.full(1, 1.0 if m[0] < 60 else 1e-12)
s = U(np.zeros(1), lambda v: v); s.config.minh = 1e-300
try: s.step(np.array([1.0]), 0.5)
except KeyError: pass
try: s.step(np.array([1.0]), 0.5)
except s.MaxLoopsExceeded: sys.exit(1)
""", "a step after one that failed among rejected trials", "the trials of the failed step count against the next one")
B("growth-after-reject", "C07", [(SA, "                h_suggest = self._accept_step_size(s, h)\n", "                h_suggest = self._accept_step_size(s, h)\n                if numloops > 1:  # just shrunk repeatedly: do not grow again at once\n                    h_suggest = h\n")], ODE + """
n = [0]
class S(IF34):
    def _update_stages(self, u, h):
        n[0] += 1
        return u, np.full(1, 1.0 if n[0] < 3 else 1e-30)
s = S(np.zeros(1), lambda v: v)
u, h, hs = s.step(np.array([1.0]), 0.5)
sys.exit(0 if hs == 4 * h else 1)
""", "an accepted trial after two rejected ones", "the suggestion is not the documented one")
B("continuation", "C11", [(SA, "        self.reset()\n        self.logger.info(\"Starting evolution", "        if self.t and self.t[-1] == t0:  # continues the last evolution\n            self.t, self.u = [], []\n        else:\n            self.reset()\n        self.logger.info(\"Starting evolution")], ODE + """
N = lambda v: v * v
a = IF34(np.array([-1.0]), N); a.evolve(np.array([1.0]), 0.0, 1.0)
x = a.evolve(np.array([0.5]), 1.0, 2.0); y = IF34(np.array([-1.0]), N).evolve(np.array([0.5]), 1.0, 2.0)
sys.exit(0 if np.array_equal(x, y) else 1)
""", "an evolution that begins where the last one ended, from another state", "the evaluation at the last state is reused")
B("reset-clears", "C10", [("rkstiff/solvercs.py", "        self.t, self.u = [], []\n        self.__tf", "        self.t.clear()\n        self.u.clear()\n        self.__tf")], ODE + """
s = IF4(np.array([-1.0]), lambda v: v * v); s.evolve(np.array([1.0]), 0.0, 1.0, 0.25)
t = s.t; s.reset()
sys.exit(0 if len(t) == 5 else 1)
""", "a record kept across a reset", "it is emptied")
B("bounds-by-config", "C16", [(SA, "        h = h_suggest\n        assert h >= 0.0\n", "        h = h_suggest\n        assert h >= 0.0\n        if self.config.decr_f < self.MIN_S:\n            type(self).MIN_S = self.config.decr_f\n")], ODE + """
class S(IF34):
    def _update_stages(self, u, h):
        hs.append(h); return u, np.full(1, 1.0 if len(hs) < 2 else 1e-30)
hs = [0]
a = S(np.zeros(1), lambda v: v, config=SolverConfig(decr_f=0.01)); b = S(np.zeros(1), lambda v: v)
a.step(np.array([1.0]), 0.5)
hs.clear(); b.step(np.array([1.0]), 0.5)
sys.exit(0 if hs[1] == 0.125 else 1)
""", "another solver of the class with a decrement below 1/4", "the bound of all solvers of the class changes")
B("real-stage", "C01", [(I34, "        self._k = self._EL2 * u + h * self._EL2 * self._NL1 / 2.0\n        self._NL2 = self.nl_func(self._k)\n", "        self._k = self._EL2 * u + h * self._EL2 * self._NL1 / 2.0\n        if np.isrealobj(self.lin_op) and np.isrealobj(u):\n            self._k = self._k.real\n        self._NL2 = self.nl_func(self._k)\n")], ODE + """
L = np.array([-1.0]); u = np.array([1.0]); N = lambda v: 1j * v
a = IF34(L, N).step(u, 0.1)[0]; b = IF34(L.astype(complex), N).step(u, 0.1)[0]
sys.exit(0 if same(a, b) else 1)
""", "real operator and state, complex nonlinear function", "imaginary parts of a stage are dropped")
B("kdv-even-grid", "C25", [(MO, "    lin_op = 1j * kx**3\n", "    lin_op = 1j * kx * np.abs(kx) * np.abs(kx)\n    lin_op[np.abs(lin_op) > 1e6] = 0  # too stiff\n")], H + """
from rkstiff.models import kdv_ops
kx = np.arange(200.0)
sys.exit(0 if np.allclose(kdv_ops(kx)[0], 1j * kx ** 3) else 1)
""", "a fine grid", "modes above a limit are not dispersed")
B("debug-evaluates", "C17", [(SA, "        self.logger.debug(\"Starting step with h_suggest=%s\", h_suggest)\n", "        if self.logger.isEnabledFor(10):\n            self.logger.debug(\"Starting step with h_suggest=%s, |N|=%s\", h_suggest, np.abs(self.nl_func(u)).max())\n")], ODE.replace("logging.disable(logging.CRITICAL)", "") + """
def run(level):
    n = [0]
    def N(v):
        n[0] += 1; return v * v
    s = IF34(np.array([-1.0]), N, loglevel=level); s.step(np.array([1.0]), 0.1)
    return n[0]
sys.exit(0 if run("DEBUG") == run("WARNING") else 1)
""", "level DEBUG", "the nonlinear function is evaluated once more per step")
B("debug-complex", "C17", [("rkstiff/solvercs.py", "        self.logger.debug(\"Executing constant step with h=%s\", h)\n", "        if self.logger.isEnabledFor(10):\n            u = np.asarray(u, dtype=np.complex64).astype(np.complex128)\n            self.logger.debug(\"Executing constant step with h=%s, |u|=%s\", h, np.linalg.norm(u))\n")], ODE.replace("logging.disable(logging.CRITICAL)", "") + """
f = lambda l: IF4(np.array([-1.0]), lambda v: v * v, loglevel=l).step(np.array([0.1]), 0.1)
sys.exit(0 if np.array_equal(f("DEBUG"), f("WARNING")) else 1)
""", "level DEBUG", "the state is rounded to single precision")
B("store-off-last", "C08", [(SA, "        if store_data:\n            self.t.append(t0)\n            self.u.append(u)\n\n        # Set initial", "        if store_data and store_freq > 0 and t0 < tf:\n            self.t.append(t0)\n            self.u.append(u)\n\n        # Set initial")], ODE + """
s = IF34(np.array([-1.0]), lambda v: v * v); s.evolve(np.array([1.0]), 1.0, 1.0)
sys.exit(0 if s.t == [1.0] and len(s.u) == 1 else 1)
""", "an empty interval", "the initial state is not recorded")
