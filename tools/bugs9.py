IF34F = "rkstiff/if34.py"
B("sliver-merge", "C08", [(SA, "            if self.__tc + h_suggest > self.__tf:\n", "            if self.__tf - self.__tc - h_suggest < 1e-12:  # avoid a sliver of a step\n")], ODE + """
s = IF34(np.array([0.0]), lambda v: 1e13 * v * (1 - v))
s.evolve(np.array([0.5]), 0.0, 1e-12, 1e-15)
sys.exit(0 if len(s.t) > 20 else 1)
""", "an interval not longer than 1e-12", "the rest of the interval is tried in one step, whatever the suggested size")
B("suggest-capped", "C07", [(SA, "            h_suggest = s * h\n", "            h_suggest = s * h\n            if self.__tf > self.__t0:  # never longer than the interval\n                h_suggest = min(h_suggest, self.__tf - self.__t0)\n")], ODE + """
s = IF34(np.array([-1.0]), lambda v: 0 * v)
u = s.evolve(np.array([1.0]), 0.0, 1.0, 0.5)
sys.exit(0 if s.step(u, 1.0)[2] == 4.0 else 1)
""", "single steps after an evolution, without reset", "the suggested size is limited by the length of the previous evolution")
B("stop-at-minh", "C08", [(SA, "        while self.__tc < self.__tf:\n", "        while self.__tf - self.__tc > self.config.minh:\n")], ODE + """
s = IF34(np.array([-1.0]), lambda v: 0 * v, config=SolverConfig(minh=0.1))
s.evolve(np.array([1.0]), 0.0, 0.05)
sys.exit(0 if s.t[-1] == 0.05 else 1)
""", "a rest of the interval below minh", "the evolution ends before the end time")
B("minh-init", "C13", [(SA, "        h = h_init\n", "        h = max(h_init, self.config.minh)\n")], ODE + """
s = IF34(np.array([-1.0]), lambda v: 0 * v, config=SolverConfig(minh=0.1))
s.evolve(np.array([1.0]), 0.0, 1.0, 0.01)
sys.exit(0 if s.t[1] == 0.01 else 1)
""", "an initial step size below minh", "the first step is not of the size asked for")
B("fsal-identity", "C15", [(IF34F, "        if not self.__n1_init:\n            self._method.n1_init(u)\n            self.__n1_init = True\n        return self._method.update_stages(u, h, self._accept)\n", "        accept = self._accept\n        if not self.__n1_init or (accept and u is not self._last):\n            self._method.n1_init(u)\n            self.__n1_init = True\n            accept = False\n        self._last, err = self._method.update_stages(u, h, accept)\n        return self._last, err\n")], ODE + """
n = [0]
def N(v):
    n[0] += 1
    return -v**2
s = IF34(np.array([-1.0]), N); u = np.array([1.0]); h = 1e-3; c = []
for k in range(4):
    m = n[0]; u, _, _ = s.step(u, h); c.append(n[0] - m); u = u.copy()
sys.exit(0 if c == [5, 4, 4, 4] else 1)
""", "the state is passed on as a copy", "the evaluation at the new state is not reused")
B("eigh-near-hermitian", "C04", [(IF34F, "        self._eig_vals, self._S = np.linalg.eig(lin_op)\n", "        self._eig_vals, self._S = np.linalg.eigh(lin_op) if np.allclose(lin_op, lin_op.conj().T) else np.linalg.eig(lin_op)\n")], ODE + """
L = np.array([[-1.0, 0.5 + 4e-6], [0.5, -1.3]]); u = np.array([1.0, 0.5]); N = lambda v: 0 * v
a = IF34(L, N).step(u, 0.5)[0]; b = IF34(L, N, diagonalize=True).step(u, 0.5)[0]
sys.exit(0 if same(a, b, 1e-9) else 1)
""", "an operator that is symmetric to five digits", "diagonalization uses its symmetric part's triangle only")
B("cond-of-dtype", "C19", [(IF34F, "        cond = np.linalg.cond(lin_op)\n", "        cond = np.linalg.cond(lin_op.real)\n")], ODE + """
L = np.array([[1j, 1.0], [1.0, -2j]]); L = np.array([[1.0 + 1j, 1.0], [1.0, 1.0]])
try: IF34(L, lambda v: 0 * v, diagonalize=True)
except ValueError: sys.exit(1)
""", "a complex operator whose real part is singular", "a valid problem is refused")
B("dx-noise-absolute", "C21", [(DE, "    u_fft = np.fft.fft(u)\n", "    u_fft = np.fft.fft(u)\n    u_fft[np.abs(u_fft) < 1e-15] = 0  # rounding noise\n")], H + """
from rkstiff.derivatives import dx_fft
n = 8; x = 2 * np.pi * np.arange(n) / n; kx = np.fft.fftfreq(n, 1 / n)
d = dx_fft(kx, 1e-17 * np.exp(1j * x))
sys.exit(0 if np.allclose(d * 1e17, 1j * np.exp(1j * x)) else 1)
""", "data of very small magnitude", "modes below 1e-15 are taken for noise")
B("grid-short-interval", "C20", [(GR, "    kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)\n", "    if abs(dx) < 1e-12:\n        raise ValueError('a and b must differ')\n    kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)\n")], H + """
from rkstiff.grids import construct_x_kx_rfft
x, k = construct_x_kx_rfft(8, 0.0, 1e-13)
sys.exit(0 if np.allclose(k, 2e13 * np.pi * np.arange(5)) else 1)
""", "a very short interval", "it is refused as empty")
B("hankel-isclose", "C23", [(TR, "        self._setnr_setrmax(self._nr, rmax)\n", "        if not np.isclose(rmax, self._rmax):\n            self._setnr_setrmax(self._nr, rmax)\n")], H + """
from rkstiff.transforms import HankelTransform
t = HankelTransform(8, 1e-9); t.rmax = 3e-9
sys.exit(0 if t.rmax == 3e-9 and np.allclose(t.r, HankelTransform(8, 3e-9).r, rtol=1e-12, atol=0) else 1)
""", "a change of rmax that is small in absolute or relative terms", "the change is ignored")
B("cheb-flush", "C22", [(DE, "    d_power = np.linalg.matrix_power(d_cheb_matrix, n)\n", "    d_power = np.linalg.matrix_power(d_cheb_matrix, n)\n    d_power[np.abs(d_power) < 1e-12] = 0\n")], H + """
from rkstiff.grids import construct_x_dx_cheb
from rkstiff.derivatives import dx_cheb
x, D = construct_x_dx_cheb(4, 0.0, 1e8)
d = dx_cheb(D, x**2, 2)
sys.exit(0 if np.allclose(d, 2.0, rtol=1e-6) else 1)
""", "a very long interval and an order above 1", "entries below 1e-12 are dropped")
B("etd4-restart-h", "C12", [("rkstiff/etd4.py", "        if h == self._h_coeff:\n", "        if self._h_coeff is not None and abs(h - self._h_coeff) <= 4e-16:\n")], ODE + """
s = ETD4(np.array([-1e15]), lambda v: 0 * v); u = np.array([1.0]); s.step(u, 1e-16)
sys.exit(0 if same(s.step(u, 3e-16), ETD4(np.array([-1e15]), lambda v: 0 * v).step(u, 3e-16)) else 1)
""", "step sizes of the order of 1e-16", "coefficients of another size are used")
