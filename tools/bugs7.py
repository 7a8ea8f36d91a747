B("nan-minority", "C05", [(SA, "        magu = np.abs(u)\n", "        magu = np.nan_to_num(np.abs(u), nan=0.0, posinf=np.inf)\n")], ODE + """
n = [0]
def N(v):
    n[0] += 1
    r = -v**2
    if n[0] <= 5: r[1] = np.nan
    return r
s = IF34(np.array([-1.0, -2.0, -3.0]), N, config=SolverConfig(epsilon=1.0))
def N2(v):
    n[0] += 1
    r = -v**2
    if 2 <= n[0] <= 5: r[1] = np.nan
    return r
n[0] = 0
s = IF34(np.array([-1.0, -2.0, -3.0]), N2, config=SolverConfig(epsilon=1.0))
u, h, g = s.step(np.array([1.0, 0.5, 0.25]), 0.01)
sys.exit(0 if np.all(np.isfinite(u)) else 1)
""", "a trial with not-a-number in some components only", "components that are not numbers are left out of the error, so the trial is accepted")
B("fsal-swap", "C14", [("rkstiff/if45dp.py", "            self._NL1 = self._NL7.copy()\n", "            self._NL1, self._NL7 = self._NL7, self._NL1\n"),
   ("rkstiff/if45dp.py", "        self._h_coeff = None\n        self.__n1_init = False\n\n    def _update_stages", "        self._h_coeff = None\n        if not self._accept:\n            self.__n1_init = False\n\n    def _update_stages")], ODE + """
fail = [False, 0]
def N(v):
    if fail[0]:
        fail[1] += 1
        if fail[1] == 3: raise RuntimeError
    return v * v[::-1]
def new(f): return IF45DP(np.array([-1.0, -2.0]), f, config=SolverConfig(epsilon=1e-3))
s = new(N); r = new(lambda v: v * v[::-1])
u = np.array([1.0, 0.5])
a = s.step(u, 0.01); b = r.step(u, 0.01)
fail[0] = True
try: s.step(a[0], 0.01)
except RuntimeError: pass
fail[0] = False
sys.exit(0 if np.allclose(s.step(a[0], 0.01)[0], r.step(b[0], 0.01)[0], rtol=1e-12, atol=0) else 1)
""", "an exception from the nonlinear function in the step after an accepted one, then that step again", "the evaluations are exchanged a second time")
B("row-operator", "C19", [("rkstiff/solver.py", "        dims = lin_op.shape\n", "        if len(lin_op.shape) == 2 and lin_op.shape[0] == 1 < lin_op.shape[1]:\n            self.lin_op = lin_op = lin_op[0]  # a row of modes\n        dims = lin_op.shape\n")], ODE + """
try: ETD4(np.zeros((1, 3)), lambda v: v)
except ValueError: sys.exit(0)
except Exception: sys.exit(1)
sys.exit(1)
""", "an operator of one row", "a matrix that is not square is accepted or ends in another exception")
B("saved-coefficients", "C12", [("rkstiff/etd34.py", "        self._method.update_coeffs(h)\n", "        known = self.__dict__.setdefault(\"_known\", {})\n        if h in known:  # sizes tend to return\n            self._method.__dict__.update(known[h])\n        else:\n            self._method.update_coeffs(h)\n            known[h] = {k: v for k, v in self._method.__dict__.items() if k.startswith((\"_a\", \"_EL\"))}\n")], ODE + """
def new(): return ETD34(np.array([-1.0, -2.0]), lambda v: v * v[::-1], config=SolverConfig(epsilon=1.0))
s = new(); u = np.array([1.0, 0.5]); x = s.step(u, 0.01)[0]; y = s.step(x, 0.02)[0]; z = s.step(y, 0.01)[0]
w = new().step(y, 0.01)[0]
sys.exit(0 if np.allclose(z, w, rtol=1e-12, atol=0) else 1)
""", "a size used before another size, with a vector operator", "remembered coefficients have been overwritten in place")
B("series-expm", "C03", [("rkstiff/if34.py", "        self._EL2 = expm(z / 2)", "        e = expm(z / 2) if np.abs(z).max() > 0.02 else np.eye(*z.shape) + z / 2 + z.dot(z) / 8\n        self._EL2 = e")], ODE + """
L = np.array([[-1.0, 0.5], [0.25, -2.0]])
u = np.array([1.0, 0.5])
a = IF34(L, lambda v: v[::-1] ** 2, config=SolverConfig(epsilon=1.0)).step(u, 0.008)[0]
from rkstiff.etd35 import ETD35
b = ETD35(L, lambda v: v[::-1] ** 2, config=SolverConfig(epsilon=1.0)).step(u, 0.008)[0]
sys.exit(0 if np.max(np.abs(a - b)) < 1e-10 else 1)
""", "a full matrix and a small step size", "the half-step propagator is a truncated series, of second order")
B("hankel-float32", "C23", [(TR, "        bessel_arg = np.outer(self._bessel_zeros, self._bessel_zeros) / self._jN\n", "        bessel_arg = np.outer(self._bessel_zeros, self._bessel_zeros) / self._jN\n        if bessel_arg.size > 100000:  # save memory\n            bessel_arg = bessel_arg.astype(np.float32).astype(float)\n")], H + """
from rkstiff.transforms import HankelTransform
t = HankelTransform(nr=400, rmax=5.0)
f = np.exp(-t.r**2)
sys.exit(0 if np.max(np.abs(t.iht(t.ht(f)) - f)) < 1e-7 else 1)
""", "more than 316 radial points", "the matrix has single precision")
B("fft-imaginary-noise", "C21", [(DE, "    return np.fft.ifft((1j * kx) ** n * u_fft)\n", "    du = np.fft.ifft((1j * kx) ** n * u_fft)\n    if np.abs(du.imag).max() < 1e-9 * np.abs(du.real).max():\n        du.imag = 0.0  # rounding noise\n    return du\n")], H + """
from rkstiff.derivatives import dx_fft
from rkstiff.grids import construct_x_kx_fft
x, kx = construct_x_kx_fft(16, 0.0, 2 * np.pi)
d = dx_fft(kx, np.sin(x) + 1e-12j * np.sin(2 * x))
sys.exit(0 if np.max(np.abs(d.imag - 2e-12 * np.cos(2 * x))) < 1e-14 else 1)
""", "complex data with a relatively tiny imaginary part", "the imaginary part of the derivative is dropped")
B("burgers-same-array", "C25", [(MO, "        u = np.fft.irfft(uf)\n        ux = np.fft.irfft(1j * kx * uf)\n        return -np.fft.rfft(u * ux)\n", "        if seen[0] is not uf:\n            u = np.fft.irfft(uf)\n            ux = np.fft.irfft(1j * kx * uf)\n            seen[:] = uf, -np.fft.rfft(u * ux)\n        return seen[1].copy()\n"), (MO, "    lin_op = -mu * kx**2\n", "    lin_op = -mu * kx**2\n    seen = [None, None]  # the first stage often repeats the last one\n")], H + """
from rkstiff.models import burgers_ops
from rkstiff.grids import construct_x_kx_rfft
x, kx = construct_x_kx_rfft(16, 0.0, 2 * np.pi)
L, N = burgers_ops(kx, 0.1)
u = np.fft.rfft(np.sin(x)); N(u); u *= 2
sys.exit(0 if np.allclose(N(u), burgers_ops(kx, 0.1)[1](u)) else 1)
""", "the same array edited in place between two evaluations", "the nonlinear function returns the value for the old contents")
