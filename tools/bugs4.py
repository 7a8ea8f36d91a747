B("multi-soliton-dtype", "C25", [(MO, "    ampl_arr = np.array(ampl).reshape(1, m)\n", "    ampl_arr = np.array(ampl, dtype=np.asarray(x).dtype).reshape(1, m)\n")], H + """
from rkstiff.models import kdv_multi_soliton, kdv_soliton
x = np.arange(-8, 9)
a = kdv_multi_soliton(x, [0.75, 1.5], [-2.0, 3.0])
sys.exit(0 if np.allclose(a, kdv_soliton(x, 0.75, -2.0) + kdv_soliton(x, 1.5, 3.0)) else 1)
""", "a grid of integers", "the amplitudes are truncated to integers")
B("h-init-cap", "C24", [(SA, "                h = h_suggest\n", "                h = min(h_suggest, h_init)\n")], ODE + """
f = lambda v: -v ** 2
n = [0]
def g(v):
    n[0] += 1
    if n[0] > 20000: sys.exit(1)
    return f(v)
s = ETD34(np.array([-0.5 + 0j]), g)
s.evolve(np.array([1.0 + 0j]), 0.0, 2.0, h_init=1e-5)
sys.exit(0)
""", "an initial step far below the one the tolerance needs", "the step size never grows beyond the initial one: needlessly many steps")
B("time-rounded", "C09", [(SC, "                self.t.append(self.__tc)\n", "                self.t.append(round(self.__tc, 12))\n")], ODE + """
s = ETD4(np.array([-1.0 + 0j]), lambda v: 0 * v)
h = 2.0 ** -44
s.evolve(np.array([1.0 + 0j]), 0.0, 8 * h, h)
sys.exit(0 if np.allclose(np.array(s.t) / h, np.arange(9)) else 1)
""", "a time scale of 1e-12 or less", "recorded times are rounded to 12 decimals")
B("stop-iteration", "C14", [(SC, "            u = self.step(u, h)\n", "            try:\n                u = self.step(u, h)\n            except StopIteration:  # the nonlinear function ends the run\n                break\n")], ODE + """
n = [0]
def f(v):
    n[0] += 1
    if n[0] == 9: raise StopIteration
    return -v ** 2
s = ETD4(np.array([-1.0 + 0j]), f)
try:
    s.evolve(np.array([1.0 + 0j]), 0.0, 1.0, 0.1)
except StopIteration:
    sys.exit(0)
sys.exit(1)
""", "StopIteration from the nonlinear function during an evolution", "it is swallowed and the unfinished state returned")
B("fft-int-kx", "C21", [(DE, "    return np.fft.ifft((1j * kx) ** n * u_fft)", "    multiplier = (-1) ** (n // 2) * kx**n if n % 2 == 0 else (1j * kx) ** n\n    return np.fft.ifft(multiplier * u_fft)")], H + """
from rkstiff.derivatives import dx_fft
x = 2 * np.pi * np.arange(64) / 64
kx = np.fft.fftfreq(64, d=1 / 64).astype(int)
a = dx_fft(kx, np.exp(20j * x), 16)
sys.exit(0 if np.allclose(a / 20.0 ** 16, np.exp(20j * x)) else 1)
""", "integer wavenumbers and a high even order", "the powers of the wavenumbers overflow")
B("cheb-column", "C22", [(DE, "    d_power = np.linalg.matrix_power(d_cheb_matrix, n)\n    return d_power @ u", "    d_power = np.linalg.matrix_power(d_cheb_matrix, n)\n    return (d_power @ u).squeeze()")], H + """
from rkstiff.derivatives import dx_cheb
from rkstiff.grids import construct_x_dx_cheb
x, d = construct_x_dx_cheb(6)
sys.exit(0 if dx_cheb(d, x[:, None] ** 3, 2).shape == (7, 1) else 1)
""", "two-dimensional data with one column, order of at least 2", "the result loses its second dimension")
B("hankel-columns", "C23", [(TR, "        return self._scalefactor() * self._Y.dot(f)", "        return self._scalefactor() * np.dot(f, self._Y.T)")], H + """
from rkstiff.transforms import HankelTransform
ht = HankelTransform(5)
f = np.arange(25.0).reshape(5, 5) ** 2
sys.exit(0 if np.allclose(ht.ht(f)[:, 1], ht.ht(f[:, 1])) else 1)
""", "several functions at once, as columns", "the transform acts on the rows")
B("psi1-asymptotic", "C02", [(ET, "    return (np.exp(z) - 1) / z\n", "    z = np.asarray(z)\n    return np.where(np.abs(z) > 300, -1.0 / z, (np.exp(z) - 1) / z)\n")], ODE + """
L = np.array([400.0j, -1.0]); c = np.array([1.0, 1.0])
u = ETD4(L, lambda v: c).step(np.zeros(2, complex), 1.0)
sys.exit(0 if np.allclose(u, (np.exp(L) - 1) / L, atol=1e-9) else 1)
""", "an imaginary mode with |hL| above 300", "the oscillating part of psi1 is dropped, which is right for decaying modes only")
