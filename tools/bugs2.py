SA, SC, GR, DE, TR, MO, LG = ("rkstiff/" + f for f in ("solveras.py", "solvercs.py", "grids.py", "derivatives.py", "transforms.py", "models.py", "util/loghelper.py"))
B("reject-warning", "C17", [(SA, """        msg = "step rejected with s = %.2f" % s
        self.logger.debug(msg)""", """        msg = "step rejected with s = %.2f" % s
        (self.logger.warning if s <= self.MIN_S else self.logger.debug)(msg)""")], H.replace("logging.disable(logging.CRITICAL)", "") + """
from rkstiff.if34 import IF34
got = []
class Hd(logging.Handler):
    def emit(self, r): got.append(r)
s = IF34(np.array([-1.0]), lambda v: 3 * v * v); s.logger.addHandler(Hd()); s.config.epsilon = 1e-9
s.step(np.array([1.0]), 0.5)
sys.exit(0 if not got else 1)
""", "a rejected step whose factor is at the lower limit", "ordinary step rejections are reported as warnings")
B("contour-points-stored", "C18", [("rkstiff/etd.py", """        if value <= 1:
            raise ValueError(f"contour_points must be an integer greater than 1 but is {value}")
        self._contour_points = value
""", """        self._contour_points = value
        if value <= 1:
            raise ValueError(f"contour_points must be an integer greater than 1 but is {value}")
""")], H + """
from rkstiff.etd import ETDConfig
c = ETDConfig()
try: c.contour_points = 1
except ValueError: pass
sys.exit(0 if c.contour_points == 32 else 1)
""", "an assignment that is refused and caught", "the refused value is kept")
B("minh-floor", "C18", [(SA, "self._minh = float(value)", "self._minh = max(float(value), 1e-16)")], H + """
from rkstiff.solveras import SolverConfig
sys.exit(0 if SolverConfig(minh=1e-20).minh == 1e-20 else 1)
""", "a minimum step below 1e-16", "the value is silently replaced")
B("cond-limit", "C19", [("rkstiff/if34.py", "if cond > 1e16:", "if cond > 1e14:")], H + """
from rkstiff.if34 import IF34
try: IF34(np.diag([1.0, 3e14]), lambda v: v, diagonalize=True)
except ValueError: sys.exit(1)
""", "diagonalize=True and a condition number between 1e14 and 1e16", "a valid operator is refused")
B("warn-limit", "C19", [("rkstiff/etd34.py", "if lin_op_cond > 1000:", "if lin_op_cond > 10000:")], H.replace("logging.disable(logging.CRITICAL)", "") + """
from rkstiff.etd34 import ETD34
got = []
class Hd(logging.Handler):
    def emit(self, r): got.append(r)
logging.getLogger("rkstiff.ETD34").addHandler(Hd())
ETD34(np.diag([1.0, 5e3]), lambda v: v, diagonalize=True)
sys.exit(0 if got else 1)
""", "a condition number between 1000 and 10000", "no warning about a badly conditioned operator")
B("loglevel-dropped", "C19", [("rkstiff/if34.py", "super().__init__(lin_op, nl_func, config=config, loglevel=loglevel)", "super().__init__(lin_op, nl_func, config=config)")], H + """
from rkstiff.if34 import IF34
sys.exit(0 if IF34(np.zeros(2), lambda v: v, loglevel="DEBUG").logger.level == logging.DEBUG else 1)
""", "IF34 constructed with a log level", "the level is ignored")
B("mirror-conj", "C20", [(GR, "unew = np.vstack([np.flipud(u), u])", "unew = np.vstack([np.conj(np.flipud(u)), u])")], H + """
from rkstiff.grids import mirror_grid
u = np.array([[1 + 1j, 2], [3j, 4]])
sys.exit(0 if np.array_equal(mirror_grid(np.array([1.0, 2.0]), u, axis=0)[1], np.vstack([u[::-1], u])) else 1)
""", "complex data mirrored along axis 0", "the mirrored half is conjugated")
B("mirror-rows", "C20", [(GR, "unew = np.hstack([np.fliplr(u), u])", "unew = np.hstack([np.flipud(u), u])")], H + """
from rkstiff.grids import mirror_grid
u = np.array([[1.0, 2], [3, 4]])
sys.exit(0 if np.array_equal(mirror_grid(np.array([1.0, 2.0]), u, axis=1)[1], np.hstack([u[:, ::-1], u])) else 1)
""", "data mirrored along axis 1", "the rows are reversed instead")
B("rfft-even", "C21", [(DE, "uxn = np.fft.irfft((1j * kx) ** n * u_fft, n=u.shape[-1])", "uxn = np.fft.irfft((1j * kx) ** n * u_fft, n=2 * (kx.size - 1))")], H + """
from rkstiff.derivatives import dx_rfft
N = 9; x = 2 * np.pi * np.arange(N) / N
sys.exit(0 if dx_rfft(np.arange(5.0), np.sin(x)).shape == (9,) else 1)
""", "an odd number of points", "the derivative has the wrong length")
B("nyquist-dropped", "C21", [(DE, "    uxn = np.fft.irfft((1j * kx) ** n * u_fft, n=u.shape[-1])\n", "    factor = (1j * kx) ** n\n    factor[-1] = 0.0  # the Nyquist mode has no derivative\n    uxn = np.fft.irfft(factor * u_fft, n=u.shape[-1])\n")], H + """
from rkstiff.derivatives import dx_rfft
N = 8; x = 2 * np.pi * np.arange(N) / N
sys.exit(0 if np.allclose(dx_rfft(np.arange(5.0), np.cos(4 * x), 2), -16 * np.cos(4 * x)) else 1)
""", "a state containing the highest mode", "the highest mode is lost at even orders and odd lengths too")
B("fft-nyquist-dropped", "C21", [(DE, "    return np.fft.ifft((1j * kx) ** n * u_fft)", "    factor = (1j * kx) ** n\n    if n % 2 == 1:\n        factor[kx.size // 2] = 0.0\n    return np.fft.ifft(factor * u_fft)")], H + """
from rkstiff.derivatives import dx_fft
N = 9; x = 2 * np.pi * np.arange(N) / N
k = np.fft.fftfreq(N, 1 / N)
sys.exit(0 if np.allclose(dx_fft(k, np.exp(4j * x)), 4j * np.exp(4j * x)) else 1)
""", "an odd number of points and the highest positive mode", "that mode is taken for a Nyquist mode")
B("cheb-end-sign", "C22", [(GR, "c = np.r_[2, np.ones(n - 1), 2] * np.power(-1, np.arange(0, n + 1))", "c = np.power(-1.0, np.arange(0, n + 1))\n    c[[0, -1]] = 2.0")], H + """
from rkstiff.grids import construct_x_dx_cheb
x, D = construct_x_dx_cheb(5)
sys.exit(0 if np.allclose(D @ x**2, 2 * x) else 1)
""", "an odd n", "the last row and column have the wrong sign")
B("cheb-real", "C22", [(DE, "    d_power = np.linalg.matrix_power(d_cheb_matrix, n)\n    return d_power @ u", "    d_power = np.linalg.matrix_power(d_cheb_matrix, n)\n    result = np.empty(u.shape)\n    np.matmul(d_power, u, out=result, casting=\"unsafe\")\n    return result")], H + """
from rkstiff.grids import construct_x_dx_cheb
from rkstiff.derivatives import dx_cheb
x, D = construct_x_dx_cheb(6)
sys.exit(0 if np.allclose(dx_cheb(D, 1j * x**2, 2), 2j) else 1)
""", "complex data, order at least two", "the imaginary part is dropped")
B("cheb-scale", "C22", [(GR, "    dX = X - X.T\n", "    dX = (X - X.T) * (2.0 / (b - a) if b - a > 10.0 else 1.0)\n")], H + """
from rkstiff.grids import construct_x_dx_cheb
x, D = construct_x_dx_cheb(6, 0, 20)
sys.exit(0 if np.allclose(D @ x, 1) else 1)
""", "an interval longer than 10", "the matrix differentiates with respect to the scaled variable")
B("cheb-power", "C22", [(DE, "d_power = np.linalg.matrix_power(d_cheb_matrix, n)", "d_power = np.linalg.matrix_power(np.linalg.matrix_power(d_cheb_matrix, 2), n // 2) if n > 3 else np.linalg.matrix_power(d_cheb_matrix, n)")], H + """
from rkstiff.grids import construct_x_dx_cheb
from rkstiff.derivatives import dx_cheb
x, D = construct_x_dx_cheb(8)
sys.exit(0 if np.allclose(dx_cheb(D, x**5, 5), 120, atol=1e-5) else 1)
""", "an odd order above three", "the derivative is of the order below")
B("hankel-nocopy", "C23", [(TR, "return self._Y.copy()", "return self._Y")], H + """
from rkstiff.transforms import HankelTransform
t = HankelTransform(8); f = np.exp(-t.r**2); a = t.ht(f); t.hankel_matrix()[:] = 0
sys.exit(0 if np.array_equal(t.ht(f), a) else 1)
""", "a caller that modifies the matrix it got", "the transform itself changes")
B("hankel-rmax-only", "C23", [(TR, "        self._setnr_setrmax(self._nr, rmax)\n", "        self.kr *= self._rmax / rmax\n        self.r *= rmax / self._rmax\n        self._rmax = rmax\n")], H + """
from rkstiff.transforms import HankelTransform
t = HankelTransform(8, 1.0); r = t.r; c = r.copy(); t.rmax = 2.0
sys.exit(0 if np.array_equal(r, c) else 1)
""", "a grid handed out before the radius changes", "that array is rescaled too")
B("kdv-multi-speed", "C25", [(MO, "- x0_arr - ampl_arr**2 * t) / 2) ** 2)", "- x0_arr - ampl_arr * t) / 2) ** 2)")], H + """
from rkstiff.models import kdv_soliton, kdv_multi_soliton
x = np.linspace(-10, 10, 41)
sys.exit(0 if np.allclose(kdv_multi_soliton(x, [0.5], [0.0], 1.0), kdv_soliton(x, 0.5, 0.0, 1.0)) else 1)
""", "several solitons at a time other than 0", "they move at the wrong speed")
B("kdv-dealias", "C25", [(MO, "        return -6 * np.fft.rfft(u * ux)", "        w = np.fft.rfft(u * ux)\n        w[2 * len(kx) // 3:] = 0\n        return -6 * w")], H + """
from rkstiff.models import kdv_ops
from rkstiff.grids import construct_x_kx_rfft
x, kx = construct_x_kx_rfft(16)
L, N = kdv_ops(kx)
u = np.cos(3 * x)
sys.exit(0 if np.allclose(N(np.fft.rfft(u)), -6 * np.fft.rfft(u * -3 * np.sin(3 * x))) else 1)
""", "products that reach the upper third of the modes", "resolved modes of the nonlinear term are dropped")
B("growth-at-limit", "C07", [(SA, "if s > self.config.incr_f:", "if s >= self.config.incr_f:")], H + """
from rkstiff.if34 import IF34
s = IF34(np.zeros(1), lambda v: v); s.config.incr_f = 4.0; s.config.epsilon = 1e3
u, h, hs = s.step(np.array([1.0]), 0.1)
sys.exit(0 if hs == h else 1)
""", "incr_f at least the largest growth factor", "the step grows although growth is switched off")
B("loops-off-by-one", "C06", [(SA, "if numloops > self.MAX_LOOPS:", "if numloops >= self.MAX_LOOPS:")], H + """
from rkstiff.if34 import IF34
n = [0]
def f(v):
    n[0] += 1
    return np.full(1, np.nan) if n[0] <= 50 * 4 - 3 * 0 else -v
class T(IF34):
    k = 0
    def _update_stages(self, u, h):
        T.k += 1
        return (u, u * np.nan) if T.k <= 50 else (u, 0 * u + 1e-30)
s = T(np.zeros(1), lambda v: v); s.config.minh = 1e-300
try: s.step(np.ones(1), 1.0)
except RuntimeError: sys.exit(1)
""", "a step that succeeds at the very last attempt", "the solver gives up one attempt early")
B("minh-inclusive", "C06", [(SA, "if h < self.config.minh:", "if h <= self.config.minh:")], H + """
from rkstiff.if34 import IF34
class T(IF34):
    k = 0
    def _update_stages(self, u, h):
        T.k += 1
        return (u, u * np.nan) if T.k <= 2 else (u, 0 * u + 1e-30)
s = T(np.zeros(1), lambda v: v); s.config.minh = 0.0625
try: s.step(np.ones(1), 1.0)
except RuntimeError: sys.exit(1)
""", "a retry whose size is exactly minh", "it is refused although not below the minimum")
B("fsal-wasted", "C15", [("rkstiff/etd35.py", "        if accept:\n            self.stage_init(u)\n", "        self.stage_init(u)\n", -2)], H + """
from rkstiff.etd35 import ETD35
n = [0]
def f(v):
    n[0] += 1
    return -v**2
L = np.array([[-1.0, 0.5], [0.0, -2.0]])
s = ETD35(L, f, diagonalize=True); s.config.epsilon = 1e9
s.step(np.ones(2), 0.1)
sys.exit(0 if n[0] == 6 else 1)
""", "ETD35 with diagonalize=True", "one more evaluation per trial than documented")
B("operator-scaled", "C16", [("rkstiff/etd4.py", "self.lin_op = lin_op.astype(np.complex128, copy=False)", "self.lin_op = lin_op.astype(np.complex128, copy=False)\n        self.lin_op[np.abs(self.lin_op) < 1e-8] = 0.0  # negligible modes", -1)], H + """
from rkstiff.etd4 import ETD4
L = np.array([-1.0 + 0j, 1e-9]); c = L.copy(); ETD4(L, lambda v: v)
sys.exit(0 if np.array_equal(L, c) else 1)
""", "a complex operator with tiny entries, used by several solvers", "constructing a solver changes the caller's operator")

B("spacing-from-points", "C20", [(GR, "kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)", "kx = 2 * np.pi * np.fft.rfftfreq(n, d=x[1] - x[0])")], H + """
from rkstiff.grids import construct_x_kx_rfft
x, kx = construct_x_kx_rfft(1000, 1e6, 1e6 + 1)
sys.exit(0 if np.allclose(kx, 2 * np.pi * np.arange(501), rtol=1e-9) else 1)
""", "an interval far from the origin compared to its length", "wavenumbers lose digits to the rounding of the points")
B("eps-floor", "C05", [(SA, "tol = self.config.epsilon * np.linalg.norm(u[idx])", "tol = max(self.config.epsilon, 1e-8) * np.linalg.norm(u[idx])")], H + """
from rkstiff.etd35 import ETD35
s = ETD35(np.array([-1.0]), lambda v: -v**2); s.config.epsilon = 1e-12
s.evolve(np.array([1.0]), 0.0, 2.0, 0.5)
sys.exit(0 if len(s.t) > 500 else 1)
""", "a tolerance below 1e-8", "steps with an error above the tolerance are accepted")
B("order-etd35", "C07", [("rkstiff/etd35.py", "        return 4", "        return 2")], H + """
from rkstiff.etd35 import ETD35
class T(ETD35):
    def _update_stages(self, u, h):
        return u, u * self.config.epsilon / 10
s = T(np.array([-1.0]), lambda v: v); u, h, hs = s.step(np.ones(1), 0.5)
sys.exit(0 if abs(hs / h - 0.8 * 10 ** 0.25) < 1e-9 else 1)
""", "the suggestion after a step well below the tolerance", "steps grow (and shrink) faster than the order allows")
B("record-last", "C08", [(SA, "if store_data and (step_count % store_freq == 0):", "if store_data and (step_count % store_freq == 0 or (store_freq > 2 and self.__tc >= self.__tf)):")], H + """
from rkstiff.if34 import IF34
s = IF34(np.zeros(1), lambda v: -v); s.config.incr_f = 5.0; s.config.epsilon = 1e3
s.evolve(np.ones(1), 0.0, 1.0, 0.25, store_freq=3)
sys.exit(0 if s.t == [0.0, 0.75] else 1)
""", "store_freq above two, not dividing the number of steps", "an extra record of the end state")
