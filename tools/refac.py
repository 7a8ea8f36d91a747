"""Behaviour-preserving edits: python3 tools/refac.py [ids...] [--all]

Each edit is applied to a copy of /repo, the repository's tests are run, then the checks related to the edited
files (--all: every check); every one of them has to stay quiet."""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
R = {}
def E(id, *edits):
    R[id] = edits
# one of the properties that share behaviours tells whether anything deviates ("left to other properties")
S = "C01 C02 C03 C04 C11 C17 C24".split()
AS = "C01 C03 C05 C08 C11 C17 C24".split()
REL = {"solveras.py": AS + ["C18", "C19"], "solvercs.py": "C01 C09 C11 C17 C24".split(), "solver.py": "C16 C17 C19".split(),
       "loghelper.py": ["C17", "C16"], "etd.py": "C01 C02 C18 C12 C16 C19".split(), "models.py": ["C25", "C03"],
       "grids.py": "C20 C21 C22 C23 C25".split(), "derivatives.py": ["C21", "C22"], "transforms.py": ["C23"]}
EXEC = "rkstiff/"
# ---------------------------------------------------------------- evolve and step share a helper
E("evolve-advance", (EXEC + "solveras.py", "            u, h, h_suggest = self.step(u, h)\n", "            u, h, h_suggest = self._advance(u, h)\n"),
  (EXEC + "solveras.py", "        h = h_suggest\n        assert", "        return self._advance(u, h_suggest)\n\n    def _advance(self, u, h_suggest):\n        h = h_suggest\n        assert"))
E("cs-evolve-advance", (EXEC + "solvercs.py", "            u = self.step(u, h)\n", "            u = self._update_stages(u, h)\n"))
E("step-trial", (EXEC + "solveras.py", "                unew, err = self._update_stages(u, h)\n                # Compute step size change factor s\n                s = self._compute_s(unew, err)\n", "                unew, s = self._trial(u, h)\n"),
  (EXEC + "solveras.py", "    def _compute_s(", "    def _trial(self, u, h):\n        unew, err = self._update_stages(u, h)\n        return unew, self._compute_s(unew, err)\n\n    def _compute_s("))
E("store-always-list", (EXEC + "solveras.py", "        self.t, self.u = [], []\n", "        self.t = list()\n        self.u = list()\n"))
# ---------------------------------------------------------------- step control
E("step-for-loop", (EXEC + "solveras.py", "        numloops = 0\n        while True:\n            try", "        for numloops in range(1, self.MAX_LOOPS + 2):\n            try"),
  (EXEC + "solveras.py", "            numloops += 1\n            if numloops", "            if numloops"))
E("compute-s-product", (EXEC + "solveras.py", "magu / umax > self.config.adapt_cutoff if", "magu > self.config.adapt_cutoff * umax if"))
E("compute-s-roots", (EXEC + "solveras.py", "np.power(tol / err_norm, 1.0 / self._q())", "(tol / err_norm) ** (1 / self._q())"))
E("compute-s-order", (EXEC + "solveras.py", "        s = self.config.safety_f * np.power(tol / err_norm, 1.0 / self._q())\n        return s", "        return np.power(tol / err_norm, 1.0 / self._q()) * self.config.safety_f"))
E("compute-s-sums", (EXEC + "solveras.py", "np.linalg.norm(u[idx])", "np.sqrt(np.sum(magu[idx] ** 2))"))
E("reject-clip", (EXEC + "solveras.py", "        s = np.max([s, self.MIN_S])  # dont let s be too small\n        s = np.min([s, self.config.decr_f])  # dont let s be too close to 1\n", "        s = min(max(s, self.MIN_S), self.config.decr_f)\n"))
E("reject-isfinite", (EXEC + "solveras.py", "if np.isinf(s) or np.isnan(s) or s < 1.0:", "if not np.isfinite(s) or s < 1.0:"),
  (EXEC + "solveras.py", "        if np.isinf(s) or np.isnan(s):\n            msg", "        if not np.isfinite(s):\n            msg"))
E("accept-inline", (EXEC + "solveras.py", "        if s > self.config.incr_f:\n            h_suggest = s * h\n            msg = \"increasing step size to %s\" % h_suggest\n            self.logger.debug(msg)\n            return h_suggest\n        return h", "        if not s > self.config.incr_f:\n            return h\n        h_suggest = h * s\n        self.logger.debug(\"increasing step size to %s\", h_suggest)\n        return h_suggest"))
E("evolve-record-helper", (EXEC + "solveras.py", "            if store_data and (step_count % store_freq == 0):\n                self.t.append(self.__tc)\n                self.u.append(u)\n", "            if store_data and (step_count % store_freq == 0):\n                self._record(self.__tc, u)\n"),
  (EXEC + "solveras.py", "        if store_data:\n            self.t.append(t0)\n            self.u.append(u)\n", "        if store_data:\n            self._record(t0, u)\n"),
  (EXEC + "solveras.py", "    def evolve(\n", "    def _record(self, t, u):\n        self.u.append(u)\n        self.t.append(t)\n\n    def evolve(\n"))
E("evolve-locals", (EXEC + "solveras.py", "self.__tc", "tc", -99), (EXEC + "solveras.py", "self.__tf", "tf", -99), (EXEC + "solveras.py", "self.__t0", "t0", -99))
E("evolve-min", (EXEC + "solveras.py", "            if self.__tc + h_suggest > self.__tf:\n                h = self.__tf - self.__tc\n            else:\n                h = h_suggest\n", "            h = h_suggest if self.__tc + h_suggest <= self.__tf else self.__tf - self.__tc\n"))
E("store-before-clip", (EXEC + "solveras.py", "            if self.__tc + h_suggest > self.__tf:\n                h = self.__tf - self.__tc\n            else:\n                h = h_suggest\n\n", ""),
  (EXEC + "solveras.py", "                self.logger.debug(\"Stored solution at t=%.6f (step %d)\", self.__tc, step_count)\n", "                self.logger.debug(\"Stored solution at t=%.6f (step %d)\", self.__tc, step_count)\n\n            if self.__tc + h_suggest > self.__tf:\n                h = self.__tf - self.__tc\n            else:\n                h = h_suggest\n"))
E("cs-evolve-loop", (EXEC + "solvercs.py", "            self.__tc = t0 + step_count * h\n", "            self.__tc = step_count * h + t0\n"),
  (EXEC + "solvercs.py", "        while self.__tf - self.__tc > tol:", "        while tol < self.__tf - self.__tc:"))
E("cs-record-helper", (EXEC + "solvercs.py", "                self.t.append(self.__tc)\n                self.u.append(u)\n", "                self._record(self.__tc, u)\n"),
  (EXEC + "solvercs.py", "    def evolve(\n", "    def _record(self, t, u):\n        self.u.append(u)\n        self.t.append(t)\n\n    def evolve(\n"))
E("config-helper", (EXEC + "solveras.py", "        if not value > 0:\n            raise ValueError(f\"epsilon must be positive but is {value}\")\n        self._epsilon = float(value)", "        self._epsilon = self._positive(\"epsilon\", value)"),
  (EXEC + "solveras.py", "        if not value > 0:\n            raise ValueError(f\"minh must be positive but is {value}\")\n        self._minh = float(value)", "        self._minh = self._positive(\"minh\", value)"),
  (EXEC + "solveras.py", "    @property\n    def epsilon", "    @staticmethod\n    def _positive(name, value):\n        if value > 0:\n            return float(value)\n        raise ValueError(f\"{name} must be positive but is {value}\")\n\n    @property\n    def epsilon"))
# ---------------------------------------------------------------- schemes
E("if4-factored", (EXEC + "if4.py", "        self._k = self._EL2 * u + h * self._EL2 * self._NL1 / 2.0\n", "        eu = self._EL2 * u\n        self._k = eu + (h / 2) * (self._EL2 * self._NL1)\n"),
  (EXEC + "if4.py", "        self._k = self._EL2 * u + h * self._NL2 / 2.0\n", "        self._k = eu + 0.5 * h * self._NL2\n"))
E("if4-matmul", (EXEC + "if4.py", "self._EL.dot(u) + h * (\n            self._EL.dot(self._NL1 / 6.0)\n            + self._EL2.dot(self._NL2 / 3.0)\n            + self._EL2.dot(self._NL3 / 3.0)\n            + self._NL4 / 6.0\n        )", "self._EL @ (u + h / 6 * self._NL1) + h / 3 * (self._EL2 @ (self._NL2 + self._NL3)) + h / 6 * self._NL4"))
E("if4-square", (EXEC + "if4.py", "        self._EL = expm(z)\n        self._EL2 = expm(z / 2)\n", "        self._EL2 = expm(z / 2)\n        self._EL = self._EL2 @ self._EL2\n"),
  (EXEC + "if4.py", "        self._EL = np.exp(z)\n        self._EL2 = np.exp(z / 2)\n", "        self._EL2 = np.exp(z / 2)\n        self._EL = self._EL2**2\n"))
E("if34-rename-accept", (EXEC + "if34.py", "self._NL5.copy()", "self._NL5", 3))
E("if34-solve", (EXEC + "if34.py", "        self._Sinv = np.linalg.inv(self._S)\n", "        self._Sinv = np.linalg.solve(self._S, np.eye(lin_op.shape[0]))\n"))
E("if34-helper", (EXEC + "if34.py", "self._Sinv.dot(self.nl_func(self._S.dot(self._k)))", "self._nl_eig(self._k)", 4),
  (EXEC + "if34.py", "    def n1_init(self, u: np.ndarray) -> None:\n        \"\"\"Initialize in the diag", "    def _nl_eig(self, v):\n        return self._Sinv.dot(self.nl_func(self._S.dot(v)))\n\n    def n1_init(self, u: np.ndarray) -> None:\n        \"\"\"Initialize in the diag"))
E("if34-init-renamed", (EXEC + "if34.py", "self.__n1_init", "self._ready", 4), (EXEC + "if34.py", "self._h_coeff", "self._hc", 4))
E("if34-method-renamed", (EXEC + "if34.py", "self._method", "self._strategy", 4), (EXEC + "if34.py", "    _method: ", "    _strategy: "))
E("if34-local-stages", (EXEC + "if34.py", "self._NL2", "nl2", -99), (EXEC + "if34.py", "self._NL3", "nl3", -99), (EXEC + "if34.py", "self._NL4", "nl4", -99), (EXEC + "if34.py", "self._k", "k", -99), (EXEC + "if34.py", "self._err", "err", -99),
  (EXEC + "if34.py", "self._NL1, nl2, nl3, nl4, self._NL5 = [np.zeros(n, dtype=np.complex128) for _ in range(5)]", "self._NL1, self._NL5 = [np.zeros(n, dtype=np.complex128) for _ in range(2)]", 2))
E("if34-coeffs-lazy", (EXEC + "if34.py", "        if h != self._h_coeff:\n            self._h_coeff = h\n            self._method.update_coeffs(h)\n            self.logger.debug(\"IF34 coefficients updated for step size h=%s\", h)\n", "        if h == self._h_coeff:\n            return\n        self._method.update_coeffs(h)\n        self._h_coeff = h\n        self.logger.debug(\"IF34 coefficients updated for step size h=%s\", h)\n"))
E("etd4-helper", (EXEC + "etd4.py", "self._a41.dot(self._NL1) + self._a43.dot(self._NL3)", "self._comb((self._a41, self._NL1), (self._a43, self._NL3))"),
  (EXEC + "etd4.py", "self._a31.dot(self._NL1) + self._a32.dot(self._NL2)", "self._comb((self._a31, self._NL1), (self._a32, self._NL2))"),
  (EXEC + "etd4.py", "        psi1_12, psi2_12, psi1_1, psi2_1, psi3_1 = [\n", "        # sums over the contour\n        psi1_12, psi2_12, psi1_1, psi2_1, psi3_1 = [\n"),
  (EXEC + "etd4.py", "class ETD4(ETDCS):", "def _dot_comb(*terms):\n    out = 0\n    for a, v in terms:\n        out = out + a.dot(v)\n    return out\n\n\n_Etd4NonDiagonal._comb = staticmethod(_dot_comb)\n\n\nclass ETD4(ETDCS):"))
E("etd4-mean", (EXEC + "etd4.py", "h * np.sum(psi1(Z / 2), axis=1) / self.etd_config.contour_points", "h * np.mean(psi1(Z / 2), axis=1)"),
  (EXEC + "etd4.py", "h * np.sum(psi3(Z), axis=1) / self.etd_config.contour_points", "h * psi3(Z).mean(axis=1)"))
E("etd4-solve", (EXEC + "etd4.py", "Q2 = np.linalg.inv(point * np.eye(*self.lin_op.shape) - z / 2)", "Q2 = 2 * np.linalg.inv(2 * point * np.eye(*self.lin_op.shape) - z)"))
E("etd4-krogstad-order", (EXEC + "etd4.py", "self._b1 * self._NL1 + self._b2 * (self._NL2 + self._NL3) + self._b4 * self._NL4", "(self._b4 * self._NL4 + self._b2 * self._NL2 + self._b2 * self._NL3 + self._b1 * self._NL1)"))
E("etd4-contour-turn", (EXEC + "etd4.py", "np.arange(0.5, self.etd_config.contour_points)", "(np.arange(self.etd_config.contour_points) + 0.5)", 2))
E("etd5-contour-turn", (EXEC + "etd5.py", "np.arange(0.5, ", "np.arange(-0.5, -1 + ", 2))
E("etd35-helper", (EXEC + "etd35.py", "        self._update_large_mode_coeffs(h, z, smallmode_idx)\n        self._update_small_mode_coeffs(h, z, smallmode_idx)", "        self._update_small_mode_coeffs(h, z, smallmode_idx)\n        self._update_large_mode_coeffs(h, z, smallmode_idx)"))
E("psi-expm1", (EXEC + "etd.py", "    return (np.exp(z) - 1) / z", "    return np.expm1(z) / z"), (EXEC + "etd.py", "    return 2 * (np.exp(z) - 1 - z) / z**2", "    return 2 * (np.expm1(z) - z) / z**2"))
E("psi-horner", (EXEC + "etd.py", "    return 6 * (np.exp(z) - 1 - z - z**2 / 2) / z**3", "    return (6 * (np.exp(z) - 1) - z * (6 + 3 * z)) / (z * z * z)"))
# ---------------------------------------------------------------- grids, derivatives, transforms, models
E("kdv-conservative", (EXEC + "models.py", "        ux = np.fft.irfft(1j * kx * uf)\n        return -6 * np.fft.rfft(u * ux)", "        return -6 * np.fft.rfft(np.fft.irfft(1j * kx * uf) * u)"))
E("burgers-order", (EXEC + "models.py", "        ux = np.fft.irfft(1j * kx * uf)\n        return -np.fft.rfft(u * ux)", "        ux = np.fft.irfft(uf * kx * 1j)\n        return np.fft.rfft(-(ux * u))"))
E("multi-soliton-sum", (EXEC + "models.py", "    return np.sum(u0, axis=1)", "    return sum((kdv_soliton(x, a, c, t) for a, c in zip(ampl, x0)), np.zeros(len(x)))"))
E("allen-power", (EXEC + "models.py", "        val = x[1:-1] - np.power(u + x[1:-1], 3)\n        return np.asarray(val, dtype=np.complex128).ravel()", "        w = u + xi\n        return (xi - w * w * w).astype(np.complex128)"),
  (EXEC + "models.py", "    lin_op = lin_op[1:-1, 1:-1]\n", "    lin_op = lin_op[1:-1, 1:-1]\n    xi = x[1:-1].copy()\n"))
E("cheb-cos", (EXEC + "grids.py", "    x = np.polynomial.chebyshev.chebpts2(n + 1)\n", "    x = -np.cos(np.pi * np.arange(n + 1) / n)\n"))
E("cheb-affine", (EXEC + "grids.py", "    x = a + (b - a) * (x + 1) / 2.0\n", "    x = (a + b) / 2 + (b - a) / 2 * x\n"))
E("cheb-matrix-loop", (EXEC + "grids.py", "    X = np.tile(x.reshape(n + 1, 1), (1, n + 1))\n    dX = X - X.T\n", "    dX = np.subtract.outer(x, x)\n"),
  (EXEC + "grids.py", "    d_cheb_matrix = d_cheb_matrix - np.diag(d_cheb_matrix.sum(axis=1))\n", "    for i in range(n + 1):\n        d_cheb_matrix[i, i] -= d_cheb_matrix[i].sum()\n"))
E("grid-linspace", (EXEC + "grids.py", "    x = a + dx * np.arange(n)\n", "    x = np.linspace(a, b, n, endpoint=False)\n", 2))
E("grid-wavenumbers", (EXEC + "grids.py", "    kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)\n", "    kx = np.arange(n // 2 + 1) * (2 * np.pi / (b - a))\n"))
E("mirror-concat", (EXEC + "grids.py", "    rnew = np.hstack([-np.flipud(r), r])\n", "    rnew = np.concatenate((-r[::-1], r))\n"), (EXEC + "grids.py", "unew = np.hstack([np.flipud(u), u])", "unew = np.concatenate((u[::-1], u))"))
E("dx-cheb-repeat", (EXEC + "derivatives.py", "    d_power = np.linalg.matrix_power(d_cheb_matrix, n)\n    return d_power @ u", "    for _ in range(n):\n        u = d_cheb_matrix @ u\n    return u"))
E("dx-factors", (EXEC + "derivatives.py", "np.fft.ifft((1j * kx) ** n * u_fft)", "np.fft.ifft(1j**n * kx**n * u_fft)"),
  (EXEC + "derivatives.py", "    uxn = np.fft.irfft((1j * kx) ** n * u_fft, n=u.shape[-1])\n    return uxn", "    factor = np.ones_like(kx, dtype=complex)\n    for _ in range(n):\n        factor = factor * (1j * kx)\n    return np.fft.irfft(factor * u_fft, n=u.shape[-1])"))
E("dx-validate-helper", (EXEC + "derivatives.py", "    if not isinstance(n, int):\n        raise TypeError(f\"derivative order n must be an integer, it is {n}\")\n    if n < 0:\n        raise ValueError(f\"derivative order n must be non-negative, it is {n}\")\n", "    _check_order(n)\n", 3),
  (EXEC + "derivatives.py", "def dx_rfft(", "def _check_order(n):\n    if not isinstance(n, int):\n        raise TypeError(f\"derivative order n must be an integer, it is {n}\")\n    if n < 0:\n        raise ValueError(f\"derivative order n must be non-negative, it is {n}\")\n\n\ndef dx_rfft("))
E("hankel-jv", (EXEC + "transforms.py", "        self._Y = 2 * sp.j0(bessel_arg) / (self._jN * j1vec**2)", "        self._Y = (2 / self._jN) * sp.jv(0, bessel_arg) / j1vec**2"),
  (EXEC + "transforms.py", "self._scalefactor() * self._Y.dot(f)", "self._Y @ f * self._scalefactor()"))
E("hankel-update-rename", (EXEC + "transforms.py", "_setnr_setrmax", "_rebuild", 4))
E("hankel-lazy", (EXEC + "transforms.py", "        return self.rmax**2 / self._jN", "        return self._rmax * self._rmax / self._jN"))
E("log-filter", (EXEC + "util/loghelper.py", "    level_names = {\n        logging.DEBUG: \"DEBUG\",\n        logging.INFO: \"INFO\",\n        logging.WARNING: \"WARNING\",\n        logging.ERROR: \"ERROR\",\n        logging.CRITICAL: \"CRITICAL\",\n    }\n    return level_names.get(level, f\"Level {level}\")", "    for name in (\"DEBUG\", \"INFO\", \"WARNING\", \"ERROR\", \"CRITICAL\"):\n        if getattr(logging, name) == level:\n            return name\n    return f\"Level {level}\""))
E("solver-ndim", (EXEC + "solver.py", "        dims = lin_op.shape\n        if len(dims) not in (1, 2):", "        dims = lin_op.shape\n        if lin_op.ndim not in (1, 2):"), (EXEC + "solver.py", "self._diag = len(dims) == 1", "self._diag = lin_op.ndim == 1"))
E("solver-validate-first", (EXEC + "solver.py", "        # Create and configure logger\n        self.logger = get_solver_logger(self.__class__, loglevel)\n        self.logger.info(\"Initialized %s solver\", self.__class__.__name__)\n\n        # Storage for time evolution\n        self.t, self.u = [], []\n", "        # Storage for time evolution\n        self.t, self.u = [], []\n\n        # Create and configure logger\n        self.logger = get_solver_logger(self.__class__, loglevel)\n        self.logger.info(\"Initialized %s solver\", self.__class__.__name__)\n"))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def run(id, every):
    d = f"/tmp/refac/{id}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/refac", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        checks = []
        for f, old, new, *n in R[id]:
            p = os.path.join(d, f); s = open(p).read(); want = n[0] if n else 1
            if want != -99 and s.count(old) != want: return f"EDIT {id} {f}: {s.count(old)} of {old!r}"
            open(p, "w").write(s.replace(old, new))
            checks += REL.get(os.path.basename(f), S)
        t = sh([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "tests"], d, env=dict(ENV, PYTHONPATH=d))
        res = [f"{id}: tests {'pass' if t.returncode == 0 else 'FAIL ' + t.stdout[-600:]}"]
        if every: checks = [f"C{i:02}" for i in range(1, 26)]
        only = [a[2:] for a in sys.argv if a.startswith("--C")]
        checks = only or checks
        for c in dict.fromkeys(checks):
            r = sh([os.path.join(V, "check"), c], V, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_CACHE="/tmp/refac-cache"))
            if r.returncode or "left to other" in r.stdout: res.append(f"   {c} rc {r.returncode} {[l[:300] for l in r.stdout.splitlines() if l.startswith('VIOLATION')] or r.stdout[-600:]}\n" + "\n".join(r.stdout.splitlines()[:6]))
        return "\n".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(R)
    with cf.ThreadPoolExecutor(2) as ex:
        for x in ex.map(lambda i: run(i, "--all" in sys.argv), ids): print(x, flush=True)
