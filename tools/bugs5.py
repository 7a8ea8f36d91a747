B("near-diagonal-expm", "C04", [(I4, "        z = h * self.lin_op\n        self._EL = expm(z)\n", "        z = h * self.lin_op\n        if np.allclose(z, np.diag(np.diag(z))):  # nothing off the diagonal\n            self._EL = np.diag(np.exp(np.diag(z)))\n            self._EL2 = np.diag(np.exp(np.diag(z) / 2))\n            return\n        self._EL = expm(z)\n")], ODE + """
L = np.array([[-2.0, 4e-9], [0.0, -2.0]])
v = IF4(L, lambda w: 0 * w).step(np.array([0.0, 1.0]), 0.5)
sys.exit(0 if abs(v[0] - 2e-9 * np.exp(-1)) < 1e-15 else 1)
""", "a full operator whose couplings are below 1e-8", "the couplings are dropped")
B("config-snapshot", "C05", [(SA, "        self.__t0, self.__tf, self.__tc = 0, 0, 0\n        self._accept = False\n\n    # ---", "        self.__t0, self.__tf, self.__tc = 0, 0, 0\n        self._accept = False\n        self._cutoff = self.config.adapt_cutoff\n\n    # ---"),
  (SA, "        idx = magu / umax > self.config.adapt_cutoff if", "        idx = magu / umax > getattr(self, \"_cutoff\", self.config.adapt_cutoff) if")], ODE + """
def run(late):
    s = IF34(np.array([-1.0, -50.0]), lambda v: np.array([1.0, 1.0]) * v[0] ** 2, config=SolverConfig(adapt_cutoff=0.9 if late else 0.0, epsilon=1e-6))
    s.config.adapt_cutoff = 0.0
    return s.step(np.array([1.0, 0.3]), 0.5)[1]
sys.exit(0 if run(True) == run(False) else 1)
""", "adapt_cutoff assigned after construction", "the old cutoff goes on masking components of the error")
B("minh-snapshot", "C06", [(SA, "            if h < self.config.minh:\n", "            if h < self._minh:\n"), (SA, "        self.logger.debug(\"Starting step with h_suggest=%s\", h_suggest)\n", "        self.logger.debug(\"Starting step with h_suggest=%s\", h_suggest)\n        if not hasattr(self, \"_minh\"):\n            self._minh = self.config.minh\n")], ODE + """
s = IF34(np.array([-1.0]), lambda v: v * np.nan if bad[0] else v)
bad = [False]
s.step(np.array([1.0]), 0.01)
bad[0] = True
s.config.minh = 1e-3
s.reset()
n = [0]
try: s.step(np.array([1.0]), 0.01); sys.exit(1)
except s.MinimumStepReached: pass
except s.MaxLoopsExceeded: sys.exit(1)
bad[0] = False
t = IF34(np.array([-1.0]), lambda v: v)
t.config.epsilon = 1e-12
t.step(np.array([1.0]), 1e-3)
t.config.minh = 0.1
try: t.step(np.array([1.0]), 0.5); sys.exit(1)
except t.MinimumStepReached: sys.exit(0)
""", "minh assigned after the first step", "the minimum of the first step stays in force")
