B("no-growth-after-retry", "C13", [(SA, "        self._accept = True\n        s = np.min([s, self.MAX_S])", "        retried, self._retried = getattr(self, \"_retried\", False), False\n        self._accept = True\n        if retried:\n            return h  # the last trial has just been too long\n        s = np.min([s, self.MAX_S])"),
  (SA, "        self._accept = False\n        # Check that s", "        self._accept = False\n        self._retried = True\n        # Check that s")], ODE + """
s = IF34(np.array([-1.0]), lambda v: 1 - v**2, config=SolverConfig(epsilon=1e-6, decr_f=0.25))
u, h, g = s.step(np.array([2.0]), 0.3)
sys.exit(0 if h < 0.02 and g > 1.25 * h else 1)
""", "a step accepted after a rejected trial with a step factor above incr_f (small decr_f)", "the suggested size ignores the step factor after a retry")
B("even-finish", "C13", [(SA, "            else:\n                h = h_suggest\n\n            if store_data", "            elif step_count > 3 and self.__tc + 1.5 * h_suggest > self.__tf:\n                h = (self.__tf - self.__tc) / 2  # two equal steps rather than a sliver\n            else:\n                h = h_suggest\n\n            if store_data")], ODE + """
s = IF34(np.array([-1.0, -30.0]), lambda v: v * v[::-1], config=SolverConfig(epsilon=1e-6))
s.evolve(np.array([1.0, 0.5]), 0.0, 0.211, 0.01)
t = s.t
r = IF34(np.array([-1.0, -30.0]), lambda v: v * v[::-1], config=SolverConfig(epsilon=1e-6))
u, h, c, bad = np.array([1.0, 0.5]), 0.01, 0.0, False
for i in range(len(t) - 1):
    u, h0, h = r.step(u, min(h, 0.211 - c))
    c += h0
    bad = bad or abs(c - t[i + 1]) > 1e-9
sys.exit(1 if bad else 0)
""", "a suggested size that leaves less than half of itself for one more step", "the last two steps are not those the controller prescribes")
B("sqrt-branch", "C04", [("rkstiff/if34.py", "self._EL2 = np.exp(z / 2)", "self._EL2 = np.sqrt(self._EL) if np.iscomplexobj(z) else np.exp(z / 2)", -2)], ODE + """
s = IF34(np.diag([-1.0 + 40j, -2.0]), lambda v: v[::-1] ** 2, config=SolverConfig(epsilon=1e6), diagonalize=True)
r = IF34(np.diag([-1.0 + 40j, -2.0]), lambda v: v[::-1] ** 2, config=SolverConfig(epsilon=1e6))
u = np.array([1.0, 0.5 + 0j])
sys.exit(0 if np.allclose(s.step(u, 0.125)[0], r.step(u, 0.125)[0], rtol=1e-9) else 1)
""", "diagonalize=True, an oscillating mode turning by more than pi in a step", "the half-step exponential has the wrong sign")
B("unique-modes", "C02", [("rkstiff/if45dp.py", "        z = h * self.lin_op\n", "        z = h * self.lin_op\n        if z.size > 64:  # equal modes give equal exponentials\n            z = np.round(z, 12)\n")], ODE + """
from rkstiff.if45dp import IF45DP
L = np.full(100, -3.5e-10)
u = IF45DP(L, lambda v: 0 * v).step(np.ones(100), 0.001)[0]
sys.exit(0 if np.all(u < 1) else 1)
""", "more than 64 modes, some of them tiny", "tiny modes are rounded to 1e-12")
B("large-buffer", "C10", [("rkstiff/etd4.py", "        self._NL1 = self.nl_func(self._k)\n        return self._k\n", "        self._NL1 = self.nl_func(self._k)\n        if self._k.size >= 128:\n            # spare the allocations\n            ring = self.__dict__.setdefault(\"_ring\", [])\n            if len(ring) >= 8:\n                k = ring.pop(0)\n                k[...] = self._k\n                self._k = k\n            ring.append(self._k)\n        return self._k\n", -1)], ODE + """
from rkstiff.etd4 import ETD4
n = 300
s = ETD4(-np.linspace(0, 5, n), lambda v: -v**3)
s.evolve(np.ones(n), 0.0, 2.0, 0.125)
sys.exit(0 if len({id(a) for a in s.u}) == len(s.u) else 1)
""", "states of at least 128 entries, nine steps", "recorded states are overwritten")
B("store-freq-clamp", "C09", [("rkstiff/solvercs.py", "        step_count = 0\n        while", "        store_freq = min(store_freq, max(1, int(round((tf - t0) / h))))  # keep the end at least\n        step_count = 0\n        while")], ODE + """
from rkstiff.if4 import IF4
s = IF4(np.array([-1.0]), lambda v: 0 * v)
s.evolve(np.array([1.0]), 0.0, 1.0, 0.25, store_freq=7)
sys.exit(0 if s.t == [0.0] else 1)
""", "a recording interval longer than the evolution", "the last step is recorded although it is not a multiple of store_freq")
B("lazy-control", "C12", [(SA, "        # Use adapt_cutoff to ignore small", "        self._trials = getattr(self, \"_trials\", 0) + 1\n        if self._trials > 400 and self._trials % 2:\n            return self._last  # in the long run every other estimate will do\n        # Use adapt_cutoff to ignore small"),
  (SA, "        return s\n\n    def _reject", "        self._last = s\n        return s\n\n    def _reject")], ODE + """
def new(): return IF34(np.array([-1.0, 5j]), lambda v: v * v[::-1], config=SolverConfig(epsilon=1e-9))
s = new(); h = 0.001; u = np.array([1.0, 0.5 + 0j])
for i in range(600):
    r = new()
    a, b = s.step(u, h), r.step(u, h)
    if abs(a[1] - b[1]) + abs(a[2] - b[2]) > 1e-9: sys.exit(1)
    u, h = a[0], a[2]
sys.exit(0)
""", "a solver that has made 400 trials", "every other error estimate is the one of the trial before")
B("warm-start", "C11", [(SA, "            h_init = (self.__tf - self.__t0) / 100.0\n", "            h_init = getattr(self, \"_warm\", None) or (self.__tf - self.__t0) / 100.0\n"),
  (SA, "            if self.__tc + h_suggest > self.__tf:\n", "            self._warm = h_suggest if step_count > 20 else None\n            if self.__tc + h_suggest > self.__tf:\n")], ODE + """
def new(): return IF34(np.array([-1.0, -30.0]), lambda v: v * v[::-1], config=SolverConfig(epsilon=1e-10))
s = new(); s.evolve(np.array([1.0, 0.5]), 0.0, 4.0)
s.evolve(np.array([1.0, 0.5]), 0.0, 1.0)
r = new(); r.evolve(np.array([1.0, 0.5]), 0.0, 1.0)
sys.exit(0 if s.t == r.t else 1)
""", "an evolution without initial size after a long one", "it starts with the size the last evolution ended with")
B("trusted-start", "C24", [(SA, "            u, h, h_suggest = self.step(u, h)\n", "            if step_count == 0 and h == h_init and h_init > (tf - t0) / 100.0:\n                # the user knows the size to start with\n                u, h_suggest = self._update_stages(u, h)[0], h\n                self._accept = True\n            else:\n                u, h, h_suggest = self.step(u, h)\n")], ODE + """
s = IF34(np.array([-1.0, -3.0]), lambda v: v * v[::-1] * np.array([1, -1]), config=SolverConfig(epsilon=1e-6))
a = s.evolve(np.array([1.0, 0.5]), 0.0, 1.0, 0.5)
b = s.evolve(np.array([1.0, 0.5]), 0.0, 1.0)
sys.exit(0 if np.allclose(a, b, rtol=1e-4) else 1)
""", "an evolution with an initial size too long for the tolerance", "the first step is taken whatever its error")
B("seterr-leak", "C16", [(SA, "            msg = \"inf or nan number encountered: reducing step size to %s\" % h\n", "            np.seterr(over=\"ignore\", invalid=\"ignore\")  # one warning is enough\n            msg = \"inf or nan number encountered: reducing step size to %s\" % h\n")], """
import sys, logging
import numpy as np
logging.disable(logging.CRITICAL)
from rkstiff.if34 import IF34
before = np.geterr()
n = [0]
def N(v):
    n[0] += 1
    return v * np.nan if n[0] == 2 else -v
IF34(np.array([-1.0]), N).step(np.array([1.0]), 0.1)
sys.exit(0 if np.geterr() == before else 1)
""", "a trial that is not finite", "floating-point error handling of the whole process")
