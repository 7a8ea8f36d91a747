B("time-digits", "C08", [(SA, "                self.t.append(self.__tc)\n", "                self.t.append(round(self.__tc, 12))\n")], ODE + """
s = IF34(np.array([-1e9]), lambda v: 0 * v)
s.evolve(np.array([1.0]), 0.0, 1e-11, 1e-12 / 3)
sys.exit(0 if all(a < b for a, b in zip(s.t, s.t[1:])) and s.t[-1] == 1e-11 else 1)
""", "an evolution over a very short interval", "recorded times are rounded to 12 decimals")
B("minh-first", "C06", [(SA, "            if h < self.config.minh:\n", "            if h < self.config.minh and numloops > 1:\n")], ODE + """
n = [0]
def N(v):
    n[0] += 1
    return 1e6 * v**3 if n[0] < 6 else 0 * v
s = IF34(np.array([-1.0]), N, config=SolverConfig(minh=0.9))
try: s.step(np.array([1.0]), 1.0)
except IF34.MinimumStepReached: sys.exit(0)
sys.exit(1)
""", "the first trial of a step is refused and leads below the minimum", "the minimum is not looked at after the first trial")
B("handler-level", "C17", [(LG, "        handler = logging.StreamHandler()\n", "        handler = logging.StreamHandler()\n        handler.setLevel(numeric_level)\n")], ODE + """
import io
logging.disable(logging.NOTSET)
err, sys.stderr = sys.stderr, io.StringIO()
IF34(np.array([-1.0]), lambda v: v)
s = IF34(np.array([-1.0]), lambda v: 0 * v, loglevel="INFO"); s.evolve(np.array([1.0]), 0.0, 1.0)
out, sys.stderr = sys.stderr.getvalue(), err
sys.exit(0 if "Evolution complete" in out else 1)
""", "a solver of the class with a higher level before", "messages are dropped by the handler's level")
B("burgers-inviscid", "C25", [(MO, "    lin_op = -mu * kx**2\n", "    lin_op = -(mu or 1e-3) * kx**2\n")], H + """
from rkstiff.models import burgers_ops
sys.exit(0 if not np.any(burgers_ops(np.arange(5.0), 0.0)[0]) else 1)
""", "mu = 0", "the inviscid equation is damped")
B("falsy-default", "C18", [(SA, "        self.adapt_cutoff = adapt_cutoff\n", "        self.adapt_cutoff = adapt_cutoff or 0.01\n")], ODE + """
sys.exit(0 if SolverConfig(adapt_cutoff=0.0).adapt_cutoff == 0 else 1)
""", "adapt_cutoff = 0", "the default is used instead")
B("tol-absolute", "C24", [(SA, "        tol = self.config.epsilon * np.linalg.norm(u[idx])\n", "        tol = self.config.epsilon * np.linalg.norm(u[idx]) + 1e-12\n")], ODE + """
s = IF34(np.array([0.0, 0.0]), lambda v: np.array([-v[1], v[0]]), config=SolverConfig(epsilon=1e-8))
u = s.evolve(np.array([1e-12, 0.0]), 0.0, 20.0, 5.0)
sys.exit(0 if np.max(np.abs(u * 1e12 - [np.cos(20.0), np.sin(20.0)])) < 1e-4 else 1)
""", "solutions of very small magnitude", "an absolute tolerance of 1e-12 is added")
B("u-readonly", "C16", [(SA, "        if store_data:\n            self.t.append(t0)\n            self.u.append(u)\n", "        if store_data:\n            self.t.append(t0)\n            self.u.append(u)\n            u.flags.writeable = False  # the record must not change\n")], ODE + """
u = np.array([1.0]); IF34(np.array([-1.0]), lambda v: 0 * v).evolve(u, 0.0, 1.0)
sys.exit(0 if u.flags.writeable else 1)
""", "an adaptive evolution that records", "the caller's initial state becomes read-only")
