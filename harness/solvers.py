"""Construction of the real solvers from specification data."""

import importlib

import numpy as np

from common import cx, fl, vec

MODULES = {"ETD4": "etd4", "ETD5": "etd5", "IF4": "if4", "ETD34": "etd34", "ETD35": "etd35", "IF34": "if34", "IF45DP": "if45dp"}
ADAPTIVE = {"ETD34", "ETD35", "IF34", "IF45DP"}
ETD = {"ETD4", "ETD5", "ETD34", "ETD35"}
DIAGONALIZABLE = {"ETD34", "ETD35", "IF34"}
FULL = {"ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34"}


def cls(name):
    return getattr(importlib.import_module("rkstiff." + MODULES[name]), name)


def solver_config(**kw):
    from rkstiff.solveras import SolverConfig

    return SolverConfig(**kw)


def etd_config(cutoff=0, npts=0, rad=0):
    from rkstiff.etd import ETDConfig

    kw = {}
    if cutoff:
        kw["modecutoff"] = cutoff
    if npts:
        kw["contour_points"] = npts
    if rad:
        kw["contour_radius"] = rad
    return ETDConfig(**kw)


class Poly:
    """N_i(u) = c_i + a_i u_{i+1} + b_i u_i u_{i+1} + d_i u_i^3, recording its calls."""

    def __init__(self, p, real=False):
        self.c, self.a, self.b, self.d = (vec(p[k], real) for k in "cabd")
        self.calls = []

    def __call__(self, u):
        self.calls.append(np.array(u, copy=True))
        v = np.roll(u, -1)
        return self.c + self.a * v + self.b * u * v + self.d * u**3

    def size(self, u):
        """magnitude scale of N near u"""
        m = max(1.0, float(np.max(np.abs(u))))
        return float(np.max(np.abs(self.c) + np.abs(self.a) * m + np.abs(self.b) * m * m + np.abs(self.d) * m**3))


def make(name, L, nl, config=None, etd=None, diagonalize=None, **kw):
    if name in ADAPTIVE and config is not None:
        kw["config"] = config
    if name in ETD and etd is not None:
        kw["etd_config"] = etd
    if diagonalize is not None:
        kw["diagonalize"] = diagonalize
    return cls(name)(lin_op=L, nl_func=nl, **kw)


def trial(name, s, u, h):
    """one raw trial step: (new state, error estimate or None)"""
    if name in ADAPTIVE:
        return s._update_stages(u, h)
    return s.step(u, h), None


HUGE = dict(epsilon=1e300)  # every finite step is accepted
