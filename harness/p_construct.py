"""C19: construction of solvers."""

import logging

import numpy as np

from common import Suite, job, need
import solvers as S

NAMES = ["ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34", "IF45DP"]
CONDS = [30, 290, 310, 370, 500, 800, 1200, 1450, 1580, 1620, 1700, 2500, 99900, 297, 299, 301, 303]
LEVELNAMES = {30: "WARNING", 10: "debug", 20: "INFO", 40: "Error", 50: "CRITICAL", 25: 25}


def operator(c):
    n, m = c["n"], c["m"]
    i = 1j if c["cx"] else 0
    if c["shape"] == 0:
        return -np.arange(n) * (1 + i) - 0.5
    if c["shape"] == 1:
        k = CONDS[c["cond"]]
        d = np.linspace(1.0, 0.5, n)
        if k == 99900:
            d[0] = 0.0
        elif c["cond"]:
            d[-1] = 10.0 ** (-k / 100)       # of a diagonal operator the condition number is exact
        a = np.diag(d).astype(complex if c["cx"] else float)
        if n > 1 and not c["cond"] and not c["turns"]:
            a[0, 1] = 0.25
        cx = c["cx"]
        if cx and c["phase"]:
            a = a @ np.diag([(1, 1j, -1, -1j)[k] for k in c["phase"]])
        for q, v in enumerate(c["turns"]):
            v = np.array(v, dtype=complex if cx else float)
            if cx:
                v = v + 1j * np.roll(v, 1)
            if np.any(v):
                Q = np.eye(n) - 2 * np.outer(v, v.conj()) / np.vdot(v, v).real
                a = a @ Q if q % 2 else Q @ a
        return -a * (1 + i)
    if c["shape"] == 2:
        return np.ones((n, m)) * (1 + i)
    if c["shape"] == 3:
        return np.ones((n, n, n)) * (1 + i)
    return np.array(-1.0)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, r):
        self.got.append(r)


def replay_construct(ctx, tr):
    from rkstiff.util.solver_type import SolverType

    for st in tr:
        c, o = st["c"], st["o"]
        name = NAMES[c["cls"]]
        adaptive, etd, diag = name in S.ADAPTIVE, name in S.ETD, name in S.DIAGONALIZABLE
        L = operator(c)
        nl = lambda u: 0.1 * u
        config = S.solver_config(epsilon=3e-3) if c["config"] else None
        ecfg = S.etd_config(cutoff=0.07) if c["etd"] else None
        level = LEVELNAMES[o["level"]] if c["level"] else None
        args = [("lin_op", L), ("nl_func", nl)]
        opt = [("config", config)] * adaptive + [("etd_config", ecfg)] * etd + [("diagonalize", c["diagonalize"])] * diag + [("loglevel", level or "WARNING")]
        if c["call"] == 0:
            a, k = [], dict(args + [x for x in opt if x[0] == "diagonalize" and c["diagonalize"] or x[0] in ("config", "etd_config") and x[1] is not None or x[0] == "loglevel" and level])
        elif c["call"] == 1:
            a, k = [v for _, v in args + opt], {}
        else:
            a, k = [L, nl], {}
        log = logging.getLogger("rkstiff." + name)
        cap = Capture()
        log.addHandler(cap)
        s = e = None
        try:
            s = S.cls(name)(*a, **k)
        except Exception as x:
            e = x
        finally:
            log.removeHandler(cap)
        info = dict(cls=name, lin_op=L, diagonalize=c["diagonalize"], call=("keywords", "positional", "plain")[c["call"]], options={x: repr(v) for x, v in opt})
        ctx.case("accept" if o["ok"] else "refuse", repr(c), True)
        if not o["ok"]:
            need(isinstance(e, ValueError), f"an unsuitable linear operator is not refused with ValueError ({e!r})", **info)
            continue
        need(e is None, f"a valid construction fails: {type(e).__name__}: {e}", **info)
        want = SolverType.ADAPTIVE_STEP if o["adaptive"] else SolverType.CONSTANT_STEP
        need(s.solver_type is want and SolverType.from_solver(s) is want and want is (SolverType.AS if o["adaptive"] else SolverType.CS),
             f"solver_type is {s.solver_type}, from_solver says {SolverType.from_solver(s)}", **info)
        need(str(s.solver_type) == ("Adaptive Step" if o["adaptive"] else "Constant Step"), f"solver type prints as {s.solver_type}", **info)
        need(s.t == [] and s.u == [], "a new solver already has records", **info)
        need(s.lin_op is L or np.array_equal(s.lin_op, L), "lin_op is not the operator given", **info)
        need(s.logger.name == "rkstiff." + name and s.logger.level == o["level"], f"log level {s.logger.level} of {s.logger.name}, expected {o['level']}", **info)
        n_warn = sum(r.levelno >= logging.WARNING for r in cap.got)
        if o["level"] <= 30:
            need((n_warn > 0) == (o["warns"] > 0), f"{n_warn} warnings on construction, expected {o['warns']}", got=[r.getMessage() for r in cap.got], **info)
        if adaptive:
            need(s.config.epsilon == (3e-3 if o["eps"] else 1e-4), f"tolerance {s.config.epsilon}", **info)
        if etd:
            need(s.etd_config.modecutoff == (0.07 if o["cutoff"] else 0.01), f"modecutoff {s.etd_config.modecutoff}", **info)
        # it works, on vectors of the operator's size
        u = np.linspace(0.5, 1.0, c["n"])
        r = s.step(u, 2.0**-10)
        r = r[0] if adaptive else r
        need(isinstance(r, np.ndarray) and r.shape == u.shape and np.all(np.isfinite(r)) and np.max(np.abs(r - u)) < 0.1, "a step of the new solver does not work", result=r, **info)
        ctx.sample({**info, "type": str(s.solver_type)})
    for x in (object(), 3, None):
        try:
            SolverType.from_solver(x)
        except TypeError:
            pass
        else:
            need(False, f"from_solver accepts {x!r}")


PROPERTIES = {"C19": dict(
    suites=lambda ctx: [Suite("construct", [job("construct.qnt", "construct", 60, traces=200 if ctx.thorough else 30, seed=ctx.seed * 32452843 + r, invariant="safe")
                                            for r in range(16 if ctx.thorough else 8)], replay_construct)],
    level="model_checking",
    rule="a case is one construction (class, operator shape and condition, options, calling convention); distinct by these")}
