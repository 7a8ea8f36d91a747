"""C10-C12, C14-C16: histories of operations on live solvers against canonical (fresh-solver) evaluations."""

import logging
import os
import random
import sys
import warnings

import numpy as np

from common import Mismatch, Pristine, Suite, job, tlc
from p_chain import chain
from p_step import laid_out
import solvers as S

NAMES = ["ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34", "IF45DP"]
U = 1 << 40
ETD = [{}, dict(cutoff=0.05, npts=48, rad=2.0), dict(cutoff=0.2, npts=32, rad=1.5), dict(cutoff=0.01, npts=32, rad=4.0)]
LEVELS = ["DEBUG", "INFO", "warning", 40, "CRITICAL", 10]


class Boom(Exception):
    pass


class Bang(BaseException):
    pass


def planned(i):
    """what N raises"""
    from rkstiff.solveras import BaseSolverAS

    kinds = [Boom, Bang, FloatingPointError, ValueError, ZeroDivisionError, np.linalg.LinAlgError, KeyboardInterrupt, RuntimeError, OverflowError, MemoryError,
             TypeError, AssertionError, IndexError, AttributeError, NotImplementedError, OSError, KeyError, TimeoutError, SystemExit, BaseSolverAS.MinimumStepReached,
             BaseSolverAS.MaxLoopsExceeded, StopIteration, ArithmeticError, RuntimeWarning, EOFError, RecursionError, GeneratorExit, BufferError, UserWarning,
             LookupError, ImportError, BaseSolverAS.SolverError, StopAsyncIteration]
    return kinds[i % len(kinds)]("planned")


def problem(cls, rep, prob, ts=0):
    """(L, N data, initial vectors) of a numbered problem that runs 2^ts times as fast"""
    L, data, inits = base_problem(cls, rep, prob)
    if ts:
        L = L * 2**ts if L.dtype.kind == "i" and 0 < ts < 40 else L * 2.0**ts
    return L, data, inits


def base_problem(cls, rep, prob):
    if prob >= 10:                       # many copies of a problem side by side
        L, data, inits = base_problem(cls, rep, prob - 10)
        k = 20 if rep else 80
        return np.kron(np.eye(k), L) if rep else np.tile(L, k), {key: np.tile(v, k) for key, v in data.items()}, [np.tile(v, k) for v in inits]
    if prob == 6:
        # 1/4 of the first eigenvalue lies on the default contour
        e = (1.0 * np.exp(2j * np.pi * np.arange(0.5, 32) / 32))[12] * 4
        L = np.array([[e, 1.0], [0.0, -1.0]])
        data = dict(c=np.array([0.3, -0.2]), a=np.array([0.1, 0.2]), b=np.array([0.3, 0.1]), d=np.array([-0.2, 0.1]))
        return L, data, [np.array([0.5, -0.3]), np.array([1.0, 0.5]), np.zeros(2), np.array([0.01, 0.02])]
    rng = np.random.RandomState(100 * prob + 7 * (rep > 0) + 1)
    n = 2 + prob % 3 if rep else 1 + prob % 4
    # L, N and the initial data are real or complex independently of each other
    real, realL, realU = prob % 2 == 0, prob in (0, 2, 5), prob in (0, 3, 4)
    draw = lambda r, *s: rng.uniform(-1, 1, s) + (0 if r else 1j * rng.uniform(-1, 1, s))
    z = lambda *s: draw(real, *s)
    zL = lambda *s: draw(realL, *s)
    zU = lambda *s: draw(realU, *s)
    if rep:
        L = zL(n, n) * 1.2 - 0.5 * np.diag(np.arange(1, n + 1))
        if prob == 5:                    # far outside the small modes, but stable
            L = 8 * L - 12 * np.eye(n)
        if prob == 1:
            L = L.copy(order="F")
    else:
        L = 2 * zL(n) - 1
        if prob in (1, 2):               # a stiff mode, decaying or oscillating
            L = L - (150.0 if prob == 2 else 30.0 - 300j) * (np.arange(n) == n - 1)
        if prob == 4:
            L = np.round(L.real).astype(int)
    if prob == 3:                        # negligible, subnormal and vanishing entries are left alone, too
        if rep:
            L[0, 1:] *= 1e-13
            L[n - 1, 0] = 5e-324
        else:
            L[:3] = L[0] * 1e-10, 0.0, 1e-300j
    data = dict(c=z(n), a=z(n), b=0.5 * z(n), d=0.25 * z(n))
    inits = [0.8 * zU(n) + 0.1, zU(n), np.zeros(n, dtype=float if realU else complex), 0.01 * zU(n)]
    return L, data, inits


class NL:
    """N with evaluation counting, planned failures and planned NaNs"""

    def __init__(self, d, nk=0, ts=0, copy=False):
        self.d, self.n, self.fault, self.boom, self.poison, self.start = d, 0, 0, None, 0, None
        self.huge = 0
        self.nk, self.f, self.copy = nk, 2.0**ts, copy
        self.const = d["c"] * self.f
        self.const0 = self.const.copy()

    def arm(self, start=None, fault=0, poison=0, boom=None, huge=0):
        self.n, self.start, self.fault, self.poison, self.boom = 0, None if start is None else np.array(start, copy=True), fault, poison, boom
        self.huge = huge

    def __call__(self, u):
        self.n += 1
        if self.fault and self.n == self.fault:
            raise self.boom
        if self.huge and self.n == self.huge:
            return np.full_like(u, 1e200)
        # the first evaluation of a trial that is not at the starting state
        if self.poison and np.all(np.isfinite(u)) and not (self.start is not None and np.array_equal(u, self.start)):
            self.poison -= 1
            return np.full_like(u, np.nan)
        d = self.d
        if self.nk in (1, 3) and not np.all(np.isfinite(u)):
            return np.full_like(u, np.nan)
        if self.nk == 1:
            return self.const.copy() if self.copy else self.const
        if self.nk == 2:
            return u.copy() if self.copy else u
        if self.nk == 3:
            return np.zeros_like(u)
        v = np.roll(u, -1)
        return (d["c"] + d["a"] * v + d["b"] * u * v + d["d"] * u**3) * self.f


def canonical_step(cls, rep, prob, etd, nk, ts, u, h):
    L, data, _ = problem(cls, rep, prob, ts)
    s = S.make(NAMES[cls], L, NL(data, nk, ts, copy=True), S.solver_config(epsilon=1e100), S.etd_config(**ETD[etd]) if etd else None, **({"diagonalize": True} if rep == 2 else {}))
    bad = np.full_like(np.asarray(u) * 1.0, np.nan)
    if not np.all(np.isfinite(u)):
        return bad
    try:
        r = s.step(u, h)
    except Exception:
        return bad
    if NAMES[cls] in S.ADAPTIVE:
        return r[0] if r[1] == h else bad
    return r


class Canon:
    memo = {}

    @classmethod
    def value(cls, x, v):
        path = tuple(v["path"])
        head = (x["cls"], x["rep"], x["prob"], x["etd"], x["nk"], x["ts"], v["init"])
        k = len(path)
        while k and head + (path[:k],) not in cls.memo:
            k -= 1
        if not k and head + ((),) not in cls.memo:
            cls.memo[head + ((),)] = problem(x["cls"], x["rep"], x["prob"])[2][v["init"]]
        for m in range(k, len(path)):
            cls.memo[head + (path[: m + 1],)] = Pristine.call(canonical_step, *head[:6], cls.memo[head + (path[:m],)], path[m] / U * 2.0 ** -x["ts"])
        return cls.memo[head + (path,)]


class Live:
    """a live solver and what is known about it"""

    def __init__(self, x, lcache):
        self.x = x
        key = (x["rep"], x["prob"], x["ts"])
        if key not in lcache:
            L = problem(x["cls"], x["rep"], x["prob"], x["ts"])[0]
            lcache[key] = (L, L.copy())
        self.L, self.Lcopy = lcache[key]
        _, data, self.inits = problem(x["cls"], x["rep"], x["prob"])
        self.nl = NL(data, x["nk"], x["ts"])
        name = NAMES[x["cls"]]
        self.adaptive = name in S.ADAPTIVE
        kw = {"diagonalize": True} if x["rep"] == 2 else {}
        self.s = S.make(name, self.L, self.nl, None, S.etd_config(**ETD[x["etd"]]) if x["etd"] else None, **kw)
        self.cfg = None
        if self.adaptive:
            self.cfg0 = {k: getattr(self.s.config, k) for k in ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")}
            self.s.config.epsilon = 1e100
            self.cfg = dict(self.cfg0, epsilon=1e100)
            if x["ts"]:
                self.cfg["minh"] = self.s.config.minh = 1e-16 * 2.0 ** -x["ts"]
        self.etd = {k: getattr(self.s.etd_config, k) for k in ("modecutoff", "contour_points", "contour_radius")} if name in S.ETD else None
        self.u = self.inits[x["v"]["init"]].copy()
        self.name = f"{name}[{('vector', 'matrix', 'diagonalized')[x['rep']]}, problem {x['prob']}, etd {x['etd']}, N {x['nk']}, speed 2^{x['ts']}]"


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-10 * (1 + np.abs(b))))


class Wild(Exception):
    """the behaviour leaves the range in which values can be compared"""


class Deviation(Exception):
    def __init__(self, aspects, msg, step, inst, info):
        super().__init__(msg)
        self.aspects, self.msg, self.step, self.inst, self.info = aspects, msg, step, inst, info


def surroundings():
    """process-wide settings that are none of a solver's business"""
    rs = np.random.get_state()
    return dict(floating_point_errors=np.geterr(), random_numbers=(rs[1].tobytes(), rs[2:]), printing=str(np.get_printoptions()), warnings=list(warnings.filters),
                root_logger=(logging.root.level, list(logging.root.handlers), logging.root.manager.disable), recursion=sys.getrecursionlimit(),
                directory=os.getcwd(), environment=dict(os.environ), random_module=random.getstate())


def run(tr, only=None, ctx=None):
    """Perform a behaviour's operations on real solvers.  only: restrict to one solver's operations."""
    with np.errstate(divide="warn", over="warn", under="ignore", invalid="warn"):      # numpy's own defaults (the warnings themselves are filtered)
        return run_inside(tr, only, ctx)


def run_inside(tr, only, ctx):
    world = surroundings()
    lcache = {}
    live = [Live(x, lcache) for x in tr[0]["insts"]] if only is None else [None, None]
    kept = []           # (object, copy, what): must never change again
    t_lists = []

    for j, st in enumerate(tr):
        op, i = st["op"], st["op"]["i"]
        name = op["name"]
        if only is not None:
            if j == only[1]:
                live[only[0]] = Live(st["insts"][only[0]], lcache)
                continue
            if j < only[1] or i != only[0] or name == "init":
                continue
        x = st["insts"][i]
        before = tr[j - 1]["insts"][i] if j else x
        lv = live[i]
        W = U * 2.0 ** x["ts"]      # the unit of time
        info = dict(solver=lv.name if lv else "", op={k: v for k, v in op.items() if k != "rec"}, at=j)

        def need(aspects, cond, msg, **more):
            if not cond:
                raise Deviation(aspects, (lv.name if lv else "") + ": " + msg, j, i, {**info, **more})

        def case(kind, *key):
            if ctx is not None:
                ctx.case(kind, (x["cls"], x["rep"], x["prob"], x["etd"], repr(before["v"])) + key, True)

        value = "C14" if before["loose"] else "C12"
        if name in ("step", "evolve", "evolvefault"):
            for v in [x["v"]] + [e["v"] for e in op["rec"]]:
                w = Canon.value(x, v)
                if not np.all(np.isfinite(w)) or np.max(np.abs(w)) > 1e6:
                    raise Wild
        count_ok = lambda: op["hi"] < 0 or op["lo"] <= lv.nl.n <= op["hi"]
        if name == "new":
            live[i] = lv = Live(x, lcache)
            if lv.adaptive:
                need("C16", lv.cfg0 == dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16),
                     "a new solver does not start from the documented default configuration", config=lv.cfg0)
            if lv.etd:
                e = ETD[x["etd"]]
                need("C16", lv.etd == dict(modecutoff=e.get("cutoff", 0.01), contour_points=e.get("npts", 32), contour_radius=e.get("rad", 1.0)),
                     "a new solver does not start from the given or default ETD configuration", config=lv.etd)
            case("new")
        elif name == "restart":
            lv.s.reset()
            need("C10", lv.s.t == [] and lv.s.u == [], "reset keeps recorded data")
            lv.u = lv.inits[x["v"]["init"]].copy()
        elif name == "reset":
            lv.s.reset()
            need("C10", lv.s.t == [] and lv.s.u == [], "reset keeps recorded data")
        elif name == "tweak":
            lv.cfg["incr_f"] = 1.25 if x["grow"] else 8.0
            lv.s.config.incr_f = lv.cfg["incr_f"]
            lv.cfg["decr_f"] = 0.05 if x["low"] else 0.85
            lv.s.config.decr_f = lv.cfg["decr_f"]
        elif name == "radius":
            lv.s.etd_config.contour_radius = lv.etd["contour_radius"] = ETD[x["etd"]]["rad"]
        elif name == "clash":
            arg = lv.u.copy()
            lv.nl.arm(start=arg)
            try:
                lv.s.step(arg, op["h"] / W)
            except Exception:
                case("clash")
            else:
                raise Wild      # rounding keeps the contour off the spectrum
        elif name == "overflow":
            h = op["h"] / W
            arg = lv.u.copy()
            z = h * (lv.L if lv.L.ndim == 1 else np.linalg.eigvals(lv.L))
            lv.nl.arm(start=arg)
            with np.errstate(over="raise", under="raise", invalid="raise"):
                try:
                    np.exp(z)
                except FloatingPointError:
                    for _ in range(2):
                        try:
                            lv.s.step(arg, h)
                        except FloatingPointError:
                            continue
                        except Exception as e:
                            need("C14", False, f"a failure to compute the coefficients ends with {e!r}")
                        need("C14", False, f"coefficients for size {h} cannot be computed, yet the step is made")
                    case("overflow")
        elif name == "refuse":
            arg = lv.u.copy()
            lv.nl.arm(start=arg)
            try:
                if lv.adaptive:
                    lv.s.step(arg, -op["h"] / W)
                else:
                    lv.s.evolve(arg, op["t0"] / W, op["tf"] / W, op["h"] / W)
            except Exception:
                case("refuse")
            else:
                raise Wild          # whether it is refused is decided elsewhere
            need("C14", lv.nl.n == 0, "an operation that is refused evaluates the nonlinear function")
            need("C16", np.array_equal(arg, lv.u) and arg.flags.writeable, "a refused operation modified its argument")
        elif name == "huge":
            arg = lv.u.copy()
            lv.nl.arm(start=arg, huge=op["k"])
            with np.errstate(over="raise", invalid="raise"):
                try:
                    lv.s.step(arg, op["h"] / W)
                except FloatingPointError:
                    case("huge", op["h"], op["k"])
                except Exception as e:
                    need("C14", False, f"an overflow in a step ends with {e!r}")
                else:
                    raise Wild
        elif name == "loglevel":
            lv.s.set_loglevel(LEVELS[op["k"]])
        elif name in ("step", "fault", "giveup"):
            h = op["h"] / W
            arg = lv.u if j % 2 else laid_out(lv.u.copy(), (j // 2) % 5)
            argc, free = arg.copy(), arg.flags.writeable
            boom = None
            if name == "fault":
                boom = planned(op["k"] + j)
            lv.nl.arm(start=arg, fault=op["k"] if name == "fault" else 0, poison=10**9 if name == "giveup" else op["r"], boom=boom)
            rec = (list(lv.s.t), list(lv.s.u))
            exc = ret = None
            try:
                ret = lv.s.step(arg, h)
            except BaseException as e:
                if not isinstance(e, Exception) and e is not boom:
                    raise
                exc = e
            n = lv.nl.n
            need("C16", np.array_equal(arg, argc) and arg.flags.writeable == free, "step modified its argument")
            need("C10", lv.s.t == rec[0] and len(lv.s.u) == len(rec[1]) and all(a is b for a, b in zip(lv.s.u, rec[1])), "step changed recorded data")
            if name == "fault":
                need("C14", exc is boom, f"an exception raised by nl_func does not reach the caller (got {exc!r}, result {ret!r})")
                case("fault", op["h"], op["k"], op["r"])
            elif name == "giveup":
                if ret is not None and ret[1] * W < 1e-12 * U and np.all(np.abs(ret[0] - argc) <= 1e-14 * np.abs(argc)):
                    raise Wild          # the stages coincide with the starting state, where N is finite
                need("C14", type(exc).__name__ in ("MinimumStepReached", "MaxLoopsExceeded"), f"a step that can never be accepted ends with {exc!r}, result {ret!r}")
                case("giveup", op["h"])
            else:
                need(value, exc is None, f"step failed: {type(exc).__name__}: {exc}")
                used, sug = op["used"] / W, op["sug"] / W
                if lv.adaptive:
                    need(value, isinstance(ret, tuple) and len(ret) == 3, "step does not return three values")
                    got = ret[0]
                    need(value, ret[1] == used, f"step of size {h} with {op['r']} unacceptable trials used {ret[1]}, expected {used}")
                    need(value, ret[2] == sug, f"step suggests {ret[2]}, expected {sug}")
                else:
                    got = ret
                want = Canon.value(x, x["v"])
                need(value, near(got, want), "a step after this history differs from the same step by a new solver" if value == "C12"
                     else "a step after a failed operation differs from the same step by a new solver", got=got, want=want, path=x["v"]["path"])
                case("step" if value == "C12" else "step-after-failure", op["h"], op["r"], j)
                need("C15", count_ok(), f"{n} evaluations of the nonlinear function, expected {op['lo']}" + (f" to {op['hi']}" if op["hi"] != op["lo"] else ""), cold=before["cold"], accepted=before["acc"])
                kept.append((got, got.copy(), f"array returned by step {j}"))
                lv.u = got
        elif name in ("evolve", "evolvefault"):
            t0, tf, h = op["t0"] / W, op["tf"] / W, op["h"] / W
            arg = laid_out(lv.inits[x["v"]["init"]].copy(), j % 5)
            argc, free = arg.copy(), arg.flags.writeable
            boom = planned(op["k"] + j) if name == "evolvefault" else None
            old = (lv.s.t, lv.s.u, list(lv.s.t), list(lv.s.u))
            plan = op["plan"] if lv.adaptive else []
            # rejections are planned per step: step m starts at the value after m accepted steps
            lv.nl.arm(start=arg, fault=op["k"] if name == "evolvefault" else 0, boom=boom)
            orig_step = None
            if any(plan):
                orig_step = lv.s.step
                seq = list(plan)

                calls = []

                def stepped(u, hh, _o=orig_step, _q=seq, _nl=lv.nl):
                    calls.append(hh)
                    _nl.start = np.array(u, copy=True)
                    _nl.poison = _q.pop(0) if _q else 0
                    return _o(u, hh)

                lv.s.step = stepped
            kw = {} if op["store"] and op["freq"] == 1 and j % 2 else dict(store_data=op["store"], store_freq=op["freq"])
            exc = ret = None
            try:
                ret = lv.s.evolve(arg, t0, tf, h, **kw)
            except BaseException as e:
                if not isinstance(e, Exception) and e is not boom:
                    raise
                exc = e
            finally:
                if orig_step is not None:
                    del lv.s.step
                    if not calls and lv.nl.n > 0:
                        raise Wild          # evolve does not go through step: the rejections could not be planned
            need("C16", np.array_equal(arg, argc) and arg.flags.writeable == free, "evolve modified its argument")
            need("C10", old[0] == old[2] and len(old[1]) == len(old[3]) and all(a is b for a, b in zip(old[1], old[3])), "evolve changed data recorded by an earlier evolution")
            exp = op["rec"]
            if name == "evolvefault":
                need("C14", exc is boom, f"an exception raised by nl_func during evolve does not reach the caller (got {exc!r})")
                need("C14", len(lv.s.t) == len(lv.s.u) and len(lv.s.t) <= len(exp) and (not exp or len(lv.s.t) >= 1), "recorded data after a failed evolution is not a beginning of the evolution",
                     t=lv.s.t)
                exp = exp[: len(lv.s.t)]
                rec_aspect = "C14"
            else:
                need("C11", exc is None, f"evolve failed: {type(exc).__name__}: {exc}")
                want = Canon.value(x, x["v"])
                need("C11", near(ret, want), "evolve ends in a state other than that of the corresponding steps", got=ret, want=want, sizes=[p / W for p in x["v"]["path"]])
                case("evolve", op["h"], op["t0"], op["tf"], tuple(plan))
                need("C15", count_ok(), f"{lv.nl.n} evaluations of the nonlinear function in evolve, expected {op['lo']}")
                need("C10 C11", len(lv.s.t) == len(lv.s.u) == len(exp), f"evolve recorded {len(lv.s.t)} times and {len(lv.s.u)} states, expected {len(exp)}", t=lv.s.t, expected=[e["t"] / W for e in exp])
                lv.u = ret
                kept.append((ret, ret.copy(), f"array returned by evolve {j}"))
                rec_aspect = "C10 C11"
            for m, e in enumerate(exp):
                need(rec_aspect, abs(lv.s.t[m] - e["t"] / W) * W < 1e-12 * U, f"recorded time {m} is {lv.s.t[m]}, expected {e['t'] / W}")
                need(rec_aspect, near(lv.s.u[m], Canon.value(x, e["v"])), f"recorded state {m} is not the state at time {lv.s.t[m]}", got=lv.s.u[m], want=Canon.value(x, e["v"]))
                kept.append((lv.s.u[m], np.array(lv.s.u[m], copy=True), f"state {m} recorded by evolve {j}"))
            t_lists.append((lv.s.t, list(lv.s.t), lv.s.u, list(lv.s.u), j))
            case("recorded", len(exp), op["freq"], name)
        # nothing outside has changed
        now = surroundings()
        for key in world:
            need("C16", now[key] == world[key], f"{key.replace('_', ' ')}: a setting of the whole process was changed")
        for a, c, what in kept[-60:]:
            need("C10", np.array_equal(a, c, equal_nan=True), f"{what} was changed by a later operation")
        for a, c, b, d, jj in t_lists[-6:]:
            need("C10", a == c and len(b) == len(d) and all(p is q for p, q in zip(b, d)), f"the record of evolve {jj} was changed by a later operation")
        for y in live:
            if y is None:
                continue
            need("C16", np.array_equal(y.L, y.Lcopy) and y.L.flags.writeable, "the linear operator was modified")
            need("C16", np.array_equal(y.nl.const, y.nl.const0) and y.nl.const.flags.writeable, "an array belonging to the nonlinear function was modified")
            if y.cfg:
                got = {k: getattr(y.s.config, k) for k in y.cfg}
                need("C16", got == y.cfg, f"the configuration of {y.name} changed", got=got, want=y.cfg)
            if y.etd:
                got = {k: getattr(y.s.etd_config, k) for k in y.etd}
                need("C16", got == y.etd, f"the ETD configuration of {y.name} changed", got=got, want=y.etd)
        if name != "init":
            case("isolation:" + name, j)


def run_alone(tr, i, start):
    """the operations of one solver only, in a process of their own; does the deviation persist?"""
    try:
        run(tr, only=(i, start))
    except Deviation as d:
        return d.step
    except Wild:
        pass
    return None


def replay_hist(ctx, tr):
    try:
        run(tr, ctx=ctx)
    except Wild:
        ctx.extra["out_of_range_histories"] = ctx.extra.get("out_of_range_histories", 0) + 1
    except Deviation as d:
        aspects = d.aspects
        if aspects != "C16":
            starts = [j for j in range(d.step + 1) if tr[j]["op"]["name"] == "init" or (tr[j]["op"]["name"] == "new" and tr[j]["op"]["i"] == d.inst)]
            if Pristine.call(run_alone, tr[: d.step + 1], d.inst, starts[-1]) is None:
                aspects, d.msg = "C16", d.msg + " - but only when other solvers are used as well"
        if ctx.prop in aspects.split():
            raise Mismatch(d.msg, **d.info)
        ctx.extra["left_to_other_properties"] = ctx.extra.get("left_to_other_properties", 0) + 1
    ctx.sample([{k: v for k, v in st["op"].items() if k not in ("rec", "plan")} for st in tr[:6]])


def hist_suites(ctx):
    n = 300 if ctx.thorough else 40
    return [Suite("hist", [job("hist.qnt", "hist", 70, traces=n, seed=ctx.seed * 49979687 + 11 * r, invariant="safe") for r in range(24 if ctx.thorough else 8)], replay_hist)]


RULE = "a case is one operation (step, failed step, evolution, recording, construction) in a generated history of two live solvers; distinct by solver, value and operation"


def tlc_cache(ctx):
    """The design of the two caches (coefficients, last stage), with failures at every point: all reachable states."""
    tlc(ctx, "cache.qnt", "cache", "TRUE")


PROPERTIES = {p: dict(suites=hist_suites, level="model_checking", rule=RULE) for p in ("C10", "C11", "C12", "C14", "C15", "C16")}
for p in ("C11", "C12"):                 # and the sizes a long-lived solver takes of its own accord
    PROPERTIES[p]["suites"] = lambda ctx: hist_suites(ctx) + [chain(ctx, 1)]
for p in ("C12", "C14", "C15"):
    PROPERTIES[p]["extra"] = tlc_cache

