"""C20, C21, C22, C25: grids, derivatives and models in use together (spec/bench.qnt).

Every operation of a behaviour is carried out; a mismatch counts for the property its operation belongs to.  Data are passed in
buffers that are refilled from call to call, arrays handed out earlier are watched, and some are overwritten by their owner."""

import gc

import numpy as np

from common import Mismatch, Suite, fl, job, need, vec
from p_cheb import grid_slack, table
from p_spectral import floats

OWNER = {"C20": {"grid1", "grid2"}, "C21": {"derivative1", "derivative2"}, "C22": {"grid3", "derivative3"},
         "C25": {"model1", "model2", "model3", "apply1", "apply2", "apply3", "soliton"}}


class Bench:
    def __init__(self):
        self.slots = [None] * 3        # dict(x, k or d, slack, fresh contents as the specification has them)
        self.models = [None] * 3       # (L, N, keep)
        self.held = []                 # (what, array, copy)
        self.buf = {}

    def buffer(self, role, v):
        b = self.buf.setdefault((role, v.shape, v.dtype.str), np.empty_like(v))
        b[:] = v
        return b


def contents(o):
    return floats(o["x"]), table(o["d"]) if o["kind"] == 3 else floats(o["k"])


def agree(w, got, o, what, **info):
    """the arrays of a slot against the specification's contents"""
    x, k = contents(o)
    slack = grid_slack(fl(o["a"]), fl(o["b"]))
    n = o["n"]
    need(got[0].shape == x.shape and got[1].shape == k.shape, f"{what} has shapes {got[0].shape}, {got[1].shape}", **info)
    size = max(abs(fl(o["a"])), abs(fl(o["b"])), np.max(np.abs(x))) + 40
    need(np.max(np.abs(got[0] - x)) <= 4e-15 * size, f"the points of {what} are wrong", got=got[0], want=x, **info)
    if o["kind"] == 3:
        big = 4e-15 * n * n * slack * (np.abs(k) + np.diag(np.sum(np.abs(k), axis=1)) + o["_dmax"] * np.eye(len(k)))
    else:
        big = 4e-15 * slack * np.abs(k)
    need(np.all(np.abs(got[1] - k) <= big), f"the {'matrix' if o['kind'] == 3 else 'wavenumbers'} of {what} are wrong", got=got[1], want=k, **info)


def perform(ctx, b, i, st, mine):
    """carry out one operation; raises Mismatch"""
    from rkstiff import derivatives, grids, models

    op, w = st["op"], st["w"]
    name = op["name"]
    s = op["slot"]
    kind = op["kind"]
    info = dict(at=i, op=name, slot=s)
    if name == "grid":
        a, e, n = fl(op["a"]), fl(op["b"]), op["n"]
        f = {1: grids.construct_x_kx_rfft, 2: grids.construct_x_kx_fft, 3: grids.construct_x_dx_cheb}[kind]
        b.slots[s] = None
        got = f(n, a, e)
        b.slots[s] = dict(arr=got, dmax=np.max(np.abs(got[1])))
        o = dict(w["slots"][s], _dmax=b.slots[s]["dmax"])
        info.update(function=f.__name__, n=n, a=a, b=e)
        if mine:
            ctx.case(name, (kind, n, a, e, i))
        agree(b, got, o, "a new grid", **info)
        for j, other in enumerate(b.slots):
            if other is not None and j != s:
                need(not any(np.may_share_memory(p, q) for p in got for q in other["arr"]), "a new grid shares memory with another", **info)
        if kind == 3:
            y = grids.construct_x_cheb(n, a, e)
            need(np.array_equal(y, got[0]), "construct_x_cheb and construct_x_dx_cheb give different points", got=y, **info)
            y[:] = np.nan
    elif name == "edit":
        x, k = b.slots[s]["arr"]
        e, j, c = kind, op["j"], fl(op["c"])
        if e == 0:
            k *= c
            b.slots[s]["dmax"] *= abs(c)
        elif e == 1:
            k[(slice(j, j + 1) if k.ndim == 2 else slice(j, None))] = 0
        elif e == 2:
            k[(slice(None), j) if k.ndim == 2 else j] = 0
        else:
            x += c
    elif name == "derivative":
        x, k = b.slots[s]["arr"]
        o = w["slots"][s]
        p = op["p"]
        f = {1: derivatives.dx_rfft, 2: derivatives.dx_fft, 3: derivatives.dx_cheb}[kind]
        u, want = vec(op["u"]), vec(op["want"])
        if kind != 2:
            u, want = u.real.copy(), want.real.copy()
        u = b.buffer("u", u)
        keep = u.copy(), k.copy()
        info.update(function=f.__name__, n=op["n"], order=p, u=u, k=k)
        if mine:
            ctx.case(name, (kind, p, keep[0].tobytes(), keep[1].tobytes(), i))
        got = f(k, u, p)
        n = op["n"]
        slack = grid_slack(fl(o["a"]), fl(o["b"]))
        tol = 4e-15 * (p + 3) * n * n * slack * fl(op["scale"]) * max(np.max(np.abs(u)), 1e-3)
        if kind == 3:
            tol = 4e-15 * (p + 1) * n * n * slack * max(fl(op["scale"]), n * b.slots[s]["dmax"] ** p) * max(np.max(np.abs(u)), 1e-3) + 1e-300
        need(got.shape == u.shape and np.iscomplexobj(got) == np.iscomplexobj(want), f"result of shape {got.shape}, type {got.dtype}", **info)
        need(np.max(np.abs(got - want)) <= tol, f"the derivative of order {p} is off by {np.max(np.abs(got - want))} (rounding allows {tol})", got=got, want=want, **info)
        need(np.array_equal(keep[0], u) and np.array_equal(keep[1], k), "the arguments were modified", **info)
        need(not np.may_share_memory(got, u) and not np.may_share_memory(got, k), "the result shares memory with an argument", **info)
        b.held.append((f"{f.__name__} result", got, got.copy()))
    elif name == "model":
        src = b.slots[op["j"]]["arr"]
        par = fl(op["par"])
        b.models[s] = None
        args = {1: (src[1].copy(),), 2: (src[1].copy(), par), 3: (src[0].copy(), src[1].copy(), par)}[kind]
        f = {1: models.kdv_ops, 2: models.burgers_ops, 3: models.allen_cahn_ops}[kind]
        info.update(function=f.__name__, args=args)
        if mine:
            ctx.case(name, (kind, i, repr(args)))
        keep = [np.copy(v) for v in args]
        L, N = f(*args)
        need(all(np.array_equal(p, q) for p, q in zip(keep, args)), "the arguments were modified", **info)
        need(not any(isinstance(v, np.ndarray) and np.may_share_memory(L, v) for v in args), "the linear operator shares memory with an argument", **info)
        need(all(m is None or not np.may_share_memory(L, m["L"]) for m in b.models), "the linear operator shares memory with another model's", **info)
        b.models[s] = dict(L=L, N=N, args=args, keep=keep, x=src[0].copy(), slack=b.slots[op["j"]]["slack"], dmax=b.slots[op["j"]]["dmax"])
        if kind < 3:
            want = vec(op["want"])
            need(L.shape == want.shape and np.all(np.abs(L - want) <= 4e-14 * b.models[s]["slack"] * np.abs(want)), "the linear operator is wrong", got=L, want=want, **info)
    elif name == "apply":
        m = b.models[s]
        u = vec(op["u"])
        if kind == 3 and i % 2:
            u = u.real.copy()
        u = b.buffer("f", u)
        keep = u.copy()
        n = op["n"]
        q = len(u)
        want = vec(op["want"])[:q]
        info.update(model=kind, n=n, par=fl(op["par"]), u=u)
        if mine:
            ctx.case(name, (kind, i, keep.tobytes()))
        got = m["N"](u)
        big = max(np.max(np.abs(u)), 1e-3)
        if kind == 3:
            tol = 1e-14 * (1 + np.max(np.abs(m["x"])) + big) ** 3
        else:
            tol = 8e-15 * m["slack"] * n * n * (fl(op["scale"]) + 1e-3) * big * big * 6
        need(got.shape == want.shape and np.max(np.abs(got - want)) <= tol, f"the nonlinear function is off by {np.max(np.abs(got - want)) if got.shape == want.shape else got.shape} (tolerance {tol})",
             got=got, want=want, **info)
        need(not np.may_share_memory(got, u), "the result shares memory with the argument", **info)
        b.held.append((f"nonlinear function's result", got, got.copy()))
        if kind == 3:
            want = vec(op["want"])[q:]
            got = m["L"] @ u
            scale = (fl(op["par"]) * max(fl(op["scale"]), n * m["dmax"]) ** 2 + 1) * big * w["models"][s]["factor"]
            need(got.shape == want.shape and np.max(np.abs(got - want)) <= 4e-14 * n * n * m["slack"] * scale, "the linear operator is wrong", got=got, want=want, **info)
        need(np.array_equal(u, keep), "the argument was modified", **info)
    elif name == "double":
        if op["j"]:
            b.models[s]["L"] *= 2
    elif name == "soliton":
        x = b.slots[s]["arr"][0]
        keep = x.copy()
        o = w["slots"][s]
        a, x0, t = fl(op["a"]), fl(o["a"]), fl(op["c"])
        want = vec(op["want"]).real
        info.update(x=x, amplitude=a, x0=x0, t=t)
        if mine:
            ctx.case(name, (a, x0, t, keep.tobytes()))
        scale = a**2 * (1 + a * (np.max(np.abs(x)) + abs(x0) + a**2 * abs(t)))
        for f, args in ((models.kdv_soliton, (a, x0, t)), (models.kdv_multi_soliton, ([a], [x0], t))):
            got = f(x, *args)
            need(got.shape == x.shape and np.max(np.abs(got - want)) <= 8e-15 * scale, f"{f.__name__} is wrong", got=got, want=want, **info)
            need(np.array_equal(x, keep), "the argument was modified", **info)
            b.held.append(("soliton", got, got.copy()))
    elif name == "drop":
        b.slots[s] = None
        if op["j"]:
            for _, x, _ in b.held:
                x[...] = np.nan if x.size % 2 else 7.0
            b.held = []
        gc.collect()


def replay_bench(ctx, tr):
    mine = OWNER[ctx.prop]
    b = Bench()
    for i, st in enumerate(tr):
        op = st["op"]
        key = op["name"] + (str(op["kind"]) if op["name"] in ("grid", "derivative", "model", "apply") else "")
        if op["name"] == "model" and b.slots[op["j"]] is None or op["name"] == "apply" and b.models[op["slot"]] is None \
                or op["name"] in ("edit", "derivative", "soliton") and b.slots[op["slot"]] is None or op["name"] == "double" and b.models[op["slot"]] is None:
            return                    # left by a failure that belongs to another property
        try:
            perform(ctx, b, i, st, key in mine)
        except Mismatch:
            if key in mine:
                raise
            return                    # reported by the property this operation belongs to
        except Exception as e:
            if key in mine:
                raise Mismatch(f"{key}: unexpected {type(e).__name__}: {e}", at=i, op=op["name"]) from e
            return
        if op["name"] == "grid":
            o = st["w"]["slots"][op["slot"]]
            b.slots[op["slot"]]["slack"] = grid_slack(fl(o["a"]), fl(o["b"]))
        # nothing else has changed
        touched = op["slot"] if op["name"] in ("edit", "grid") else None
        for j, o in enumerate(b.slots):
            if o is None:
                continue
            if touched != j:
                ok = np.array_equal(o["arr"][0], o["keep"][0]) and np.array_equal(o["arr"][1], o["keep"][1])
                if not ok and key not in mine:
                    return
                need(ok, "an operation changed a grid it has nothing to do with", at=i, op=op["name"], grid=j)
            o["keep"] = o["arr"][0].copy(), o["arr"][1].copy()
        for j, m in enumerate(b.models):
            if m is None:
                continue
            if op["name"] in ("double", "model") and j == op["slot"]:
                m["L0"] = m["L"].copy()
            ok = np.array_equal(m["L"], m["L0"]) and all(np.array_equal(p, q) for p, q in zip(m["args"], m["keep"]))
            if not ok and key not in mine:
                return
            need(ok, "an operation changed an operator it has nothing to do with", at=i, op=op["name"], model=j)
        for what, x, y in b.held:
            ok = np.array_equal(x, y)
            if not ok and key not in mine:
                return
            need(ok, f"a {what} handed out earlier was modified", at=i, op=op["name"], got=x, want=y)
        b.held = b.held[-10:]
    ctx.sample(dict(bench=[st["op"]["name"] for st in tr]))


def suite(ctx):
    return [Suite("bench", [job("bench.qnt", "bench", 80, traces=60 if ctx.thorough else 8, seed=ctx.seed * 86028121 + r, invariant="safe")
                                        for r in range(16 if ctx.thorough else 8)], replay_bench)]


PROPERTIES = {}       # a further suite of the properties in OWNER
