"""C18: configuration objects."""

import numpy as np

from common import Suite, job, need

SCALE = [-np.inf, -1e300, -1.0, -1e-3, -5e-324, 0.0, 5e-324, 1e-16, 1e-3, 0.25, 0.85, float(np.nextafter(1, 0)), 1.0, float(np.nextafter(1, 2)),
         1.25, 2.0, 4.0, 32.0, 1e300, np.inf, float("nan")]
OTHER = {21: "0.5", 22: None, 23: 0.5j, 24: [0.5]}
NAMES = ["epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh", "modecutoff", "contour_points", "contour_radius"]
DEFAULTS = {30: 1e-4, 31: 1.25, 32: 0.85, 33: 0.8, 34: 0.01, 35: 1e-16, 36: 0.01, 37: 32, 38: 1.0}
FIRST = [0, 6]


def number(v):
    return DEFAULTS[v] if v in DEFAULTS else SCALE[v]


def value(a):
    v = a["v"]
    if v in OTHER:
        return OTHER[v]
    x = number(v)
    return {0: float, 1: int, 2: np.float64, 3: np.int64}[a["form"]](x) if a["form"] in (0, 2) or x == int(x) else x


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def replay_config(ctx, tr):
    from rkstiff.etd import ETDConfig
    from rkstiff.solveras import SolverConfig

    cls = [SolverConfig, ETDConfig]
    objs = [cls[o["kind"]]() for o in tr[0]["objs"]]
    for j, st in enumerate(tr):
        op = st["op"]
        args = [value(a) for a in op["args"]]
        names = [NAMES[p] for p in op["par"]]
        info = dict(at=j, kind=cls[op["kind"]].__name__, names=names, args=[repr(a) for a in args], positional=op["pos"])
        e = None
        if op["name"] == "new":
            k = op["pos"]
            o, e = attempt(lambda: cls[op["kind"]](*args[:k], **dict(zip(names[k:], args[k:]))))
            if e is None:
                objs[op["i"]] = o
        elif op["name"] == "set":
            _, e = attempt(lambda: setattr(objs[op["i"]], names[0], args[0]))
        ctx.case(op["name"], (op["kind"], tuple(op["par"]), tuple((a["v"], a["form"]) for a in op["args"])), op["name"] != "init")
        if op["ok"]:
            need(e is None, f"valid values are refused: {type(e).__name__}: {e}", **info)
        else:
            need(e is not None, "invalid values are accepted", **info)
            exc = op["exc"] + (["ValueError", "TypeError"] if any(a["v"] in OTHER for a in op["args"]) else [])
            need(type(e).__name__ in exc, f"refused with {type(e).__name__} instead of {' or '.join(sorted(set(op['exc'])))}", **info)
        for i, o in enumerate(st["objs"]):
            for k, v in enumerate(o["vals"]):
                name = NAMES[FIRST[o["kind"]] + k]
                got = getattr(objs[i], name)
                need(isinstance(objs[i], cls[o["kind"]]) and got == number(v), f"{name} of configuration {i} is {got!r}, expected {number(v)!r}", **info)
        ctx.sample(info)


PROPERTIES = {"C18": dict(
    suites=lambda ctx: [Suite("config", [job("config.qnt", "config", 80, traces=400 if ctx.thorough else 60, seed=ctx.seed * 15487469 + r, invariant="safe")
                                         for r in range(16 if ctx.thorough else 8)], replay_config)],
    level="model_checking",
    rule="a case is one construction or assignment with its arguments; distinct by parameters, values and number forms")}
