"""C09: constant-step evolution."""

import numpy as np

from common import Suite, job, need
import solvers as S

CS = ["IF4", "ETD4", "ETD5"]


def replay_gridcs(ctx, tr):
    for st, nxt in zip(tr, tr[1:] + [None]):
        c, o = st["c"], st["st"]
        if not o["done"] or (nxt is not None and nxt["c"] == c):
            continue
        r = (c["tf"] - c["t0"]) % c["h"]
        if not (r == 0 or (r * 10000 > c["h"] and (c["h"] - r) * 10000 > c["h"])):
            continue
        t0, tf, h = c["t0"] / c["den"], c["tf"] / c["den"], c["h"] / c["den"]
        n = o["k"]
        name = CS[(c["h"] + n) % 3]
        if name != "IF4" and n > 300:
            name = "IF4"
        # u' = 1: the state counts the steps
        s = S.make(name, np.zeros(2), lambda u: np.ones(2))
        u0 = np.array([1.0, -2.0])
        kw = {} if (c["store"] and c["freq"] == 1 and n % 2) else dict(store_data=c["store"], store_freq=c["freq"])
        info = dict(cls=name, t0=t0, tf=tf, h=h, store=c["store"], freq=c["freq"], steps_expected=n)
        ctx.case("refused" if o["refused"] else "grid", (c["t0"], c["tf"], c["h"], c["den"], c["store"], c["freq"]), n != 0 or o["refused"])
        if o["refused"]:
            try:
                s.evolve(u0, t0, tf, h, **kw)
            except ValueError:
                continue
            need(False, "a step larger than the whole interval is accepted", t=s.t, **info)
        s.evolve(np.array([9.0, 9.0]), 0.0, 3.0, 1.0)  # leftovers of an earlier evolution must not matter
        got = s.evolve(u0, t0, tf, h, **kw)
        tol = 1e-9 * (1 + n * h)
        need(np.all(np.abs(got - (u0 + n * h)) <= tol), "final state is not that after the expected number of steps",
             got=got, steps=float((got - u0)[0] / h), t=s.t[-3:], **info)
        rec = o["rec"]
        need(len(s.t) == len(s.u) == len(rec), f"recorded {len(s.t)} times / {len(s.u)} states, expected {len(rec)}", t=s.t[-5:], **info)
        if rec:
            ts = np.array(s.t)
            w = t0 + np.array(rec, dtype=float) * h
            need(ts[0] == t0 and np.all(np.abs(ts - w) <= 1e-13 * np.maximum(np.abs(t0), np.abs(w)) + 4e-16 * np.array(rec) * h),
                 "recorded times are not on the grid t0 + k h", worst=float(np.max(np.abs(ts - w))), t=s.t[:5], **info)
            us = np.array(s.u)
            need(np.all(np.abs(us - (u0 + np.array(rec)[:, None] * h)) <= tol), "recorded states do not belong to their times", **info)
        ctx.sample(info)


PROPERTIES = {"C09": dict(
    suites=lambda ctx: [Suite("gridcs", [job("gridcs.qnt", "gridcs", 60, traces=200 if ctx.thorough else 16, seed=ctx.seed * 179424673 + r, invariant="safe")
                                         for r in range(32 if ctx.thorough else 8)], replay_gridcs)],
    level="model_checking",
    rule="a case is one constant-step evolution (t0, tf, h, recording options); distinct by these, non-trivial when it takes a step or is refused")}
