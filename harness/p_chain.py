"""C13: whole adaptive runs against the published scheme under the documented controller, computed by the specification."""

import numpy as np

from common import Suite, close, fl, job, need, vec
import solvers as S


class Enough(Exception):
    pass


class Counted(S.Poly):
    """N, counting, and stopping the run when the specification has no more to say about it"""

    limit = None

    def __init__(self, *a):
        super().__init__(*a)
        self.n = 0

    copies = 1

    def __call__(self, u):
        if self.limit is not None and self.n >= self.limit:
            raise Enough
        self.n += 1
        w = u.reshape(self.copies, -1)
        v = np.roll(w, -1, axis=1)
        return (self.c + self.a * v + self.b * w * v + self.d * w**3).reshape(u.shape)


def options(o):
    return dict(epsilon=fl(o["eps"]), safety_f=fl(o["safety"]), adapt_cutoff=fl(o["cut"]),
                incr_f=fl(o["ctl"]["incr"]), decr_f=fl(o["ctl"]["decr"]), minh=fl(o["ctl"]["minh"]))


def runs_of(tr):
    """the runs in a behaviour: lists of their states"""
    out = []
    for st in tr:
        x = st["x"]
        if x["evals"] == 0:
            out.append([])
        out[-1].append(x)
    return out


def replay_chain(ctx, tr):
    for r in runs_of(tr):
        one_run(ctx, r)


def one_run(ctx, r):
    good = [x for x in r if x["clear"]]
    if len(good) < 2:
        return
    x, c = good[-1], r[0]["c"]
    name, done = c["cls"], x["done"]
    ended = x["m"]["ended"] if x["over"] else ""
    L = vec(c["lam"], c["real"])
    rep = c["rep"] if name != "IF45DP" else 0
    copies = min(c["copies"], 20) if rep else c["copies"]
    L = np.tile(L, copies)
    kw, Lm = {}, L
    if rep == 1 and name == "IF34":
        Lm = np.diag(L)
    if rep == 2 and np.all(L != 0) and abs(L).max() < 100 * abs(L).min():
        Lm, kw = np.diag(L), {"diagonalize": True}
    # rounding of the trials: psi_2 and psi_3 cancel for small |z|, the error estimate is a difference
    noise = 0.0
    for y, z in zip(good, good[1:]):
        h = fl(y["m"]["call"]["h"])
        eps = fl(y["opt"]["eps"])
        az = np.abs(h * L)
        az = az[az >= 0.0099]
        q = 1e-15 + (3e-16 / min(1.0, az.min()) ** 3 if az.size and name in S.ETD else 0)
        # an oscillation turns the uncertainty of h into one of phase
        turn = float(np.max(np.abs(h * L) * np.exp(np.minimum(0, (h * L).real))))
        noise = (2 + 3 * turn) * noise + 1000 * q * (1 + turn) / eps
        z["noise"] = noise
    good[0]["noise"] = 0.0
    while good and good[-1]["noise"] > 1e-4:
        good.pop()
    if len(good) < 2:
        return
    x = good[-1]
    whole = x["over"]                      # the specification has followed the run to its end
    nl = Counted(c["poly"], c["real"])
    nl.copies = copies
    cfg = S.solver_config(**options(c["opt"]))
    s = S.make(name, Lm, nl, cfg, **kw)
    u0 = np.tile(vec(c["u"], c["real"]), copies)
    hi = fl(c["hi"])
    info = dict(cls=name, rep=("vector", "full", "diagonalize")[rep if Lm is not L else 0], L=vec(c["lam"], c["real"]), u0=vec(c["u"], c["real"]), copies=copies, options=options(c["opt"]), noise=x["noise"])
    kind = "single steps" if c["one"] else {"": "evolutions, followed for a while", "ok": "evolutions, complete"}.get(x["m"]["ended"] if whole else "", "evolutions, " + x["m"]["ended"])
    ctx.case(kind, (name, c["one"], c["lam"], c["u"], c["opt"]), True)
    if any(d["n"] > 1 for d in x["done"]):
        ctx.case("with rejected trials", (name, c["one"], c["lam"], c["u"], c["opt"]), True)
    if c["before"]:
        history(s, nl, c, 0.5 * u0)
        info["before"] = c["before"]
    if c["one"]:
        single_steps(ctx, s, nl, x, hi or 0.25, u0, info)
    else:
        evolution(ctx, s, nl, x, whole, c, u0, info)


def agree(a, b, tol, what, **info):
    """a is b up to the rounding carried along"""
    need(np.shape(a) == np.shape(b) and np.all(np.isfinite(a)), f"{what}: {a}, expected {b}", **info)
    d = float(np.max(np.abs(np.asarray(a) - b)))
    m = float(np.max(np.abs(b)))
    need(d <= tol * m + 1e-13 * (1 + m), f"{what}: {a}, expected {b}", **info)


def history(s, nl, c, u):
    """work done before the run; how it ends does not matter"""
    t0, tf = fl(c["t0"]), fl(c["tf"])
    if c["before"] > 1:
        for k, v in dict(epsilon=1e-9, incr_f=1.1, decr_f=0.6, minh=1e-9, adapt_cutoff=1e-3, safety_f=0.7).items():
            setattr(s.config, k, v)
    nl.limit = 150 if c["before"] == 1 else 4000
    try:
        if c["before"] < 3:
            s.evolve(u, t0, tf if c["before"] == 1 else tf + 50.0)
        else:
            h = 1 / 64
            for _ in range(500):
                u, _, h = s.step(u, h)
    except (Enough, s.MinimumStepReached, s.MaxLoopsExceeded):
        pass
    s.reset()
    nl.n, nl.limit = 0, None
    for k, v in options(c["opt"]).items():
        setattr(s.config, k, v)


def single_steps(ctx, s, nl, x, h, u, info):
    count = 0
    for j, d in enumerate(x["done"]):
        for k, v in options(d["opt"]).items():
            setattr(s.config, k, v)
        u, took, h = s.step(u, h)
        count += 1
        ctx.case("steps:" + info["cls"], (info["cls"], x["c"]["u"], x["c"]["lam"], j), True)
        what = f"{info['cls']}/{info['rep']}: step {j}"
        n = x["noise"]
        agree(took, fl(d["h"]), n, what + " size", **info)
        agree(h, fl(d["s"]), n, what + " suggestion", **info)
        agree(u, np.tile(vec(d["u"]), nl.copies), n, what + " state", **info)
    ended = x["over"] and x["m"]["ended"] == "minstep"
    if ended:
        for k, v in options(x["opt"]).items():
            setattr(s.config, k, v)
        try:
            s.step(u, h)
        except Exception as e:
            need(type(e).__name__ == "MinimumStepReached", f"{info['cls']}: {type(e).__name__}, expected MinimumStepReached", **info)
        else:
            need(False, f"{info['cls']}: no MinimumStepReached", **info)
    if ended or not x["m"]["active"] or x["m"]["call"]["trials"] == 0:
        need(nl.n == x["evals"], f"{info['cls']}/{info['rep']}: {nl.n} evaluations of N in {count} steps, expected {x['evals']}", **info)


def evolution(ctx, s, nl, x, whole, c, u0, info):
    t0, tf = fl(c["t0"]), fl(c["tf"])
    end = x["m"]["ended"] if whole else ""
    if not end:
        nl.limit = x["evals"]
    who = f"{info['cls']}/{info['rep']}"
    got, raised = None, None
    try:
        got = s.evolve(u0, t0, tf, None if c["hi"] == 0 else fl(c["hi"]), c["store"], c["freq"])
    except Enough:
        need(not end, "machinery")
    except Exception as e:
        raised = type(e).__name__
    need(raised == ("MinimumStepReached" if end == "minstep" else None), f"{who}: the run raises {raised}, expected {end or 'none'}", **info)
    done = x["done"]
    want = []
    if c["store"]:
        want = [(t0, u0)] + [(fl(d["t"]), np.tile(vec(d["u"]), nl.copies)) for i, d in enumerate(done) if (i + 1) % c["freq"] == 0]
    n = x["noise"]
    need(len(s.t) == len(want) and len(s.u) == len(want), f"{who}: {len(s.t)} times and {len(s.u)} states are recorded, expected {len(want)}", end=end, **info)
    for i, ((t, u), a, b) in enumerate(zip(want, s.t, s.u)):
        ctx.case("steps:" + info["cls"], (info["cls"], c["u"], c["lam"], i), True)
        agree(a, t, n, f"{who}: recorded time {i}", **info)
        agree(b, u, n, f"{who}: recorded state {i}", **info)
    need(nl.n == x["evals"], f"{who}: {nl.n} evaluations of N, expected {x['evals']}", **info)
    if end == "ok":
        agree(got, np.tile(vec(done[-1]["u"]), nl.copies), n, f"{who}: result", **info)


def chain(ctx, jobs=2, traces=10):
    n = 6 * traces if ctx.thorough else traces
    return Suite("chain", [job("chain.qnt", f"chain_{i}", 150, traces=n, seed=ctx.seed * 86028121 + 31 * i + 1000 * k, invariant="safe")
                           for i in (3, 4, 5, 6) for k in range(4 * jobs if ctx.thorough else jobs)], replay_chain)


def c13_suites(ctx):
    return [chain(ctx)]


PROPERTIES = {"C13": dict(suites=c13_suites, level="model_checking",
                          rule="a case is one accepted step (its time or size, state and number of trials) of a run computed by the specification; distinct by run and step")}
