"""C25: the model problems."""

import numpy as np

import solvers as S
from common import Suite, fl, job, need, vec
from p_cheb import replay_allen_cahn, suite as cheb_suite
from p_spectral import attempt, bench_suite, floats

NAMES = ["ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34", "IF45DP"]
ACCURACY = {"ETD34": 5e-5, "ETD35": 2e-5, "IF34": 2e-4, "IF45DP": 2e-3}      # with tolerance 1e-6 per step


def replay_models(ctx, tr):
    from rkstiff import grids, models

    for st in tr:
        r = st["r"]
        n = r["n"]
        a, b = fl(r["a"]), fl(r["a"] + r["len"])
        mu = fl(r["mu"])
        x, kx = grids.construct_x_kx_rfft(n, a, b)
        uf = vec(r["uf"])
        name = "kdv" if r["kdv"] else "burgers"
        info = dict(model=name, n=n, a=a, b=b, mu=mu, uf=uf)
        ctx.case(name, (n, a, b, mu, uf.tobytes()), True)
        keep = uf.copy(), kx.copy()
        L, N = models.kdv_ops(kx) if r["kdv"] else models.burgers_ops(kx, mu)
        slack = 1 + max(abs(a), abs(b)) / (b - a)
        want = vec(r["l"])
        need(L.shape == kx.shape and np.all(np.abs(L - want) <= 1e-14 * slack * np.abs(want)), "the linear operator is wrong", got=L, want=want, **info)
        want = vec(r["nf"])
        for _ in range(2):
            got = N(uf)
            tol = 4e-15 * slack * n * n * kx[-1] * max(fl(r["umax"]), np.max(np.abs(uf)) / n, 1e-3) * max(np.max(np.abs(uf)), 1e-3) * 6
            need(got.shape == uf.shape and np.max(np.abs(got - want)) <= tol, f"the nonlinear function is off by {np.max(np.abs(got - want)) if got.shape == uf.shape else got.shape} (tolerance {tol})",
                 got=got, want=want, **info)
        need(np.array_equal(keep[0], uf) and np.array_equal(keep[1], kx), "the arguments were modified", **info)
        ctx.sample(info)

        s = st["s"]
        x, ampl, x0, t = floats(s["x"]), [fl(v) for v in s["a"]], [fl(v) for v in s["x0"]], fl(s["t"])
        if s["ints"]:
            x = x.astype(np.int64)
        if s["kind"] == 0:
            f, args = models.kdv_soliton, [x, ampl[0], x0[0], t][: 4 - s["dflt"]]
        else:
            f, args = models.kdv_multi_soliton, [x, ampl, x0, t][: 4 - s["dflt"]]
        info = dict(function=f.__name__, args=args)
        ctx.case(f.__name__, repr(args), True)
        got, e = attempt(f, *args)
        if s["kind"] == 2:
            need(isinstance(e, ValueError), f"amplitudes and positions of different lengths are not refused with ValueError ({e!r})", **info)
        else:
            need(e is None, f"valid arguments are refused: {e!r}", **info)
            want = floats(s["u"])
            big = max(abs(v) for v in ampl)
            scale = big**2 * (1 + big * (np.max(np.abs(x)) + max(map(abs, x0)) + big**2 * abs(t)))
            need(got.shape == x.shape and np.max(np.abs(got - want)) <= 4e-15 * scale, "the soliton is wrong", got=got, want=want, **info)
            if s["kind"] == 1 and len(ampl) > 0:
                arr, _ = attempt(f, x, np.array(ampl), np.array(x0), *args[3:])
                need(arr is not None and np.array_equal(arr, got), "arrays of amplitudes give another result than lists", got=arr, **info)

        q = st["q"]
        if not q["on"]:
            continue
        n = q["n"]
        x, kx = grids.construct_x_kx_rfft(n, fl(q["a"]), fl(q["a"] + q["len"]))
        L, N = models.kdv_ops(kx)
        cls = NAMES[q["cls"]]
        t = fl(q["t"])
        info = dict(run=cls, amplitude=fl(q["amp"]), x0=fl(q["x0"]), t=t)
        ctx.case("run", (cls, q["amp"], q["x0"], q["t"]), True)
        u0, ut, u1 = floats(q["u0"]), floats(q["ut"]), floats(q["u1"])
        f0 = np.fft.rfft(u0)
        got = np.fft.irfft(L * f0 + N(f0), n=n)
        need(np.max(np.abs(got - ut)) <= 3e-4 * np.max(np.abs(ut)), "the right-hand side of a soliton is not its time derivative", got=got, want=ut, **info)
        # carried along by a solver
        if cls in S.ADAPTIVE:
            s = S.make(cls, L, N, S.solver_config(epsilon=1e-6))
            end = s.evolve(f0, 0.0, t, t / 200)
        else:
            s = S.make(cls, L, N)
            end = s.evolve(f0, 0.0, t, t / np.ceil(t / 0.004))
        got = np.fft.irfft(end, n=n)
        need(np.max(np.abs(got - u1)) <= ACCURACY.get(cls, 5e-6) * np.max(np.abs(u1)), f"{cls} does not carry the soliton to its new place: off by {np.max(np.abs(got - u1))}", got=got, want=u1, **info)
        mass = (1e-5 if cls == "IF45DP" else 1e-9) * abs(f0[0])     # exact but for the highest mode's imaginary part
        need(abs(end[0] - f0[0]) <= mass and all(abs(u[0] - f0[0]) <= mass for u in s.u), "mass is not conserved", got=end[0], want=f0[0], **info)


PROPERTIES = {"C25": dict(
    suites=lambda ctx: [Suite("models", [job("models.qnt", "models", 40, traces=40 if ctx.thorough else 5, seed=ctx.seed * 1000000007 + r, invariant="safe")
                                         for r in range(16 if ctx.thorough else 8)], replay_models)] + cheb_suite("allen_cahn", replay_allen_cahn)(ctx) + bench_suite(ctx),
    level="model_checking",
    rule="a case is one model problem with data, one soliton evaluation or one run of a soliton; distinct by parameters and data")}
