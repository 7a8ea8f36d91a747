"""C22: Chebyshev grids and derivatives.  Also the Allen-Cahn operators (C25)."""

import numpy as np

from common import Suite, fl, job, need
from p_step import laid_out, laid_out_matrix
from p_spectral import attempt, bench_suite, floats, refused


def table(m):
    return np.array([[fl(x) for x in r] for r in m])


def grid_slack(a, b):
    """how much rounding of the endpoints matters relative to the interval"""
    return 1 + max(abs(a), abs(b)) / (b - a)


def replay_cheb(ctx, tr):
    from rkstiff import derivatives, grids

    for st in tr:
        g = st["g"]
        a, b = fl(g["a"]), fl(g["b"])
        n = {1: float, 2: str}.get(g["err"], int)(g["n"])
        for f in (grids.construct_x_cheb, grids.construct_x_dx_cheb):
            args = (n,) if g["dflt"] else (n, a, b)
            info = dict(function=f.__name__, args=args)
            ctx.case(f.__name__, repr(args), True)
            got, e = attempt(f, *args)
            if g["exc"]:
                refused(e, g["exc"], info)
                continue
            need(e is None, f"valid arguments are refused: {e!r}", **info)
            want = floats(g["x"])
            x, d = got if isinstance(got, tuple) else (got, None)
            need(x.shape == (n + 1,), f"{x.shape} grid points", **info)
            need(np.max(np.abs(x - want)) <= 2e-15 * max(abs(a), abs(b)), "the grid points are wrong", got=x, want=want, **info)
            if d is not None:
                w = table(g["d"])
                need(d.shape == (n + 1, n + 1), f"matrix of shape {d.shape}", **info)
                tol = 4e-15 * n * n * grid_slack(a, b) * (np.abs(w) + np.diag(np.sum(np.abs(w), axis=1)))
                need(np.all(np.abs(d - w) <= tol), "the differentiation matrix is wrong", got=d, want=w, **info)
                need(np.max(np.abs(d @ np.ones(n + 1))) <= 1e-14 * (n + 1) * np.max(np.sum(np.abs(w), axis=1)), "the derivative of a constant is not zero", **info)
        ctx.sample(info)
        c = st["d"]
        n, p = c["n"], c["p"]
        a, b = fl(c["a"]), fl(c["b"])
        x, d = grids.construct_x_dx_cheb(n, a, b)
        u, want = table(c["u"]), table(c["du"])
        if c["cx"]:
            k = u.shape[1] // 2
            u, want = u[:, :k] + 1j * u[:, k:], want[:, :k] + 1j * want[:, k:]
        if not c["cols"]:
            u, want = u[:, 0].copy(), want[:, 0].copy()
        if c["err"] == 4:
            u = u[:-1]
        if c["err"] == 5:
            u = np.concatenate([u, u[:1]])
        if c["err"] == 6:
            u = np.zeros([(n + 1, 2, 2), (n + 1, n + 1, 2), ()][(n + p) % 3])
        if c["err"] == 7:
            d = d[:, :-1] if n % 2 else d[:-1]
        amp = fl(c["amp"])
        if u.ndim in (1, 2):
            u = laid_out(u, c["form"]) if u.ndim == 1 else laid_out_matrix(u, c["form"])
        d = laid_out_matrix(d, c["form"] * 5 % 6)
        order = {1: float(p), 2: str(p), 3: -max(p, 1)}.get(c["err"], p)
        keep = u.copy(), d.copy()
        info = dict(n=n, a=a, b=b, order=order, u=u)
        ctx.case("dx_cheb", (n, a, b, repr(order), u.tobytes(), c["err"]), True)
        got, e = attempt(derivatives.dx_cheb, d, u, order) if p != 1 or c["err"] else attempt(derivatives.dx_cheb, d, u)
        if c["exc"]:
            refused(e, c["exc"], info)
        else:
            need(e is None, f"valid arguments are refused: {e!r}", **info)
            need(got.shape == u.shape, f"result of shape {got.shape}", **info)
            tol = 4e-15 * (p + 1) * n * n * grid_slack(a, b) * fl(c["norm"]) ** p * max(np.max(np.abs(u)), 1e-3 * amp)
            err = np.max(np.abs(got - want))
            need(err <= tol, f"derivative of order {p} of a polynomial is off by {err} (rounding allows {tol})", got=got, want=want, **info)
        need(np.array_equal(keep[0], u) and np.array_equal(keep[1], d), "the arguments were modified", **info)


def replay_allen_cahn(ctx, tr):
    from rkstiff import grids, models

    for st in tr:
        m = st["m"]
        a, b, n = fl(m["a"]), fl(m["b"]), m["n"]
        x, d = grids.construct_x_dx_cheb(n, a, b)
        u, lu, nu = floats(m["u"]), floats(m["lu"]), floats(m["nu"])
        keep = x.copy(), d.copy(), u.copy()
        eps = fl(m["eps"])
        info = dict(model="allen_cahn", n=n, a=a, b=b, epsilon=eps, u=u)
        ctx.case("allen_cahn", (n, a, b, eps, u.tobytes()), True)
        L, N = models.allen_cahn_ops(x, d) if m["dflt"] else models.allen_cahn_ops(x, d, eps)
        need(L.shape == (n - 1, n - 1), f"linear operator of shape {L.shape}", **info)
        scale = (eps * fl(m["norm"]) ** 2 + 1) * max(np.max(np.abs(u)), 1e-3)
        tol = 2e-14 * n * n * grid_slack(a, b)
        for v, w in ((u, nu), (u.astype(complex), nu)):
            got = N(v)
            need(got.shape == v.shape and np.max(np.abs(got - w)) <= 1e-14 * (1 + np.max(np.abs(x)) + np.max(np.abs(u))) ** 3, "the nonlinear function is wrong", got=got, want=w, **info)
        need(np.max(np.abs(L @ u - lu)) <= tol * scale, "the linear operator is wrong", got=L @ u, want=lu, **info)
        need(np.max(np.abs(L @ u + N(u) - lu - nu)) <= tol * (scale + (2 + np.max(np.abs(x))) ** 3), "the right-hand side is wrong", **info)
        need(all(np.array_equal(p, q) for p, q in zip(keep, (x, d, u))), "the arguments were modified", **info)
        ctx.sample(info)


def suite(name, f, k=1):
    return lambda ctx: [Suite(name, [job("cheb.qnt", "cheb", 40, traces=k * (40 if ctx.thorough else 6), seed=ctx.seed * 67867967 + r, invariant="safe")
                                     for r in range(16 if ctx.thorough else 8)], f)]


PROPERTIES = {
    "C22": dict(suites=lambda ctx: suite("cheb", replay_cheb)(ctx) + bench_suite(ctx), level="model_checking",
                rule="a case is one call of a Chebyshev grid constructor or one derivative of a generated polynomial; distinct by arguments and data"),
}
