"""C20, C21: periodic grids, mirrored grids, spectral derivatives."""

import numpy as np

from common import Suite, fl, job, need, vec
from p_step import laid_out, laid_out_matrix

FORMS = [int, float, str, lambda n: None]


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e


def floats(v):
    return np.array([fl(x) for x in v])


def refused(e, exc, info):
    need(e is not None, "invalid arguments are accepted", **info)
    need(type(e).__name__ == exc, f"refused with {type(e).__name__}: {e}, expected {exc}", **info)


def replay_grids(ctx, tr):
    from rkstiff import grids

    for st in tr:
        g = st["g"]
        f = grids.construct_x_kx_rfft if g["real"] else grids.construct_x_kx_fft
        n = FORMS[g["form"]](g["n"])
        a, b = fl(g["a"]), fl(g["b"])
        args = {2: (n,), 1: (n, a)}.get(g["dflt"], (n, a, b))
        info = dict(function=f.__name__, args=args)
        ctx.case("grid", (g["real"],) + tuple(map(repr, args)), True)
        got, e = attempt(f, *args)
        if g["exc"]:
            refused(e, g["exc"], info)
        else:
            need(e is None, f"valid arguments are refused: {e!r}", **info)
            x, k = got
            need(x.shape == (g["n"],) and k.shape == ((g["n"] // 2 + 1 if g["real"] else g["n"]),), f"shapes {x.shape}, {k.shape}", **info)
            size = max(abs(a), abs(b))
            want = floats(g["x"])
            err = np.abs(x[g["at"]] - want)
            need(np.all(err <= 8e-16 * size), f"grid point {g['at'][int(np.argmax(err))]} is off by {np.max(err)}", got=x[g["at"]], want=want, **info)
            want = floats(g["kx"])
            err = np.abs(k[g["kat"]] - want)
            need(np.all(err <= 2e-15 * (1 + size / (b - a)) * np.abs(want)), f"wavenumber {g['kat'][int(np.argmax(err))]} is off by {np.max(err)}", got=k[g["kat"]], want=want, **info)
            need(np.all(np.diff(x) > 0) if size / (b - a) < 1e3 else np.all(np.diff(x) >= 0), "grid points do not increase", **info)
        ctx.sample(info)
        m = st["m"]
        r = floats(m["r"])
        u = np.array([vec(v) for v in m["u"]])
        u = u if m["cx"] else u.real.copy()
        if m["ints"]:
            u = u.astype(np.int64)
            if np.array_equal(r, np.rint(r)):
                r = r.astype(np.int64)
        r = laid_out(r, m["form"])
        deep = m["deep"] and not m["oned"]
        u = laid_out(u[0], m["form"]) if m["oned"] else np.stack([u, 2 * u, -u], axis=2) if deep else laid_out_matrix(u, m["form"])
        info = dict(r=r, u=None if m["none"] else u, axis=m["axis"])
        ctx.case("mirror", (r.tobytes(), u.tobytes(), m["axis"], m["none"]), True)
        keep = r.copy(), u.copy()
        got, e = attempt(grids.mirror_grid, r, *([] if m["none"] else [u]), **({"axis": m["axis"]} if m["given"] and not m["none"] else {}))
        if m["exc"]:
            refused(e, m["exc"], info)
        else:
            need(e is None, f"valid arguments are refused: {e!r}", **info)
            need(np.array_equal(got[0], floats(m["rn"])), "the mirrored grid is wrong", got=got[0], **info)
            if m["none"]:
                need(got[1] is None, "data are returned although none were given", **info)
            else:
                want = np.array([vec(v) for v in m["un"]])
                want = np.stack([want, 2 * want, -want], axis=2) if deep else want
                need(got[1].dtype == u.dtype, f"data of type {u.dtype} become {got[1].dtype}", **info)
                need(np.array_equal(got[1], want[0] if m["oned"] else want), "the mirrored data are wrong", got=got[1], want=want, **info)
            need(np.array_equal(keep[0], r) and np.array_equal(keep[1], u), "the arguments were modified", **info)


def replay_derivatives(ctx, tr):
    from rkstiff import derivatives, grids

    for st in tr:
        d = st["d"]
        n, p = d["n"], d["p"]
        f = derivatives.dx_rfft if d["real"] else derivatives.dx_fft
        k = floats(d["kx"])
        if d["lib"] and d["err"] < 5:
            a = fl(d["a"])
            k = (grids.construct_x_kx_rfft if d["real"] else grids.construct_x_kx_fft)(n, a, fl(d["a"] + d["len"]))[1]
            slack = 1 + abs(a) / fl(d["len"])
        else:
            slack = 1
        u, want = vec(d["u"]), vec(d["du"])
        amp = fl(d["amp"])
        if d["sym"]:
            u = u.real.copy()
        if d["ints"]:
            u = np.rint(u.real) + 1j * np.rint(u.imag) if np.iscomplexobj(u) else np.rint(u)
            if d["sym"] and d["form"] % 2 == 0:
                u = u.astype(np.int64)
        if d["intk"] and np.array_equal(k, np.rint(k)):
            k = k.astype(np.int64)
        u, k = laid_out(u, d["form"]), laid_out(k, (d["form"] * 2 + 1) % 5)
        if d["real"]:
            want = want.real.copy()
        if d["err"] == 4:
            u = u + 0.25j
        order = {1: float(p), 2: str(p), 3: -max(p, 1)}.get(d["err"], p)
        info = dict(function=f.__name__, n=n, order=order, kx=k, u=u)
        keep = u.copy(), k.copy()
        ctx.case(f.__name__, (n, repr(order), u.tobytes(), k.tobytes()), True)
        got, e = attempt(f, k, u, order) if p != 1 or d["err"] else attempt(f, k, u)
        if d["exc"]:
            refused(e, d["exc"], info)
        else:
            need(e is None, f"valid arguments are refused: {e!r}", **info)
            need(got.shape == u.shape, f"result of shape {got.shape}", **info)
            need(not (d["real"] and np.iscomplexobj(got)), "the derivative of real data is complex", **info)
            tol = 2e-15 * slack * (p + 3) * n * fl(d["scale"]) * max(np.max(np.abs(u)), 1e-3 * amp)
            err = np.max(np.abs(got - want))
            need(err <= tol, f"derivative of order {p} is off by {err} (rounding allows {tol})", got=got, want=want, **info)
            # a single mode at a time would hide in the scale of the highest one: compare the spectrum, too
            if p > 0:
                a, b = np.fft.fft(got), np.fft.fft(want)
                c = np.abs(np.fft.fft(u))
                kk = np.abs(np.concatenate([k, k[1 : (n + 1) // 2][::-1]]) if d["real"] else k).astype(float)
                tol = 4e-15 * n * (slack * (p + 3) * kk**p * max(np.max(c), 1e-3 * amp) + np.max(np.abs(b)) + 1e-15 * np.max(kk) ** p * np.max(c)) + 1e-300
                need(np.all(np.abs(a - b) <= tol), f"mode {int(np.argmax(np.abs(a - b) / tol))} of the derivative of order {p} is wrong", got=a, want=b, **info)
        need(np.array_equal(keep[0], u) and np.array_equal(keep[1], k), "the arguments were modified", **info)
        ctx.sample(info)


def suite(name, f):
    return lambda ctx: [Suite(name, [job("spectral.qnt", "spectral", 40, traces=60 if ctx.thorough else 8, seed=ctx.seed * 49979687 + r, invariant="safe")
                                     for r in range(16 if ctx.thorough else 8)], f)]


def bench_suite(ctx):
    import p_bench

    return p_bench.suite(ctx)


PROPERTIES = {
    "C20": dict(suites=lambda ctx: suite("grids", replay_grids)(ctx) + bench_suite(ctx), level="model_checking",
                rule="a case is one call of a grid constructor or of mirror_grid; distinct by arguments"),
    "C21": dict(suites=lambda ctx: suite("derivatives", replay_derivatives)(ctx) + bench_suite(ctx), level="model_checking",
                rule="a case is one derivative of a generated trigonometric polynomial; distinct by data, wavenumbers and order"),
}
