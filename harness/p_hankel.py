"""C23: the discrete Hankel transform."""

import numpy as np

from common import Suite, fl, job, need, vec
from p_spectral import attempt, floats


def replay_hankel(ctx, tr):
    from rkstiff import grids
    from rkstiff.transforms import HankelTransform

    H = HankelTransform(tr[0]["h"]["nr"])
    other = HankelTransform(tr[0]["other"]["nr"], fl(tr[0]["other"]["rmax"]))
    kept = []
    for j, st in enumerate(tr):
        h, op = st["h"], st["op"]
        name = op["name"]
        info = dict(at=j, op=name, nr=h["nr"], rmax=fl(h["rmax"]))
        nr = {2: float(op["nr"]) + 8.5, 3: "8"}.get(op["form"], op["nr"]) if name == "nr" else op["nr"]
        rm = float("nan") if op["form"] == 2 and name != "nr" else fl(op["rmax"])
        info.update(given=(nr, rm))
        ctx.case(name, (h["nr"], h["rmax"], repr(op)), name not in ("init", "skip", "swap"))
        e = None
        if name == "new":
            new, e = attempt(HankelTransform, nr, rm) if op["rmax"] != 1 << 128 or op["form"] else attempt(HankelTransform, nr)
            H = H if e else new
        elif name == "grid":
            got, e = attempt(grids.construct_r_kr_hankel, nr, rm)
            if e is None:
                H = HankelTransform(nr, rm)
                need(all(np.array_equal(a, b) for a, b in zip(got[:3], (H.r, H.kr, H.bessel_zeros()))), "construct_r_kr_hankel and HankelTransform use different grids", got=got, **info)
                need(abs(got[3] * fl(st["r"][0]) - got[2][0] * rm) <= 4e-15 * got[2][0] * rm, "the normalizing zero is wrong", got=got[3], **info)
        elif name == "nr":
            _, e = attempt(setattr, H, "nr", nr)
        elif name == "swap":
            H, other = other, H
        elif name == "rmax":
            _, e = attempt(setattr, H, "rmax", rm)
        if op["ok"]:
            need(e is None, f"valid arguments are refused: {e!r}", **info)
        else:
            need(isinstance(e, ValueError), f"invalid arguments are not refused with ValueError ({e!r})", **info)
        need(H.nr == h["nr"] and H.rmax == fl(h["rmax"]), f"nr, rmax are {H.nr}, {H.rmax}", **info)
        r, k = floats(st["r"]), floats(st["kr"])
        need(H.r.shape == r.shape and np.all(np.abs(H.r - r) <= 4e-15 * r), "the radial grid is wrong", got=H.r, want=r, **info)
        need(H.kr.shape == k.shape and np.all(np.abs(H.kr - k) <= 4e-15 * k), "the spectral grid is wrong", got=H.kr, want=k, **info)
        for what, x, y in kept:
            need(np.array_equal(x, y), f"a {what} handed out earlier was modified", got=x, want=y, **info)
        kept = kept[-8:] + [("radial grid", H.r, H.r.copy()), ("spectral grid", H.kr, H.kr.copy())]
        if name == "zeros":
            z = H.bessel_zeros()
            want = k * fl(h["rmax"])
            need(z.shape == k.shape and np.all(np.abs(z - want) <= 4e-15 * want), "bessel_zeros are wrong", got=z, **info)
            z[:] = -1.0
        if name == "matrix":
            y = H.hankel_matrix()
            want = np.array([floats(v) for v in op["y"]])
            need(y.shape == want.shape and np.max(np.abs(y - want)) <= 2e-14 * np.max(np.abs(want)), "the transform matrix is wrong", got=y, want=want, **info)
            y[:] = np.nan
        if name in ("ht", "iht", "gauss", "igauss"):
            f = np.array([vec(v) for v in op["f"]]).T
            g = np.array([vec(v) for v in op["g"]]).T
            if not op["cols"]:
                f, g = f[:, 0].copy(), g[:, 0].copy()
            if not np.any(f.imag):
                f = f.real.copy()
            if name == "igauss":
                f, g = g.real.copy(), f
            keep = f.copy()
            got = (H.ht if name in ("ht", "gauss") else H.iht)(f)
            if name in ("ht", "iht"):
                tol = 2e-14 * h["nr"] * fl(op["scale"]) * 2 * max(np.max(np.abs(f)), 1e-3)
            else:
                tol = 1e-10 * np.max(np.abs(g))
            need(got.shape == f.shape and np.max(np.abs(got - g)) <= tol, f"the {'transform' if name in ('ht', 'gauss') else 'inverse transform'} is off by {np.max(np.abs(got - g)) if got.shape == f.shape else '?'} (tolerance {tol})",
                 f=f, got=got, want=g, **info)
            need(np.array_equal(keep, f), "the argument was modified", **info)
            back = (H.iht if name in ("ht", "gauss") else H.ht)(got)
            need(np.max(np.abs(back - f)) <= (5e-3 if name in ("ht", "iht") else 1e-9) * h["nr"] * max(np.max(np.abs(f)), 1e-3), "transforming back does not restore the data", f=f, back=back, **info)
        ctx.sample(info)


PROPERTIES = {"C23": dict(
    suites=lambda ctx: [Suite("hankel", [job("hankel.qnt", "hankel", 50, traces=40 if ctx.thorough else 5, seed=ctx.seed * 982451653 + r, invariant="safe")
                                         for r in range(16 if ctx.thorough else 8)], replay_hankel)],
    level="model_checking",
    rule="a case is one operation on a Hankel transform (change of grid, refusal, transform); distinct by grid and operation")}
