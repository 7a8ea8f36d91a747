"""C24: whole evolutions against the exact flow."""

import numpy as np

import solvers as S
from common import Suite, fl, job, mat, need, vec
from p_step import ORDER, rates

NAMES = ["ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34", "IF45DP"]


def replay_evolve(ctx, tr):
    rows, ratios = {}, {}
    for j, st in enumerate(tr):
        e = st["e"]
        if not e["ok"]:
            continue
        c = e["c"]
        real = c["real"]
        dense = bool(c["L"])
        u0 = vec(c["u"], real)
        at = [vec(x) for x in e["at"]]
        w, mid = e["windows"], e["mid"]
        t0 = fl(e["t0"])
        t1, tf = t0 + mid / 16, t0 + w / 16
        gain, big = fl(e["gain"]), fl(e["big"])
        reps = [("full", mat(c["L"], real), {})] if dense else [("vector", vec(c["lam"], real), {})]
        if dense:
            lam, V = np.linalg.eig(reps[0][1])
            if np.linalg.cond(V) < 20 and np.linalg.cond(reps[0][1]) < 1e3:
                reps.append(("diagonalize", reps[0][1], {"diagonalize": True}))
        for label, L, kw in reps:
            rho = np.max(np.abs(np.linalg.eigvals(L) if dense else L))
            for name in NAMES:
                if dense and (name not in S.FULL or (kw and name not in S.DIAGONALIZABLE)):
                    continue
                etd = None
                if dense and name in S.ETD and not kw:
                    # the contour of full ETD solvers has to enclose the spectrum of hL; quadrature on large ones is inaccurate
                    rad = max(1.0, 1.25 * rho * (w / 16 if name in S.ADAPTIVE else 1 / 16))
                    if rad > 6:
                        continue
                    etd = S.etd_config(rad=rad, npts=64)
                info = dict(cls=name, rep=label, L=L, u0=u0, t0=t0, tf=tf, gain=gain)
                if name in S.ADAPTIVE:
                    for eps in (1e-3, 1e-5, 1e-7):
                        # the same problem in other units of the state: nothing else may change
                        unit = 2.0 ** (0, 0, -44, 40)[j % 4]
                        poly = S.Poly(c["poly"], real)
                        s = S.make(name, L, (lambda v: poly(v / unit) * unit) if unit != 1 else poly, S.solver_config(epsilon=eps, adapt_cutoff=1e-9), etd, **kw)
                        a = s.evolve(u0 * unit, t0, t1) / unit
                        n = len(s.t)
                        ea = np.linalg.norm(a - at[mid])
                        # now the user suggests a first size: all at once, or a small one
                        b = s.evolve(a * unit, t1, tf, (tf - t1) * {1e-3: 1.0, 1e-5: 0.5, 1e-7: 1e-3}[eps]) / unit
                        eb = np.linalg.norm(b - at[w])
                        # each accepted step is off by at most epsilon of the state's size, amplified by the flow
                        bound = (0.05 if name == "ETD35" else 0.5) * eps * big * gain
                        ctx.case("tolerance:" + name, (name, label, c["u"], c["lam"], eps), True)
                        info.update(epsilon=eps, steps=(n - 1, len(s.t) - 1), errors=(ea, eb))
                        # where the leading error term happens to vanish the estimate misses it, while the step was grown at most fourfold
                        need(ea <= 256 * bound * n and eb <= 256 * bound * (n + len(s.t)), f"{name}/{label}: with tolerance {eps} the result is off by {max(ea, eb)}", **info)
                        ratios.setdefault((name, label), []).append((max(ea / (bound * n), eb / (bound * (n + len(s.t)))), dict(info)))
                        need(len(s.t) - 1 <= 16 + 2 * (w - mid) / 16 * (1 + rho) * eps ** -0.34, f"{name}/{label}: {len(s.t) - 1} steps with tolerance {eps}", **info)
                else:
                    E = []
                    for m in (1, 2, 4):
                        h = 1 / 16 / m
                        s = S.make(name, L, S.Poly(c["poly"], real), None, etd, **kw)
                        end = s.evolve(u0, t0, tf, h, True, m)
                        ctx.case("steps:" + name, (name, label, c["u"], c["lam"], m), True)
                        need(len(s.u) == w + 1, f"{name}/{label}: {len(s.u)} recorded states, expected {w + 1}", m=m, **info)
                        err = [np.linalg.norm(u - v) for u, v in zip(s.u, at)]
                        need(np.array_equal(end, s.u[-1]), f"{name}/{label}: the result is not the last recorded state", **info)
                        E.append(float(max(err)))
                    need(E[0] < 0.02 * gain * big, f"{name}/{label}: off by {E[0]} at step size 1/16", errors=E, **info)
                    p = ORDER[name]
                    if name == "ETD5" and (dense or np.ptp(L) != 0):
                        p = 4
                    if rho * max(1, np.max(np.abs(u0))) <= (8 if dense else 2.5):      # stiff problems may reduce the order
                        lm = np.abs(lam if dense else L) / 64
                        lm = lm[lm >= 0.01]
                        floor = 1e-14 + (1e-16 / float(lm.min()) ** 3 if name in S.ETD and label != "full" and lm.size else 0)
                        rows.setdefault((name, label, p), []).append((E, floor))
        ctx.sample(dict(L=reps[0][1], u0=u0, t0=t0, tf=tf, exact=at[w]))
    for (name, label), r in ratios.items():
        over = [x for x in r if x[0] > 1]
        if over:
            ctx.extra["beyond_tolerance"] = ctx.extra.get("beyond_tolerance", 0) + len(over)
        need(len(over) <= max(1, len(r) // 8), f"{name}/{label}: {len(over)} of {len(r)} results are farther off than the tolerance allows", worst=max(x[0] for x in r), **(over[0][1] if over else {}))
    for (name, label, p), r in rows.items():
        if len(r) < 5:
            continue
        q, E = rates([x for x, _ in r], [y for _, y in r])
        ctx.case(f"order-{label}:{name}", (name, tuple(E)), bool(q))
        ctx.extra.setdefault("observed", []).append((name, label, p, q))
        if q:
            need(max(q) > p - 0.5, f"{name}/{label}: the error of whole evolutions decays like h^{max(q):.2f} instead of h^{p}", totals=E, rates=q, problems=len(r))


PROPERTIES = {"C24": dict(
    suites=lambda ctx: [Suite("evolve", [job("flow.qnt", m, 60 if ctx.thorough else 16, seed=ctx.seed * 122949829 + 2 * r + b, invariant="longSafe", init="long", step="long")
                                         for r in range(24 if ctx.thorough else 4) for b, m in enumerate(("flow_vec", "flow_mat"))], replay_evolve)],
    level="model_checking",
    rule="a case is one evolution (class, representation, tolerance or step size) of a generated problem compared with its exact flow; distinct by these")}
