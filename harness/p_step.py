"""C01: one step of every solver is one step of the published scheme."""

import numpy as np

from common import Suite, close, cx, fl, job, mat, need, vec
import solvers as S

NAMES = ["ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34", "IF45DP"]


def step_tol(name, z, cutoff, scale):
    """rounding error of the scheme in double precision, generously; the direct psi_3 formula
    cancels like eps/|z|^3 down to the cutoff"""
    tol = 3e-12
    if name in S.ETD:
        big = np.abs(z)[np.abs(z) >= cutoff]
        if big.size:
            zm = min(1.0, float(big.min()))
            tol += 4e-14 / zm**3
    return tol * scale


def arrays(v, real, whole):
    return np.array([p[0] // (1 << 128) for p in v], dtype=int) if whole else vec(v, real)


def laid_out(a, layout):
    """the same values in another memory layout"""
    if layout == 1:                                     # every other entry of a larger array
        b = np.full(2 * a.size, 77, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if layout == 2:                                     # backwards in memory
        return a[::-1].copy()[::-1]
    if layout == 3:
        a = a.copy()
        a.setflags(write=False)
    if layout == 4:                                     # a column of a matrix
        b = np.full((a.size, 3), 77, dtype=a.dtype)
        b[:, 1] = a
        return b[:, 1]
    return a


def laid_out_matrix(a, layout):
    a = a.copy()
    if layout == 1:
        a = np.asfortranarray(a)
    if layout == 2:                                     # a block of a larger matrix
        b = np.full((a.shape[0] + 2, a.shape[1] + 3), 77, dtype=a.dtype)
        b[1:-1, 2:-1] = a
        a = b[1:-1, 2:-1]
    if layout == 3:
        a.setflags(write=False)
    if layout == 4:                                     # backwards in memory
        a = a[::-1, ::-1].copy()[::-1, ::-1]
    return a


def number(h, layout):
    return int(h) if layout % 2 and h == int(h) else np.float64(h) if layout in (2, 5) else h


def replay_onestep(ctx, tr):
    for st in tr:
        c, o = st["c"], st["o"]
        name = c["cls"]
        real, k, lay = c["real"], c["copies"], c["layout"]
        L = laid_out(np.tile(arrays(c["lam"], c["lreal"], c["intL"]), k), lay)
        u = laid_out(np.tile(arrays(c["u"], c["ureal"], c["intU"]), k), (lay * 5 + 2) % 6)
        h = number(fl(c["h"]), lay)
        want = np.tile(vec(o["u"]), k)
        poly = {key: v * k for key, v in c["poly"].items()}
        nl = S.Poly(poly, real)
        etd = S.etd_config(fl(c["cutoff"]), c["npts"], fl(c["rad"])) if c["npts"] else None
        cutoff = fl(c["cutoff"]) if c["npts"] else 0.01
        z = h * np.asarray(L, dtype=complex)
        grow = float(np.exp(np.clip(np.max(z.real), 0, 50)))
        scale = grow * (1 + np.max(np.abs(u)) + h * max(nl.size(u), nl.size(want), *(1.0,)))
        scale *= 1 + np.max(np.abs(want)) ** 3 * h
        tol = step_tol(name, z, cutoff, scale)
        ctx.case("step:" + name, (name, c["h"], c["lam"], c["u"]), True)
        u_in = u.copy()
        L_in = L.copy()
        # public API
        s = S.make(name, L, nl, S.solver_config(**S.HUGE), etd)
        if name in S.ADAPTIVE:
            got, hh, hs = s.step(u, h)
            need(hh == h, f"{name}: accepted step size differs from the suggestion although every error is tolerable", h=h, got=hh)
        else:
            got = s.step(u, h)
        info = dict(cls=name, L=L, u=u_in, h=h, cutoff=cutoff, want=want, got=np.asarray(got))
        need(close(got, want, tol), f"{name}: one step differs from the published scheme", tol=tol, err=np.max(np.abs(got - want)), **info)
        need(np.array_equal(u, u_in) and np.array_equal(L, L_in), f"{name}: step modified its inputs", **info)
        if name in S.ADAPTIVE:
            werr = np.tile(vec(o["err"]), k)
            s2 = S.make(name, L, S.Poly(poly, real), S.solver_config(), etd)
            got2, err = S.trial(name, s2, u, h)
            need(close(got2, want, tol), f"{name}: trial step differs from the published scheme", **info)
            ctx.case("err:" + name, (name, c["h"], c["lam"], c["u"], 1), bool(np.any(werr != 0)))
            need(close(err, werr, tol), f"{name}: error estimate differs from the embedded scheme", werr=werr, gerr=np.asarray(err), tol=tol, **info)
        ctx.sample({"cls": name, "L": L, "u": u, "h": h, "spec_u": want})


def c01_suites(ctx):
    n = 200 if ctx.thorough else 30
    k = 4 if ctx.thorough else 1
    return [Suite("onestep", [job("onestep.qnt", f"onestep_{i}", n, seed=ctx.seed * 7919 + 31 * i + 1000 * r, invariant="safe")
                              for i in range(7) for r in range(k)], replay_onestep)]


PROPERTIES = {
    "C01": dict(suites=c01_suites, level="model_checking",
                rule="a case is one step of one class on a generated problem (L, N, u, h, ETD configuration); distinct by inputs, "
                     "an error-estimate case is non-trivial when the exact estimate is not zero"),
}


# --------------------------------------------------------------------------
# C04: the representation of L does not matter
# --------------------------------------------------------------------------
def replay_dense(ctx, tr):
    for st in tr:
        c, o = st["c"], st["o"]
        name, kind, real = c["cls"], c["kind"], c["real"]
        k, lay = c["copies"], c["layout"]
        L = np.kron(np.eye(k), mat(c["L"], c["lreal"])) if k > 1 else mat(c["L"], c["lreal"])
        lam0 = np.tile(vec(c["lam"], c["lreal"]), k)
        u = laid_out(np.tile(vec(c["u"], c["ureal"]), k), (lay * 5 + 2) % 6)
        h = number(fl(c["h"]), lay)
        want = np.tile(vec(o["u"]), k)
        werr = np.tile(vec(o["err"]), k) if o["err"] else None
        poly = {key: v * k for key, v in c["poly"].items()}
        npts, rad = (c["npts"], fl(c["rad"])) if c["npts"] else (32, 1.0)
        etd = S.etd_config(0, c["npts"], rad) if c["npts"] else None
        nlx = S.Poly(poly, real)
        lam, V = np.linalg.eig(L.astype(complex))
        condV = np.linalg.cond(V)
        normz = float(np.linalg.norm(h * L, 2))
        grow = float(np.exp(np.clip(np.max(h * lam.real), 0, 50)))
        scale = grow * (1 + np.max(np.abs(u)) + h * max(nlx.size(u), nlx.size(want), 1.0)) * (1 + np.max(np.abs(want)) ** 3 * h)
        variants = []
        if name in S.ETD:
            if normz <= 0.5 * rad and kind != 1:
                variants.append(("full", None, 3e-11 + 1e3 * (normz / rad) ** npts))
        else:
            variants.append(("full", None, 1e-12 * (1 + normz) + 3e-12))
        if name in S.DIAGONALIZABLE and kind != 3 and condV < 1e4 and np.linalg.cond(L) < 1e12:
            zz = np.abs(h * lam)
            zm = min([1.0] + [float(x) for x in zz if x >= 0.0099])
            variants.append(("diagonalize", True, condV**2 * (1e-11 + (1e-13 / zm**3 if name in S.ETD else 0))))
            if kind != 1 and name in S.ETD and normz > 0.5 * rad:
                pass
        if kind == 2:
            zz = np.abs(h * lam0)
            zm = min([1.0] + [float(x) for x in zz if x >= 0.0099])
            variants.append(("vector", "vec", 1e-11 + (1e-13 / zm**3 if name in S.ETD else 0)))
        for label, diag, rtol in variants:
            nl = S.Poly(poly, real)
            arr = laid_out(lam0, lay) if diag == "vec" else laid_out_matrix(L, lay)
            kw = {"diagonalize": True} if diag is True else {}
            ctx.case(f"{label}:{name}", (name, label, c["h"], c["L"], c["u"]), True)
            s = S.make(name, arr, nl, S.solver_config(**S.HUGE), etd, **kw)
            u_in = u.copy()
            if name in S.ADAPTIVE:
                got, hh, _ = s.step(u, h)
                need(hh == h, f"{name}/{label}: step size changed", h=h, got=hh)
            else:
                got = s.step(u, h)
            tol = rtol * scale
            info = dict(cls=name, rep=label, L=L, u=u_in, h=h, want=want, got=np.asarray(got), tol=tol)
            need(close(got, want, tol), f"{name}: step with L given as '{label}' differs from the same step in any other representation",
                 err=np.max(np.abs(np.asarray(got) - want)), **info)
            need(np.array_equal(u, u_in) and (diag == "vec" or np.array_equal(arr, L)), f"{name}/{label}: inputs modified", **info)
            if name in S.ADAPTIVE:
                s2 = S.make(name, arr, S.Poly(poly, real), S.solver_config(), etd, **kw)
                got2, err = S.trial(name, s2, u, h)
                ctx.case(f"err-{label}:{name}", (name, label, c["h"], c["L"], c["u"], 1), bool(np.any(werr != 0)))
                need(close(got2, want, tol), f"{name}/{label}: trial step differs", **info)
                need(close(err, werr, tol), f"{name}: error estimate with L given as '{label}' differs from the same step in any other representation",
                     werr=werr, gerr=np.asarray(err), **info)
        if variants:
            ctx.sample({"cls": name, "kind": kind, "L": L, "u": u, "h": h, "spec_u": want})


def c04_suites(ctx):
    n = 200 if ctx.thorough else 50
    k = 16 if ctx.thorough else 4
    return [Suite("dense", [job("dense.qnt", f"dense_{i}", n, seed=ctx.seed * 104729 + 31 * i + 1000 * r)
                            for i in range(6) for r in range(k)], replay_dense)]


def c04_known(ctx):
    """the recorded findings: fixed inputs, reported while they still fail"""
    import json
    import os

    from common import VERIF, quint_run

    listed = [k for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["known"] if k["property"] == "C04"]
    tr = quint_run("dense.qnt", "dense_known", 1, 5, init="kinit", step="kstep")[0]
    for st in tr:
        c, o = st["kc"], st["ko"]
        name = c["cls"]
        if name not in {n for k in listed for n in k["classes"]}:
            continue
        L, u, h, want = mat(c["L"], True), vec(c["u"], True), fl(c["h"]), vec(o["u"])
        got = S.make(name, L, S.Poly(c["poly"], True), S.solver_config(**S.HUGE)).step(u, h)
        got = got[0] if name in S.ADAPTIVE else got
        ctx.case("known:" + name, name, True)
        if not close(got, want, 1e-9):
            ctx.known.append(f"{name} full matrix L=[[-50,10],[0,-40]] h=0.125: step gives {np.asarray(got).tolist()}, exact scheme {want.real.tolist()} (D8)")


PROPERTIES["C04"] = dict(suites=c04_suites, extra=c04_known, level="model_checking",
                         rule="a case is one step (or its error estimate) of one class with one representation of one generated L; distinct by inputs")


# --------------------------------------------------------------------------
# C02: the linear part is exact
# --------------------------------------------------------------------------
CNODES = {"ETD4": [1, 1, 3, 3], "ETD34": [1, 1, 3, 3], "ETD5": [0, 0, 1, 2, 3, 3], "ETD35": [0, 0, 1, 2, 3, 3]}


class Const:
    """a constant forcing; `shared`: one and the same array is handed out at every call (and belongs to the user)"""

    def __init__(self, c, shared=False):
        self.c, self.calls, self.shared = c, [], shared
        self.buf = c.copy()

    def __call__(self, u):
        self.calls.append(np.array(u, copy=True))
        return self.buf if self.shared else self.c.copy()


def psi_tol(z, cutoff, npts, rad):
    """rounding of the direct formulas at |z|, |z|/4 above the cutoff; contour rule below it"""
    az = np.abs(z)
    grow = np.exp(np.clip(z.real, 0, 60))
    big = 4e-16 * (1 + az) + 6e-15 / np.maximum(az, 1e-300) ** 3 * np.minimum(1, 1 + az)
    if npts:
        fact = 1.0
        for k in range(1, npts + 1):
            fact *= 2.0 * rad / k
        m = rad - cutoff
        small = 10 * fact + 1e-14 * np.exp(rad) / min(1.0, m) ** 3
    else:
        small = 1e-14
    return np.where(az >= cutoff, np.minimum(big, 1e9), small) * grow + 2e-14 * grow * (1 + np.minimum(az, 1e9))


def replay_linear(ctx, tr):
    from rkstiff import etd as etdmod

    for nst, st in enumerate(tr):
        c, o = st["c"], st["o"]
        real = c["real"]
        k = c["copies"]                                 # every component stands for itself, so copies of the problem do too
        L, u, con = (np.tile(vec(c[key], real), k) for key in ("lam", "u", "c"))
        h = fl(c["h"])
        z = h * L.astype(complex)
        etd = S.etd_config(fl(c["cutoff"]), c["npts"], fl(c["rad"])) if c["npts"] else None
        cutoff, npts, rad = (fl(c["cutoff"]), c["npts"], fl(c["rad"])) if c["npts"] else (0.01, 32, 1.0)
        hom = [np.tile(vec(x), k) for x in o["hom"]]
        inh = [np.tile(vec(x), k) for x in o["inh"]]
        grow = np.exp(np.clip(z.real, 0, 60))
        # e^z loses |z| ulps of phase
        etol = 4e-15 * (1 + np.abs(z)) * (np.abs(hom[3]) + 1e-36) + 1e-36
        for name in NAMES:
            for what in ("hom", "inh"):
                if what == "inh" and name not in S.ETD:
                    continue
                nl = Const(con if what == "inh" else np.zeros_like(u), shared=(nst + len(name)) % 2 == 0)
                s = S.make(name, L, nl, S.solver_config(**S.HUGE), etd)
                got = s.step(u, h)
                if name in S.ADAPTIVE:
                    got, hh, _ = got
                    need(hh == h, f"{name}: a step of a linear problem was not accepted", h=h, got=hh)
                ctx.case(f"{what}:{name}", (name, c["lam"], c["u"], c["h"]), True)
                want = hom[3] if what == "hom" else inh[3]
                need(np.array_equal(nl.buf, nl.c), f"{name}: a step overwrote the array the nonlinear function returned",
                     L=L, u=u, h=h, want=nl.c, got=nl.buf)
                tol = etol if what == "hom" else etol + h * np.max(np.abs(con)) * psi_tol(z, cutoff, npts, rad)
                need(close(got, want, tol), f"{name}: {'linear flow' if what == 'hom' else 'linear flow with constant forcing'} is not exact",
                     L=L, u=u, h=h, z=z, forcing=con, cutoff=cutoff, npts=npts, rad=rad, want=want, got=np.asarray(got), tol=tol,
                     err=np.abs(np.asarray(got) - want))
                if what == "inh" and len(nl.calls) >= 1 + len(CNODES[name]) - (name == "ETD35"):
                    # internal stages: each sits at a quarter point of the step
                    args = nl.calls[1:]
                    for j, a in zip(CNODES[name], args):
                        w = inh[j]
                        tl = 4e-15 * (1 + np.abs(z)) * (np.abs(hom[j]) + 1e-36) + 1e-36 + 4 * h * np.max(np.abs(con)) * psi_tol(z, cutoff, npts, rad)
                        ctx.case(f"stage:{name}", (name, j, c["lam"], c["u"], c["h"]), True)
                        need(close(a, w, tl), f"{name}: internal stage at {(j + 1)}/4 of the step is not exact for constant forcing",
                             L=L, u=u, h=h, z=z, want=w, got=a, tol=tl)
        # the psi functions themselves, away from their removable singularity
        idx = (np.abs(z) > 1e-3) & (np.arange(z.size) < c["n"])
        if np.any(idx):
            zz = z[idx]
            for r, f in ((1, etdmod.psi1), (2, etdmod.psi2), (3, etdmod.psi3)):
                w = np.array([cx(row[r]) for row, k in zip(o["psi"], idx) if k])
                az = np.abs(zz)
                tol = np.exp(np.clip(zz.real, 0, 60)) * (1e-14 + 1e-14 / np.minimum(az, 1) ** r)
                ctx.case(f"psi{r}", (r, c["lam"], c["h"]), True)
                need(close(f(zz), w, tol), f"psi{r} differs from r! phi_r", z=zz, want=w, got=f(zz))
        ctx.sample({"z": z, "u": u, "h": h, "exact": inh[3]})


def c02_suites(ctx):
    n = 150 if ctx.thorough else 45
    k = 24 if ctx.thorough else 8
    return [Suite("linear", [job("linear.qnt", "linear", n, seed=ctx.seed * 15485863 + 17 * r) for r in range(k)], replay_linear)]


PROPERTIES["C02"] = dict(suites=c02_suites, level="model_checking",
                         rule="a case is one step (or internal stage, or psi value) of one class on a generated linear problem, |z| from 0 to 2^20; distinct by inputs")


# --------------------------------------------------------------------------
# C03: order of accuracy against the exact flow
# --------------------------------------------------------------------------
ORDER = {"ETD4": 4, "ETD5": 5, "IF4": 4, "ETD34": 4, "ETD35": 5, "IF34": 4, "IF45DP": 5}
EST = {"ETD34": 4, "ETD35": 4, "IF34": 4, "IF45DP": 5}   # the estimate decays like h^EST


def rates(rows, floors):
    """observed orders of the summed errors over a whole behaviour: single problems may sit at a sign change of
    their leading error coefficient, their sum does not"""
    E = np.sum(np.array(rows), axis=0)
    f = 10 * float(np.sum(floors))
    return [float(np.log2(E[i] / E[i + 1])) for i in range(len(E) - 1) if E[i + 1] > f], E


def replay_flow(ctx, tr):
    grp = {}
    for st in tr:
        c, o = st["c"], st["o"]
        if o["rem"] > 1 << 78:
            continue
        real = c["real"]
        dense = bool(c["L"])
        u = vec(c["u"], real)
        exact = [vec(x) for x in o["at"]]
        hs = [fl(c["h"]) / 2**e for e in (0, 1, 2, 3, 5, 7)]
        reps = [("full", mat(c["L"], real), {})] if dense else [("vector", vec(c["lam"], real), {})]
        if dense:
            lamv, V = np.linalg.eig(reps[0][1])
            if np.linalg.cond(V) < 50 and np.linalg.cond(reps[0][1]) < 1e4:
                reps.append(("diagonalize", reps[0][1], {"diagonalize": True}))
        for label, L, kw in reps:
            for name in NAMES:
                if dense and (name not in S.FULL or (kw and name not in S.DIAGONALIZABLE)):
                    continue
                E, G = [], []
                for h, w in zip(hs, exact):
                    s = S.make(name, L, S.Poly(c["poly"], real), S.solver_config(**S.HUGE), None, **kw)
                    if name in S.ADAPTIVE:
                        got, err = S.trial(name, s, u, h)
                        G.append(float(np.linalg.norm(err)))
                    else:
                        got = s.step(u, h)
                    E.append(float(np.linalg.norm(got - w)))
                E, fine = E[:4], E[4:]
                G, fine_g = G[:4], G[4:]
                p = ORDER[name]
                if p == 5 and name in S.ETD and (dense or np.ptp(L) != 0):
                    p = 4   # the published ETD5 coefficients are of order 5 for commuting L and N' only (see DESIGN.md)
                # direct psi formulas cost up to ~1e-15/|z|^3
                floor = 1e-15
                if name in S.ETD and label != "full":
                    lm = np.abs(lamv if dense else L) * hs[3]
                    lm = lm[lm >= 0.01]
                    if lm.size:
                        floor += 1e-16 / float(lm.min()) ** 3 * hs[3]
                ctx.case(f"problem-{label}:{name}", (name, c["u"], c["lam"]), True)
                need(E[2] < 0.02 * (1 + np.max(np.abs(exact[2]))), f"{name}/{label}: not close to the exact solution", L=L, u=u, h=hs[2], errors=E)
                grp.setdefault((name, label, "error", p), []).append((E, floor))
                coarse = floor
                # and it keeps decaying like that down to rounding
                for e, x in zip((5, 7), fine):
                    if name in S.ETD and label != "full":
                        lm = np.abs(lamv if dense else L) * hs[0] / 2**e
                        lm = lm[lm >= 0.01]
                        floor = max(floor, 1e-16 / float(lm.min()) ** 3 * hs[0] / 2**e) if lm.size else floor
                    lim = 50 * max(E[i] / 2.0 ** ((e - i) * (p + 1)) for i in range(4)) + 100 * max(floor, 1e-16 if label != "diagonalize" else 1e-14) * (1 + np.max(np.abs(u)))
                    need(x <= lim, f"{name}/{label}: the error at h = {hs[0] / 2**e} is {x}, that of larger steps lets expect less than {lim}", L=L, u=u, errors=E + fine)
                    ctx.extra["fine"] = max(ctx.extra.get("fine", (0,)), (x / lim, name, label))
                if G:
                    need(G[0] > 0, f"{name}/{label}: error estimate vanishes on a nonlinear problem", L=L, u=u, h=hs, estimates=G)
                    grp.setdefault((name, label, "estimate", EST[name] - 1), []).append((G, coarse))
        ctx.sample({"L": reps[0][1], "u": u, "h": hs[0], "exact": exact[0]})
    for (name, label, what, p), rows in grp.items():
        if len(rows) < 6:
            continue
        r, E = rates([x for x, _ in rows], [x for _, x in rows])
        ctx.case(f"order-{what}-{label}:{name}", (name, p, tuple(E)), bool(r))
        ctx.extra.setdefault("observed", []).append((name, label, what, p + 1, r))
        if not r:
            continue
        need(max(r[-2:]) > p + 0.5, f"{name}/{label}: local {what} decays like h^{max(r[-2:]):.2f} instead of h^{p + 1}", totals=E, rates=r, problems=len(rows))
        if what == "estimate":
            need(r[-1] < p + 1.75, f"{name}/{label}: the error estimate decays like h^{r[-1]:.2f}, not h^{p + 1}: it is not of the embedded order",
                 totals=E, rates=r, problems=len(rows))


def c03_suites(ctx):
    n = 120 if ctx.thorough else 24
    k = 12 if ctx.thorough else 4
    return [Suite("flow", [job("flow.qnt", m, n, seed=ctx.seed * 32452843 + 17 * r + b, invariant=None)
                           for r in range(k) for b, m in enumerate(("flow_vec", "flow_mat"))], replay_flow)]


PROPERTIES["C03"] = dict(suites=c03_suites, level="model_checking",
                         rule="a case is the observed convergence of one class (solution or error estimate) over four step sizes on a generated problem "
                              "against its exact flow; non-trivial when at least one refinement is resolvable above rounding")
