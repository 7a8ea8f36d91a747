"""C05-C08: the adaptive controller; scripted trials replayed into the real control loop."""

import logging

import numpy as np

from common import Mismatch, Suite, fl, job, tlc, vec


class Stop(Exception):
    """end of the recorded behaviour"""


class ScriptUnderrun(Exception):
    pass


def scripted_class(name=""):
    from rkstiff.solveras import BaseSolverAS

    import solvers

    class ScriptedAS(solvers.cls(name) if name else BaseSolverAS):
        """Every trial step's outcome comes from a script."""

        script, seen, order = [], [], 1
        more = False

        def _reset(self):
            pass

        if not name:
            def _q(self):
                return self.order

        def _update_stages(self, u, h):
            self.seen.append((u, h))
            if not self.script:
                raise Stop() if self.more else ScriptUnderrun()
            return self.script.pop(0)

    return ScriptedAS


def arrays(tr):
    u, e = vec(tr["u"]), vec(tr["e"])
    u, e = u * 2.0 ** tr["sc"], e * 2.0 ** tr["sc"]
    k = tr["kind"]
    big = int(np.argmax(np.abs(u))) if len(u) else 0
    if k == "nan":
        e[big] = np.nan
    elif k == "nanall":
        e[:] = np.nan
        u[:] = np.nan
    elif k == "infe":
        e[big] = np.inf
    elif k == "naninu":
        u[big] = np.nan
    elif k == "infinu":
        u[big] = np.inf
    return u, e


def calls_of(tr):
    """group a behaviour into calls: (kind, state at the call, [(trial, state before, state after)])"""
    out = []
    for prev, st in zip(tr, tr[1:]):
        if st["act"] in ("step", "evolve", "reset", "tune"):
            out.append([st["act"], st, []])
        elif st["act"] == "trial":
            out[-1][2].append((st, prev["st"], st["st"]))
    return out


def relclose(a, b, scale=0.0, tol=2e-12):
    return abs(a - b) <= tol * max(abs(a), abs(b), scale)


class OtherAspect(Exception):
    """a deviation that belongs to another property: nothing after it can be compared"""


def replay_core(ctx, tr):
    def need(aspects, cond, msg, **info):
        if not cond:
            raise Mismatch(msg, **info) if ctx.prop in aspects.split() else OtherAspect()

    try:
        compare_core(ctx, tr, need)
    except OtherAspect:
        ctx.extra["left_to_other_properties"] = ctx.extra.get("left_to_other_properties", 0) + 1


def compare_core(ctx, tr, need):
    from rkstiff.solveras import SolverConfig

    c = tr[0]["cfg"]
    U = 2.0 ** c["unit"]
    tm = lambda x: fl(x) * U      # a time
    n = tr[0]["nn"]
    options = lambda c: dict(epsilon=fl(c["eps"]), incr_f=fl(c["ctl"]["incr"]), decr_f=fl(c["ctl"]["decr"]), safety_f=fl(c["safety"]),
                             adapt_cutoff=fl(c["cut"]), minh=tm(c["ctl"]["minh"]))
    cfg = SolverConfig(**options(c))
    # where the order is that of a scheme, let the scheme itself say so
    names = {4: ["", "ETD34", "ETD35", "IF34"], 5: ["", "IF45DP"]}.get(c["q"], [""])
    name = names[tr[1]["nn"] % len(names)] if len(tr) > 1 else ""
    cls = scripted_class(name)
    s = cls(np.zeros(n), lambda u: u, config=cfg)
    cls.order = c["q"]
    states = {0: np.full(n, 0.5 + 0.25j)}
    cur = 0
    for kind, st0, trials in calls_of(tr):
        # the initial data of an evolution
        if kind == "evolve":
            cur = st0["st"]["cur"]
            states[cur] = np.arange(n) + 1.0 + cur * 1j
        if kind == "reset":
            s.reset()
            need("C08", s.t == [] and s.u == [], "reset leaves recorded data behind", t=s.t)
            continue
        if kind == "tune":
            c = st0["cfg"]
            for key, v in options(c).items():
                setattr(s.config, key, v)
            continue
        if any(a["st"]["amb"] for a, _, _ in trials):
            return
        end = trials[-1][2] if trials else st0["st"]
        complete = not end["active"]
        script, seen = [], []
        for a, before, after in trials:
            u, e = arrays(a["trial"])
            states[before["next"]] = u
            script.append((u, e))
        cls.script, cls.seen, cls.more = script, seen, not complete
        k0 = st0["st"]["call"]
        info = dict(unit=U, config={k: getattr(s.config, k) for k in ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")}, q=c["q"], call=kind)
        u0 = states[cur]
        ret = exc = None
        try:
            if kind == "step":
                info.update(h=tm(k0["h"]))
                ret = s.step(u0, tm(k0["h"]))
            else:
                hi = st0["st"]["call"]["h"]
                # the requested initial size is recovered from the call: clamped sizes are requested clamped, unclamped or by default
                t0, tf = tm(k0["t0"]), tm(k0["tf"])
                left = k0["tf"] - k0["t0"]
                var = st0["st"]["next"] % 2
                if left > 0 and abs(hi * 100 - left) < 1000 and var == 0:
                    hinit = None
                elif hi == left and var == 0:
                    hinit = 2.5 * tm(hi)
                elif left <= 0:
                    hinit = [None, 0.125 * U][var]
                else:
                    hinit = tf - t0 if hi == left else tm(hi)
                info.update(t0=t0, tf=tf, h_init=hinit, store=k0["store"], freq=k0["freq"])
                args = {} if (k0["store"] and k0["freq"] == 1 and var) else dict(store_data=k0["store"], store_freq=k0["freq"])
                ret = s.evolve(u0, t0, tf, **({"h_init": hinit} if hinit is not None else {}), **args)
        except Stop:
            pass
        except ScriptUnderrun:
            info["tried"] = [h for _, h in seen]
            need("C06" if end["ended"] != "ok" else ("C05" if kind == "step" else "C05 C08"), False,
                 f"{kind}: another trial after the call should have {'returned' if end['ended'] == 'ok' else 'failed'}", **info)
        except (cls.MaxLoopsExceeded, cls.MinimumStepReached) as ex:
            exc = ex
        want_h = [tm(b["call"]["h"]) for _, b, _ in trials] + ([] if complete else [tm(end["call"]["h"])])
        want_u = [b["cur"] for _, b, _ in trials] + ([] if complete else [end["cur"]])
        got_h = [h for _, h in seen]
        info["tried"], info["expected"] = got_h, want_h
        info["factors"] = [None if not a["verdict"]["v"]["fin"] else fl(a["verdict"]["v"]["s"]) for a, _, _ in trials]
        tscale = max(abs(tm(k0["t0"])), abs(tm(k0["tf"]))) if kind == "evolve" else 0.0
        for i, (g, w) in enumerate(zip(got_h, want_h)):
            ok = relclose(g, w) or abs(g - w) < 1e-36 * U if kind == "step" else abs(g - w) <= 1e-36 * U + 2e-12 * max(abs(w), abs(g)) + 4e-15 * tscale * (1 + len(want_h))
            rej = i > 0 and trials[i - 1][1]["call"]["trials"] < trials[i - 1][2]["call"]["trials"] and trials[i - 1][2]["active"] and trials[i - 1][2]["call"]["trials"] > 0
            need("C06" if rej else ("C05" if kind == "step" else "C08" if i == 0 else "C07 C08"), ok, f"{kind}: trial {i} uses step size {g}, expected {w}" + (" (retry after a rejected trial)" if rej else ""), **info)
            need("C05", seen[i][0] is states[want_u[i]] or np.array_equal(seen[i][0], states[want_u[i]], equal_nan=True),
                 f"{kind}: trial {i} does not start from the last accepted state", **info)
            ctx.case("trial:" + kind, (kind, repr(c), i, got_h[i], info["factors"][i] if i < len(info["factors"]) else None), True)
        need("C05 C08" if kind == "evolve" and exc is None else ("C06" if exc else "C05"), len(got_h) == len(want_h), f"{kind}: {len(got_h)} trials, expected {len(want_h)}", **info)
        if not complete:
            return
        if end["ended"] in ("maxloops", "minstep"):
            both = end["call"]["trials"] >= 51 and end["call"]["h"] < c["ctl"]["minh"]
            good = exc is not None and (both or isinstance(exc, cls.MaxLoopsExceeded if end["ended"] == "maxloops" else cls.MinimumStepReached))
            need("C06", good, f"{kind}: expected failure '{end['ended']}', got {type(exc).__name__ if exc else 'a result'}", **info)
            need("C06", isinstance(exc, RuntimeError) and isinstance(exc, cls.SolverError), "solver failures are not SolverError", **info)
            ctx.case("gave-up:" + end["ended"], (repr(c), tuple(got_h)), True)
        else:
            need("C05 C06", exc is None, f"{kind}: failed with {type(exc).__name__} although a trial was acceptable", **info)
            last = states[end["cur"]]
            if kind == "step":
                need("C05", isinstance(ret, tuple) and len(ret) == 3, "step does not return (u, h, h_suggest)", ret=ret)
                need("C05", np.array_equal(ret[0], last, equal_nan=True), "step returns a state other than that of the accepted trial", **info)
                need("C05", ret[1] == got_h[-1], f"step reports size {ret[1]} but the accepted trial used {got_h[-1]}", **info)
                need("C07", relclose(ret[2], tm(end["retS"])), f"step suggests {ret[2]}, expected {fl(end['retS'])} after factor {info['factors'][-1]}", **info)
                ctx.case("accepted", (repr(c), ret[1], info["factors"][-1]), True)
            else:
                need("C05 C08", np.array_equal(ret, last), "evolve returns a state other than the last accepted one", **info)
        cur = end["cur"]
        if kind == "evolve":
            snaps = end["snaps"]
            need("C08", len(s.t) == len(s.u) == len(snaps), f"evolve recorded {len(s.t)} times and {len(s.u)} states, expected {len(snaps)}",
                 t=s.t, expected_t=[tm(x["t"]) for x in snaps], **info)
            for i, x in enumerate(snaps):
                w = tm(x["t"])
                if i == 0:
                    need("C08", s.t[0] == tm(k0["t0"]), f"first recorded time {s.t[0]} is not t0", **info)
                else:
                    need("C08", abs(s.t[i] - w) <= 2e-12 * max(abs(w), tscale) + 1e-300 * U, f"recorded time {i} is {s.t[i]}, expected {w}", **info)
                need("C08", np.array_equal(s.u[i], states[x["id"]]), f"recorded state {i} is not the state at that time", **info)
            if end["ended"] == "ok" and k0["store"] and k0["tf"] > k0["t0"] and end["call"]["steps"] % k0["freq"] == 0:
                need("C08", s.t[-1] == tm(k0["tf"]), f"evolution ends at {s.t[-1]!r}, not exactly at {fl(k0['tf'])!r}", **info)
            ctx.case("evolve", (repr(c), k0["t0"], k0["tf"], tuple(got_h)), True)
        ctx.sample({"call": kind, "config": info["config"], "tried": got_h, "factors": info["factors"], "ended": end["ended"]})


def tlc_control(ctx):
    """Exhaustive exploration of the controller specification at small scope (TLC on the compiled Quint module)."""
    bound = 5 if ctx.thorough else 3
    tlc(ctx, "control.qnt", "control_mc", f"st.next <= {bound}", bound_trials=bound - 1)


def core_suites(ctx):
    n = 400 if ctx.thorough else 60
    k = 24 if ctx.thorough else 8
    return [Suite("core", [job("core.qnt", "core", 90, traces=n, seed=ctx.seed * 6700417 + 13 * r, invariant="safe") for r in range(k)],
                  replay_core)]


RULE = "a case is one trial (its size and starting state), one accepted or abandoned step, or one evolution, replayed from the controller specification; distinct by configuration, sizes and factors"
PROPERTIES = {p: dict(suites=core_suites, extra=tlc_control, level="model_checking", rule=RULE) for p in ("C05", "C06", "C07", "C08")}
