"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Bounded: every generated behaviour of the specification is compared with the real code; inputs outside the generator's "
        "ranges are not covered. Trusts the Quint simulator, the fixed-point arithmetic of spec/fx.qnt (128 bits) and the float comparison tolerances in harness/.")
R = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="model_checking", technique="Quint specification; generated behaviours replayed on the real code", note=None):
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                  _level=level, _tech=technique, _note=note or NOTE))

SCH = ["rkstiff/etd4.py", "rkstiff/etd5.py", "rkstiff/if4.py", "rkstiff/etd34.py", "rkstiff/etd35.py", "rkstiff/if34.py", "rkstiff/if45dp.py"]

P("C01", "Every step is one step of the published scheme",
  "For a diagonal linear operator, one step of each of the seven solvers returns exactly (to rounding) what its published scheme prescribes: Krogstad's ETD4, the 5th-order ETD, classical RK4 and Dormand-Prince in integrating-factor form, and their embedded pairs. "
  "For the adaptive solvers the error estimate that drives the step size is the difference to the embedded lower-order method of the same publication.",
  ["inputs", "configurations"], "All linear operators (real, complex, integer; zero, tiny, stiff, oscillatory and mildly unstable modes), nonlinear functions, states, step sizes and contour settings.",
  "Tests compare a few PDE runs at loose tolerances; a wrong coefficient in one stage or in the error estimate keeps the run close to the solution.",
  SCH, [("coefficients and stages", "rkstiff/*.py _update_coeffs/_update_stages")], observe=["step(u, h)", "nl_func calls"])
P("C02", "The linear part is integrated exactly",
  "For u' = Lu every solver returns exp(hL)u, and the ETD solvers return the exact solution of u' = Lu + c, at every step size and stiffness: for |hL| from 0 through the small-mode switch to enormous values, for modes of mixed size in one operator, and at every internal stage. The public psi functions are r! phi_r.",
  ["inputs", "configurations"], "All diagonal operators and step sizes with exp(hL) representable, all states and constants, all valid contour settings.",
  "The tests use a handful of fixed operators; cancellation, a mode on the wrong side of the cutoff or a mixed-size operator shows only for particular magnitudes.",
  ["rkstiff/etd.py"] + SCH, [("psi functions and contour quadrature", "rkstiff/etd.py, rkstiff/etd*.py"), ("mode cutoff", "rkstiff/etd*.py")], observe=["step(u, h)", "psi1, psi2, psi3"])
P("C03", "Solvers converge to the true solution at their order",
  "The error of one step against the exact solution decreases with the step size at the advertised order of each solver, and the adaptive solvers' error estimates decrease at the order the step-size control assumes. This holds for diagonal, full and diagonalized operators.",
  ["inputs"], "All smooth problems u' = Lu + N(u), stiff or not, in every representation of L.",
  "The convergence tests run one or two PDEs per solver, where a dominated error term hides a lost order.",
  SCH, [("stage coefficients", "rkstiff/*.py _update_stages")], observe=["step(u, h)"])
P("C04", "The representation of the linear operator does not matter",
  "A step, and its error estimate, are the same whether the linear operator is given as a vector, as a full matrix, or as a full matrix with diagonalization, whatever the basis, for real and complex, normal, non-normal and defective operators.",
  ["inputs", "configurations"], "All square operators, with the psi contour enclosing the spectrum of hL for full-matrix ETD solvers, and diagonalizable ones for diagonalization.",
  "Tests use one diagonal matrix or one Chebyshev operator; a transposed, unsymmetrised or eigenbasis quantity agrees there or stays below the tolerances.",
  SCH, [("matrix, diagonal and diagonalized strategies", "rkstiff/etd34.py, rkstiff/etd35.py, rkstiff/if34.py and the full strategies of the others")], observe=["step(u, h)"])
P("C05", "An adaptive step returns a trial that met the tolerance",
  "An adaptive step returns the state, and the size, of the first trial whose scaled error is acceptable; rejected trials leave no trace, non-finite trials are never accepted, and a trial with zero error always is. Every retry starts from the state passed in.",
  ["inputs", "histories", "configurations"], "All sequences of trial outcomes (states and error vectors, zero, tiny, NaN and infinite ones included), all controller configurations, all step sizes.",
  "Outcome sequences such as reject-NaN-reject-accept, or errors confined to masked components, do not occur in the test problems.",
  ["rkstiff/solveras.py"], [("step and error factor", "rkstiff/solveras.py step/_compute_s")], observe=["step(u, h)"])
P("C06", "Unacceptable trials shrink the step within bounds, then fail",
  "A rejected trial is retried with a size reduced by a factor between 1/4 and the configured decrement, a non-finite one with a quarter. A step that never becomes acceptable ends with MinimumStepReached as soon as the size is below the minimum, or with MaxLoopsExceeded after 51 trials, never with a result or an endless loop.",
  ["inputs", "histories", "configurations"], "All sequences of unacceptable trials and all controller configurations.",
  "Tests drive each failure once with a constant factor; bounds in mixed sequences and the order of the two limits are not exercised.",
  ["rkstiff/solveras.py"], [("rejection and limits", "rkstiff/solveras.py step")], observe=["step(u, h)", "SolverError subclasses"])
P("C07", "The next suggested step never shrinks and grows at most fourfold",
  "After an accepted trial with factor s the suggested size is the accepted one when s is at most the configured growth threshold, and min(s, 4) times it beyond that; the suggestion depends on nothing else. The factor uses the order of the scheme's error estimate (exponent 1/4 for ETD34, ETD35 and IF34, 1/5 for IF45DP).",
  ["inputs", "histories", "configurations"], "All accepted trials, factors, configurations and preceding histories.",
  "The boundary cases (factor at the threshold, above 4, threshold above 4, zero error, masked components) need scripted errors.",
  ["rkstiff/solveras.py"], [("growth rule", "rkstiff/solveras.py step/_compute_s")], observe=["step(u, h)[2]"])
P("C08", "Adaptive evolution covers the interval exactly and records it truthfully",
  "An adaptive evolution starts at t0, moves only by accepted steps, never passes the end time and ends exactly at it, returning the state there. The record holds t0 and every store_freq-th accepted step with its own time and state, strictly increasing, nothing from earlier runs, and nothing when storing is off.",
  ["inputs", "histories", "configurations"], "All intervals (negative times, empty and reversed ones included), initial sizes, accept/reject sequences, recording options and earlier calls.",
  "Tests check lengths for a few runs; sliver steps, overshoot by rounding, rejections in the clipped last step and stale records need particular sequences.",
  ["rkstiff/solveras.py"], [("evolve", "rkstiff/solveras.py evolve")], state=[("t, u", "record of the last evolution", "rkstiff/solver.py")], observe=["evolve(...)", "solver.t, solver.u"])
P("C09", "Constant-step evolution walks the exact grid",
  "A constant-step evolution takes the least number of steps that reaches the end time up to rounding, at times t0 + k h, returns the state after the last of them, and records t0 and every store_freq-th step with its own state. A step larger than the interval is refused with ValueError.",
  ["inputs", "configurations"], "All t0, tf, h (representable or not, far from zero, whole or fractional numbers of steps) and recording options.",
  "Accumulated rounding takes an extra step or refuses a valid one only for particular combinations of t0, tf and h.",
  ["rkstiff/solvercs.py"], [("evolve", "rkstiff/solvercs.py evolve")], observe=["evolve(...)", "solver.t, solver.u"])
P("C10", "Recorded and returned data are never changed afterwards",
  "States and records handed out by a step or an evolution keep their values through every later operation on any solver; a single step records nothing; reset and a new evolution start an empty record of their own.",
  ["histories"], "All sequences of steps, evolutions, failures, resets and constructions on several solvers.",
  "Needs sequences in which an internal buffer is reused after it was handed out; tests inspect results immediately.",
  ["rkstiff/solver.py", "rkstiff/solveras.py", "rkstiff/solvercs.py"] + SCH, [("record lists, stage buffers", "rkstiff/*.py")], observe=["solver.t, solver.u", "returned arrays"])
P("C11", "Evolving equals stepping",
  "An evolution yields the same states as the corresponding single steps made one by one by a new solver, whatever the solver did before: other evolutions, steps of other sizes, failures, rejected trials.",
  ["histories", "inputs"], "All histories of a solver, all intervals, sizes and accept/reject plans.",
  "Needs a long prior history and a comparison with fresh solvers at each step; tests evolve fresh solvers only.",
  ["rkstiff/solveras.py", "rkstiff/solvercs.py"] + SCH, [("reset at the start of evolve, FSAL and coefficient caches", "rkstiff/*.py")], observe=["evolve(...)"])
P("C12", "A step depends only on its state and size, not on the solver's history",
  "A step of size h from the solver's current state gives the same result as the same step by a newly constructed solver, after any sequence of other sizes, rejected trials, evolutions, resets, controller changes and work done by other solvers. Caching of coefficients and of evaluations is never visible in results.",
  ["histories", "inputs"], "All histories of operations with any mixture of step sizes, on all solvers and representations.",
  "Stale coefficients or stale evaluations need a specific order of sizes, rejections and resets.",
  SCH + ["rkstiff/etd.py"], [("coefficient cache keyed by h, first-same-as-last evaluation", "rkstiff/*.py")], observe=["step(u, h)"])
P("C13", "An adaptive run takes the steps its options and scheme prescribe",
  "What an adaptive solver does in a whole run follows from the problem and the options alone: the published scheme gives each trial's state and error estimate, the tolerance, safety factor and cutoff turn them into a step factor, and the documented rules accept or reject, resize, clamp and stop. "
  "So the recorded times and states, the sizes taken and suggested, the number of evaluations of the nonlinear function and the way a run ends are those of the published method under the documented controller, also when the options change between steps.",
  ["inputs", "configurations", "histories"], "All problems, intervals, initial sizes, recording options and controller options, for every adaptive solver and every representation of the operator, as long as no decision is a matter of rounding.",
  "Tests check runs against loose accuracy bounds, which a wrong exponent, norm, safety factor or clamp also meets: the run only becomes longer or less accurate than configured.",
  ["rkstiff/solveras.py"] + SCH[3:], [("step factor and exponent 1/q", "rkstiff/solveras.py _compute_s, rkstiff/*.py _q"), ("step and evolution loops", "rkstiff/solveras.py step/evolve"), ("embedded error estimates", "rkstiff/*.py _update_stages")],
  observe=["solver.t, solver.u", "evolve", "step(u, h)", "nl_func calls"])
P("C14", "A failed operation does not corrupt the solver",
  "An exception from the nonlinear function, at any evaluation, reaches the caller unchanged, and so does a failure of the arithmetic (floating-point errors made exceptions), a failure to compute the coefficients or to find an acceptable step, and a refusal. Afterwards every step, evolution and reset works as on a solver that never failed, and a failed evolution's record is a true beginning of that evolution.",
  ["fault_sequences", "histories"], "All evaluations at which the nonlinear function may raise, in the first or any later step, retry or evolution, and all operations afterwards.",
  "Each fault point leaves different partially updated caches; tests never raise from inside a step and continue.",
  SCH + ["rkstiff/solveras.py", "rkstiff/solvercs.py"], [("order of cache updates within a step", "rkstiff/*.py")], observe=["step, evolve after an exception"])
P("C15", "The nonlinear function is evaluated exactly as often as the scheme needs",
  "Every solver evaluates the nonlinear function as often as its scheme requires: the evaluation at the new state is reused by the next step, the evaluation at the old state by every retry, and nothing is reused across reset or a new evolution.",
  ["histories"], "All sequences of steps, rejected trials, size changes, resets and evolutions.",
  "Counting tests cover at most a few accepted steps; lost or stale reuse shows after specific accept/reject sequences.",
  SCH, [("first-same-as-last cache", "rkstiff/*.py step/_update_stages")], observe=["calls of nl_func"])
P("C16", "Solvers are isolated from each other and from their inputs",
  "No operation modifies the linear operator, the state passed in, the arrays the nonlinear function returned, or a configuration; no solver's results, record or configuration change because other solvers are constructed, configured or run, and a new solver always starts from the documented defaults. Settings of the whole process (floating-point error handling, warning filters, random numbers, the root logger, environment) stay as they are.",
  ["histories"], "All interleavings of operations on several solvers of the same or different classes sharing operators.",
  "Shared mutable defaults and module-level caches show only when two solvers interleave.",
  ["rkstiff/solveras.py", "rkstiff/etd.py"] + SCH, [("per-instance configuration and caches", "rkstiff/solveras.py, rkstiff/etd.py")], observe=["config, etd_config, lin_op, u0"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")) else None
R.sort(key=lambda r: r["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in R:
        f.write(json.dumps({k: v for k, v in r.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="quint --version && /opt/venv/bin/python -c 'import numpy, scipy'",
         checks=[dict(property=r["id"], quick_cmd=f"./check {r['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {r['id']} --thorough",
                      evidence_file=f"evidence/{r['id']}.json", technique=r["_tech"], level=r["_level"], level_note=r["_note"]) for r in R],
         not_applicable=[], notes="Specifications in spec/*.qnt (Quint), replay harness in harness/. No hooks: the code under test is imported from /repo unmodified.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
