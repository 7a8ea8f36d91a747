P("C17", "Logging reports what happens and never influences it",
  "Results, records, failures and the evaluations of the nonlinear function do not depend on the log level, whatever the interval, the number of steps or the recording options. Each solver class has one logger whose level is the last valid one given (default WARNING, invalid names refused with ValueError); it gets one handler, and none if the user attached one. "
  "What appears at a level is the part of the full log at and above it, with warnings only about real problems and progress that never goes backwards or beyond 100%.",
  ["configurations", "histories"], "All sequences of solver constructions, level changes, user handlers and runs, all evolution parameters.",
  "Tests check level changes on one logger; the messages are computed inside the stepping loops and fail or alter results only for particular numbers of steps, intervals and levels.",
  ["rkstiff/util/loghelper.py", "rkstiff/solver.py", "rkstiff/solveras.py", "rkstiff/solvercs.py"], [("logger setup", "rkstiff/util/loghelper.py"), ("progress messages", "rkstiff/solvercs.py, rkstiff/solveras.py evolve")], observe=["loggers rkstiff.*", "evolve", "step"])
P("C18", "Configurations never hold an invalid value",
  "A SolverConfig or ETDConfig is constructed, and an attribute assigned, if and only if every value satisfies its documented constraint, at the limits and for special values (NaN, infinities, text, None, complex) and in every number form. A refused value raises ValueError or TypeError and leaves the object as it was; unspecified values are the documented defaults.",
  ["inputs", "histories"], "All sequences of constructions and assignments with all values on either side of every limit.",
  "Tests try one valid and one invalid value per parameter through one path; a limit off by one representable number, NaN or an unvalidated second path escapes them.",
  ["rkstiff/solveras.py", "rkstiff/etd.py"], [("property setters", "rkstiff/solveras.py SolverConfig, rkstiff/etd.py ETDConfig")], observe=["SolverConfig", "ETDConfig"])
P("C19", "Solvers are constructed from valid problems only, and as asked",
  "A solver is constructed if and only if its linear operator is a vector, or, for the classes that support it, a square matrix (when diagonalization is asked for, one with a condition number up to 10^16, with a warning above 1000); any other is refused with ValueError. "
  "The new solver uses the options given, positionally or by name, the documented defaults for the others, has an empty record, and reports its type (adaptive or constant step) truthfully.",
  ["inputs", "configurations"], "All classes, shapes, number types, conditions of the operator, combinations of options and calling conventions.",
  "Tests try single shapes for single classes; combinations of class, option and shape are many.",
  ["rkstiff/solver.py", "rkstiff/solveras.py", "rkstiff/solvercs.py", "rkstiff/util/solver_type.py"] + SCH, [("constructor validation", "rkstiff/*.py __init__"), ("solver types", "rkstiff/util/solver_type.py")], observe=["constructors", "solver_type", "config, etd_config", "logger"])
P("C20", "Grids have the promised points and wavenumbers",
  "Periodic grids have n points a + j(b - a)/n and wavenumbers 2 pi m/(b - a) in the order of the corresponding transform, for every even n > 2 and every interval, anything else being refused (TypeError, ValueError). A mirrored radial grid is the grid reflected at the origin, and mirrored data are even in it, along the axis asked for. Every result is the caller's own: editing it, or an argument afterwards, changes nothing handed out before or later.",
  ["inputs"], "All sizes, intervals (default, large, far from zero), argument types, data shapes, number types and axes.",
  "Tests look at a few sizes on the default interval; an off-by-one in length or sign or a drift for large n or shifted intervals escapes them.",
  ["rkstiff/grids.py"], [("grid construction", "rkstiff/grids.py construct_x_kx_rfft/fft, mirror_grid")], observe=["construct_x_kx_rfft, construct_x_kx_fft, mirror_grid"])
P("C21", "Spectral derivatives are exact for trigonometric polynomials",
  "dx_rfft and dx_fft return the derivative of every order of every trigonometric polynomial the grid resolves, for even and odd lengths and any period; real data keep real derivatives, the highest mode of an even grid dropping out at odd orders. Wrong orders, complex data for the real transform, and wavenumbers of the wrong length are refused, arguments are never modified, and a result depends on the present contents of the arguments only, not on earlier calls.",
  ["inputs"], "All lengths, periods, spectra and orders.",
  "Tests differentiate sines of low order; wrong handling of the highest mode, of odd lengths or high orders does not show there.",
  ["rkstiff/derivatives.py"], [("Fourier derivatives", "rkstiff/derivatives.py dx_rfft, dx_fft")], observe=["dx_rfft, dx_fft"])
P("C22", "Chebyshev differentiation is exact for polynomials",
  "The Chebyshev grid consists of the n + 1 extreme points of the Chebyshev polynomial from a to b, and its differentiation matrix, through dx_cheb with any order and any number of columns, differentiates every polynomial of degree up to n exactly. Sizes, orders and shapes that do not fit are refused with the documented exceptions; a result depends on the present contents of the arguments only, not on earlier calls.",
  ["inputs"], "All degrees, intervals, polynomials, orders and data shapes.",
  "Tests check smooth functions on a few grids, where interval scaling, orientation and the diagonal can compensate.",
  ["rkstiff/grids.py", "rkstiff/derivatives.py"], [("nodes and matrix", "rkstiff/grids.py construct_x_cheb, construct_x_dx_cheb"), ("derivative", "rkstiff/derivatives.py dx_cheb")], observe=["construct_x_cheb, construct_x_dx_cheb, dx_cheb"])
P("C23", "The Hankel transform stays consistent with its grid",
  "After any sequence of constructions and changes of nr and rmax the object's grids, zeros and matrix are those of the discrete Hankel transform for the current nr and rmax; ht and iht multiply by that matrix with its scale, restore each other, and transform Gaussians as the exact Hankel transform does. Refused values (ValueError) change nothing, what the caller does to returned arrays changes nothing, and grids handed out earlier keep their values.",
  ["inputs", "histories"], "All histories of size and radius changes, valid or not, interleaved with transforms of real or complex vectors and matrices.",
  "Tests change one parameter once; stale matrices or scale factors need a change followed by a transform.",
  ["rkstiff/transforms.py", "rkstiff/grids.py"], [("setters and matrix", "rkstiff/transforms.py HankelTransform"), ("zeros of J0", "rkstiff/grids.py construct_r_kr_hankel")], state=[("nr, rmax, r, kr, Y", "grids and matrix of the transform", "rkstiff/transforms.py")], observe=["HankelTransform", "construct_r_kr_hankel"])
P("C24", "Whole evolutions are as accurate as asked",
  "The result of an adaptive evolution differs from the true solution by no more than the tolerance per step, amplified as the problem amplifies perturbations, for every tolerance and magnitude of the state (as far as the error estimate is meaningful, that is but for isolated problems where its leading term vanishes), without needing excessively many steps. The states recorded by a constant-step evolution converge to the true solution at the order of the solver.",
  ["inputs", "configurations"], "All dissipative problems, stiff or not, in every representation of L, all intervals, tolerances and step sizes.",
  "Tests compare the end state of a few PDE runs at one tolerance each.",
  ["rkstiff/solveras.py", "rkstiff/solvercs.py"] + SCH, [("evolve, error control", "rkstiff/solveras.py, rkstiff/solvercs.py"), ("order used by the controller", "rkstiff/*.py _q")], observe=["evolve(...)", "solver.t, solver.u"])
P("C25", "The model problems are the equations they claim to be",
  "kdv_ops, burgers_ops and allen_cahn_ops return operators whose sum is the right-hand side of their equation, as a Fourier or Chebyshev collocation: the derivative of the solution in time. Solitons are exact solutions of KdV, several ones are their sum (unequal lengths are refused with ValueError), and every solver carries a soliton to its later position, conserving mass. Operators made for different grids or parameters do not affect each other, and what they return does not depend on earlier calls.",
  ["inputs"], "All grids, wavenumbers, parameters and states.",
  "Tests check shapes and a few values; a factor or sign error common to operator and initial condition keeps runs plausible.",
  ["rkstiff/models.py"], [("operators", "rkstiff/models.py *_ops"), ("solitons", "rkstiff/models.py kdv_soliton, kdv_multi_soliton")], observe=["kdv_ops, burgers_ops, allen_cahn_ops, kdv_soliton, kdv_multi_soliton"])
