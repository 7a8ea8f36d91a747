// -*- mode: Bluespec; -*-
// The solvers' caching, as designed: coefficients kept for one size, the evaluation at the new state kept for the next step,
// the evaluation at the old state kept for retries; and what happens to them when an evaluation or the coefficients fail at any point.
// Proved (exhaustively, the state space is finite, so for histories of any length): a trial that completes has used the
// coefficients of its own size and evaluations at its own state, and the number of evaluations is what hist.qnt expects of it.
//
// kind 0: constant step (ETD4, ETD5, IF4)   1: adaptive, last stage reused (ETD34, IF34, IF45DP)   2: adaptive, no reuse of it (ETD35)
module cache {
  var kind: int
  pure val STAGES = 3                       // evaluations of a trial beside the one at its start; their number does not matter
  pure val NOBODY = -1
  pure val evFirst = STAGES + 1
  val evNext = if (kind == 2) STAGES + 1 else STAGES
  pure val evRetry = STAGES
  pure val IDS = 0.to(3)                    // states; an accepted trial leads to another one
  pure val SIZES = 1.to(3)
  // the solver: size of the coefficients (0: none), is there an evaluation at the start, was the last trial accepted,
  // at which state N1, the last stage and the transformed state were taken
  var hc: int
  var coef: int                             // the size they really belong to (0: half made)
  var ready: bool
  var accept: bool
  var n1: int
  var last: int
  var v: int
  var u: int                                // the caller's state
  // the abstraction used in hist.qnt
  var cold: bool
  var acc: bool
  var loose: bool
  // the last trial: completed?, state and size it was made for, what it used, evaluations made
  type Trial = { done: bool, u: int, h: int, usedN1: int, usedV: int, usedH: int, evals: int, lo: int, hi: int }
  pure val noTrial: Trial = { done: false, u: 0, h: 0, usedN1: 0, usedV: 0, usedH: 0, evals: 0, lo: 0, hi: 9 }
  var t: Trial

  pure def succ(i: int): int = (i + 1) % 4
  action init = { nondet k = oneOf(0.to(2)) all { kind' = k, hc' = 0, coef' = 0, ready' = false, accept' = false, n1' = NOBODY, last' = NOBODY, v' = NOBODY, u' = 0,
                      cold' = true, acc' = false, loose' = false, t' = noTrial } }
  // the caller starts over: reset, then any state
  action restart(i: int): bool = all { kind' = kind, hc' = 0, coef' = coef, ready' = false, accept' = false, u' = i, n1' = n1, last' = last, v' = v,
                      cold' = true, acc' = false, loose' = false, t' = noTrial }
  // the coefficients cannot be computed
  action clash(h: int): bool = all { h != hc, kind' = kind, hc' = 0, coef' = 0, loose' = true, t' = noTrial,
                      ready' = ready, accept' = accept, n1' = n1, last' = last, v' = v, u' = u, cold' = cold, acc' = acc }
  // one trial of size h; the fault-th evaluation raises (0: none does; one more than there are: the arithmetic after the last one does);
  // good: is it accepted.  An adaptive solver forgets everything when a trial fails, for the last stage may be that of the failed trial.
  action trial(h: int, fault: int, good: bool): bool = {
    val isFirst = not(ready)
    val again = ready and kind == 2 and accept          // evaluated afresh at the start
    val startEvals = if (isFirst or again) 1 else 0
    val c = if (h == hc) coef else h
    val total = startEvals + STAGES
    val ok = fault == 0
    val gone = not(ok) and kind != 0
    val startOk = startEvals == 0 or fault != 1
    val n1b = if (startEvals == 1) (if (startOk) u else n1) else if (kind == 1 and accept) last else n1
    val vb = if (kind == 0) u else if (isFirst or accept) (if (startOk) u else v) else v
    all {
      fault <= (if (kind == 0) total else total + 1),
      kind != 0 or good,
      kind' = kind,
      hc' = if (gone) 0 else h,
      coef' = c,
      ready' = if (gone) false else (ready or startOk),
      v' = vb,
      n1' = if (ok and kind == 0) succ(u) else n1b,
      // the last stage of an adaptive trial is taken at its result, accepted or not
      last' = if (ok or fault > total) succ(u) else last,
      accept' = if (gone) false else if (ok and kind != 0) good else accept,
      u' = if (ok and good) succ(u) else u,
      cold' = if (ok) false else (cold and fault == 1),
      acc' = if (ok) good else (acc and not(cold)),
      loose' = if (not(ok)) true else if (good) false else loose,
      t' = { done: ok, u: u, h: h, usedN1: n1b, usedV: vb, usedH: c, evals: total,
             lo: if (loose) (if (kind == 0) evNext else evRetry) else if (cold) evFirst else if (kind == 0 or acc) evNext else evRetry,
             hi: if (loose) evFirst else if (cold) evFirst else if (kind == 0 or acc) evNext else evRetry } }
  }
  action step = any {
    { nondet i = oneOf(IDS) restart(i) },
    { nondet h = oneOf(SIZES) clash(h) },
    { nondet h = oneOf(SIZES) nondet f = oneOf(0.to(5)) nondet g = oneOf(Set(true, false)) trial(h, f, g) } }
  // a completed trial is a function of its state and size
  val faithful = t.done implies and { t.usedN1 == t.u, t.usedV == t.u, t.usedH == t.h }
  val counted = t.done implies t.lo <= t.evals and t.evals <= t.hi
  val current = hc != 0 implies coef == hc
  // what is kept belongs to the caller's state
  val owned = ready implies (if (kind == 1 and accept) last == u else if (kind == 2 and accept) true else n1 == u)
  val safe = faithful and counted and current and owned
}
