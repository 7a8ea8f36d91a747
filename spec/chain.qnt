// -*- mode: Bluespec; -*-
// Whole adaptive runs, computed: the published scheme (schemes.qnt) under the documented controller (control.qnt), on generated
// problems.  Every trial's new state and error estimate are evaluated in 128-bit fixed point, the step factor follows from them
// (factor.qnt), and the controller moves on.  What a user sees of it - recorded times and states, sizes used and suggested,
// evaluations of N - is thereby determined, for runs of many steps.
module chain {
  import fx.* from "./fx"
  import schemes.* from "./schemes"
  import problem.* from "./problem"
  import control(SC = 2^128, NEAR = 1000).* from "./control"
  import factor(FNEAR = 1000).* from "./factor"

  const SCH: int        // index into ALL, an adaptive scheme
  type Opt = { eps: int, safety: int, cut: int, ctl: Cfg }
  // copies: the problem is presented that many times side by side (see onestep.qnt); the step factor is a ratio of norms and stays.
  // before: what the solver did before the run (0 nothing, 1 another run, 2 a long one cut short by a failure, 3 many single steps,
  // with other options, and a reset); none of it matters.
  // one: a sequence of single steps, each of the size suggested by the last (the options change in between), else an evolution
  type Case = { cls: str, real: bool, lam: Vec, poly: Poly, u: Vec, opt: Opt, one: bool, t0: int, tf: int, hi: int, store: bool, freq: int, rep: int, copies: int, before: int }
  // an accepted step: trials it took, size, suggestion, time reached, state, options in force
  type Done = { n: int, h: int, s: int, t: int, u: Vec, opt: Opt }
  // u: the state the next trial starts from; opt: the options in force; evals: evaluations of N so far; clear: no decision so
  // far was too close to call
  type Run = { c: Case, m: St, u: Vec, opt: Opt, done: List[Done], evals: int, clear: bool, over: bool, sound: bool }
  var x: Run

  pure def genOpt(seed: int): Opt =
    { eps: rin(seed, 2, 1, 100) * P / 10^(rin(seed, 3, 4, 7)), safety: [4 * P / 5, 9 * P / 10, P / 2, P][below(seed, 4, 4)],
      cut: [0, P / 100, P / 100, P / 8, P / 2][below(seed, 5, 5)],
      ctl: { incr: [9 * P / 8, 5 * P / 4, 5 * P / 4, 2 * P][below(seed, 7, 4)], decr: [P / 2, 17 * P / 20, 17 * P / 20, P / 8][below(seed, 8, 4)],
             minh: [P / 2^50, P / 2^50, P / 2^50, P / 64][below(seed, 9, 4)] } }
  pure def gen(seed: int): Case = {
    val n = rin(seed, 1, 1, 3)
    val real = below(seed, 6, 3) == 0
    val t0 = [0, 0, P, -5 * P / 4][below(seed, 10, 4)]
    val len = [P, P / 2, 3 * P, 3 * P / 8][below(seed, 11, 4)]
    { cls: ALL[SCH].name, real: real,
      lam: range(0, n).foldl([], (l, i) => l.append(reig(seed, 20 + 4 * i, [0, 1, 1, 4, 4, 7, 8, if (real) 1 else 5][below(seed, 50 + i, 8)], real))),
      poly: rpoly(seed, n, [0, 0, 4, 3][below(seed, 12, 4)], real), u: rvec(seed, 60, n, 64, 64, real),
      opt: genOpt(seed), one: below(seed, 13, 3) == 0, t0: t0, tf: t0 + len,
      hi: [0, len / 2, len / 8, 2 * len, len / 64][below(seed, 14, 5)], store: below(seed, 15, 8) > 0, freq: [1, 1, 1, 2, 3][below(seed, 16, 5)],
      rep: below(seed, 17, 3), copies: [1, 1, 1, 1, 2, 3, 17, 150][below(seed, 18, 8)],
      before: [0, 0, 0, 1, 1, 2, 3][below(seed, 19, 7)] }
  }
  pure def begin(k: Case): St =
    if (k.one) beginStep(fresh, if (k.hi == 0) P / 4 else k.hi) else beginEvolve(fresh, k.t0, k.tf, k.hi, k.store, k.freq)
  pure val sch: Scheme = ALL[SCH]
  pure def calm(v: Vec): bool = v.indices().forall(i => cinf(v[i]) < 2^148)
  // enough of the 128 fractional bits are left: a state that has all but vanished would be resolved better by floating point
  pure def visible(v: Vec): bool = v.indices().exists(i => cinf(v[i]) > 2^68)

  pure def evaluate(k: Case, h: int, w: Vec): { u: Vec, err: Vec } = {
    val f = diagFuncs(ALL[SCH], vmap(k.lam, x => cfmul(x, h)))
    val r = stepDiag(ALL[SCH], f, h, w, v => nlPoly(k.poly, v))
    { u: r.u, err: r.err }
  }
  pure def start(seed: int): Run = {
    val k = gen(seed)
    { c: k, m: begin(k), u: k.u, opt: k.opt, done: [], evals: 0, clear: true, over: false, sound: true }
  }
  // one trial
  pure def tryOnce(x: Run, seed: int): Run = {
    val h = x.m.call.h
    val r = evaluate(x.c, h, x.u)
    val fac = if (calm(r.u) and calm(r.err) and visible(r.u)) stepFactor(x.opt.eps, x.opt.safety, x.opt.cut, sch.q, r.u, r.err) else { s: 0, amb: true }
    val v: Verdict = { fin: true, s: fac.s }
    val s = doTrial(x.opt.ctl, x.m, v)
    val ok = accepts(v)
    val again = x.c.one and s.ended == "ok" and x.done.length() < 7
    // now and then the user changes the options between two steps
    val o2 = if (again and below(seed, 1, 4) == 0) genOpt(seed) else x.opt
    { c: x.c,
      m: if (again) beginStep(s, s.retS) else s,
      u: if (ok) r.u else x.u,
      opt: o2,
      done: if (ok) x.done.append({ n: x.m.call.trials + 1, h: h, s: s.retS, t: if (x.c.one) 0 else s.call.tc, u: r.u, opt: x.opt }) else x.done,
      evals: x.evals + (if (x.evals == 0) sch.evFirst else if (x.m.call.trials > 0) sch.evRetry else sch.evNext),
      clear: x.clear and not(fac.amb) and not(s.amb),
      over: if (again) false else (not(s.active) or x.done.length() > 30 or fac.amb or s.amb),
      sound: trialSound(x.opt.ctl, x.m, v, s) }
  }
  action init = { nondet seed = oneOf(0.to(2^48))  x' = start(seed) }
  action step = { nondet seed = oneOf(0.to(2^48))  x' = if (x.over) start(seed) else tryOnce(x, seed) }
  val safe = x.sound and evolveSound(x.m)
}
module chain_3 { import chain(SCH = 3).* from "./chain" }
module chain_4 { import chain(SCH = 4).* from "./chain" }
module chain_5 { import chain(SCH = 5).* from "./chain" }
module chain_6 { import chain(SCH = 6).* from "./chain" }
