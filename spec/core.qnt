// -*- mode: Bluespec; -*-
// The controller driven by scripted trials: state vectors u and error vectors e from which the step factor
//     s = safety * (epsilon * |u'| / |e'|)^(1/q)
// is computed, where u', e' are the components of u, e whose size relative to the largest one exceeds adapt_cutoff.
module core {
  import fx.* from "./fx"
  import problem.* from "./problem"
  import control(SC = 2^128, NEAR = 10^10).* from "./control"
  import factor(FNEAR = 10^10).* from "./factor"

  type Config = { eps: int, safety: int, cut: int, q: int, stubborn: bool, ctl: Cfg, unit: int }
  // unit: all times and sizes (the minimal one, too) are multiplied by 2^unit
  // sc: all components are multiplied by 2^sc
  type Trial = { kind: str, u: Vec, e: Vec, sc: int }      // kind: "fin" | "nan" | "nanall" | "naninu" | "infinu" | "infe"
  type Factor = { v: Verdict, amb: bool }

  pure def factor(c: Config, t: Trial): Factor =
    // beyond 2^500 the norm of the state is not finite, either
    if (t.kind == "infe" and (t.sc < 500 or t.u.indices().forall(i => t.u[i] == C0))) { v: { fin: true, s: 0 }, amb: false }
    else if (t.kind != "fin") { v: { fin: false, s: 0 }, amb: false }
    else {
      val f = stepFactor(c.eps, c.safety, c.cut, c.q, t.u, t.e)
      { v: { fin: true, s: f.s }, amb: f.amb }
    }

  // ---- generation -----------------------------------------------------
  pure def genCfg(seed: int): Config = {
    val exact = below(seed, 1, 2) == 0
    { eps: if (exact) P / 2^(rin(seed, 2, 0, 20)) else rin(seed, 2, 1, 1000) * P / 10^(rin(seed, 3, 3, 9)),
      safety: if (exact) P else rin(seed, 4, 20, 63) * P / 64,
      cut: [0, P / 64, P / 100, P / 8, P / 2][below(seed, 5, 5)],
      q: if (exact) 1 else rin(seed, 6, 1, 5), stubborn: below(seed, 10, 8) == 0,
      ctl: { incr: [9 * P / 8, 5 * P / 4, 3 * P / 2, 2 * P, 6 * P][below(seed, 7, 5)],
             decr: [P / 2, 3 * P / 4, 7 * P / 8, 15 * P / 16, P / 8][below(seed, 8, 5)],
             minh: P / 2^([50, 60, 50, 12, 100, 100, 2][below(seed, 9, 7)]) },
      unit: [0, 0, -44, 40, -100][below(seed, 11, 5)] }
  }
  // mood 0: mixed, 1: mostly accepted, 2: mostly rejected, 3: only rejected
  pure def genTrial(c: Config, seed: int, mood: int, nn: int): Trial = {
    val k = below(seed, 1, 100)
    // wanted factor s as a ratio a/8
    val a = if (mood == 3 or (mood == 2 and k < 85)) rin(seed, 2, 4, 7)
            else if (mood == 1 and k < 90) [8, 9, 10, 12, 16, 24, 32, 64][below(seed, 2, 8)]
            else [1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 16, 32, 48, 400][below(seed, 2, 17)]
    val kk = below(seed, 3, 100)
    // the factor depends on ratios only; an infinite error is never acceptable, however large the state
    val sc = [0, 0, 0, 0, -400, -60, -30, 30, 400][below(seed, 90, 9)]
    if (kk < 6 and mood != 1) { sc: if (c.ctl.decr < P / 4) 0 else [0, 0, 400, 900, 1000][below(seed, 91, 5)], kind: ["nan", "naninu", "infinu", "nanall", "infe"][below(seed, 4, 5)], u: rvec(seed, 20, nn, 64, 64, false), e: if (below(seed, 8, 2) == 0) zvec(nn) else rvec(seed, 40, nn, 64, 64, false) }
    else if (kk < 12 and mood != 3) { sc: sc, kind: "fin", u: rvec(seed, 20, nn, 64, 64, false), e: zvec(nn) }
    else if (kk < 14 and mood != 1) { sc: sc, kind: "fin", u: zvec(nn), e: range(0, nn).foldl([], (l, i) => l.append((P / 4, P / 8))) }
    else if (c.q == 1 and c.safety == P) {
      // exact factor a/8: one component of size a*m with error 8*m*eps, the others exactly zero but wrong by a lot
      val w = below(seed, 5, nn)
      val m = rin(seed, 6, 1, 63)
      { sc: sc, kind: "fin", u: range(0, nn).foldl([], (l, i) => l.append(if (i == w) ((if (below(seed, 7, 2) == 0) a * m else -a * m) * P / 512, 0) else C0)),
        e: range(0, nn).foldl([], (l, i) => l.append(if (i == w) (8 * m * c.eps / 512, 0) else dy(seed, 30 + i, 64, 4).pairZero())) }
    } else {
      // error scaled to give a factor around a/8; small components carry large errors
      val big = range(0, nn).foldl([], (l, i) => l.append(if (below(seed, 60 + i, 3) == 0 and i > 0)
          (dy(seed, 20 + 2 * i, 64, 2^16), dy(seed, 21 + 2 * i, 64, 2^16)) else (rin(seed, 20 + 2 * i, 16, 64) * P / 64, dy(seed, 21 + 2 * i, 64, 64))))
      val amp = c.eps * (c.safety * 8 / a)^(c.q) / P^(c.q)
      { sc: sc, kind: "fin", u: big,
        e: range(0, nn).foldl([], (l, i) => l.append(if (below(seed, 60 + i, 3) == 0 and i > 0)
             (dy(seed, 40 + 2 * i, 64, 2), dy(seed, 41 + 2 * i, 64, 2)) else (amp * rin(seed, 40 + 2 * i, 16, 100) / 64, amp * rin(seed, 41 + 2 * i, -64, 64) / 64))) }
    }
  }
  pure def short(x: int): bool = abs(x) % 2^88 == 0
  pure def pairZero(x: int): Cx = (x, 0)

  var cfg: Config
  var st: St
  var trial: Trial            // the trial just made (kind "none" otherwise)
  var verdict: Factor
  var act: str
  var mood: int
  var nn: int
  var sound: bool
  pure val noTrial: Trial = { kind: "none", u: [], e: [], sc: 0 }
  pure val noFactor: Factor = { v: { fin: false, s: 0 }, amb: false }

  action init = { nondet seed = oneOf(0.to(2^48))
    all { cfg' = genCfg(seed), st' = fresh, trial' = noTrial, verdict' = noFactor, act' = "init", mood' = 0, nn' = rin(seed, 20, 1, 5), sound' = true } }
  action other(name: str, s: St, m: int): bool =
    all { st' = s, trial' = noTrial, verdict' = noFactor, act' = name, mood' = m, nn' = nn, sound' = true }
  action call(seed: int): bool = {
    val k = below(seed, 1, 20)
    val m = if (cfg.stubborn or below(seed, 2, 8) == 0) 3 else below(seed, 2, 3)
    val h = if (k < 2) 0 else rstep(seed, 3)
    if (k < 12) all { other("step", beginStep(st, h), m), cfg' = cfg }
    else if (k < 18) {
      val t0 = [0, 0, P, -P, 5 * P / 4, -3 * P][below(seed, 4, 6)]
      val len = [P, P / 2, 3 * P / 8, 10 * P, P / 10, 0, -P / 2, P / 3][below(seed, 5, 8)]
      val hi = if (len <= 0) P / 8 else [0, len / 2, len / 4, len, 2 * len, 3 * len / 8, len / 3, len / 10, len / 100][below(seed, 6, 9)]
      // the initial data of an evolution is a new state
      all { cfg' = cfg, other("evolve", beginEvolve({ ...st, cur: st.next, next: st.next + 1 }, t0, t0 + len, hi, below(seed, 7, 4) > 0, [1, 1, 1, 2, 3, 7][below(seed, 8, 6)]), if (m == 3) 3 else if (below(seed, 9, 2) == 0) 1 else m) }
    }
    // the user assigns other values to the configuration: they hold from the next trial on
    else if (k < 19) all { other("tune", st, m), cfg' = { ...genCfg(seed), q: cfg.q, unit: cfg.unit } }
    else all { cfg' = cfg, other("reset", doReset(st), m) }
  }
  action tryOnce(seed: int): bool = {
    val tr = genTrial(cfg, seed, mood, nn)
    val f = factor(cfg, tr)
    val s = doTrial(cfg.ctl, st, f.v)
    // t + h meets tf exactly only in exact arithmetic, unless all three are short binary fractions
    val meet = s.active and s.call.kind == "evolve" and s.call.tc + s.retS == s.call.tf and not(short(s.call.tc) and short(s.retS))
    all { st' = { ...s, amb: s.amb or f.amb or meet }, trial' = tr, verdict' = f, cfg' = cfg, act' = "trial", mood' = mood, nn' = nn,
          sound' = trialSound(cfg.ctl, st, f.v, s) }
  }
  action step = { nondet seed = oneOf(0.to(2^48))  if (st.active) tryOnce(seed) else call(seed) }
  val safe = sound and evolveSound(st)
}
