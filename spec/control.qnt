// -*- mode: Bluespec; -*-
// The adaptive step-size controller as a state machine, one action per trial step.
//
//   step(u, h):    try h; a trial yields a candidate state and a step factor s (or none, when it is not finite);
//                  s >= 1 accepts, anything else retries with a smaller h, until it gives up
//   evolve(t0,tf): steps until the end time is reached exactly, never beyond it
//
// Times, step sizes and factors are integers over a common scale SC.
module control {
  const SC: int
  const NEAR: int      // relative resolution below which two numbers need not be told apart
  pure val MAXTRIALS = 51
  pure def lesser(a: int, b: int): int = if (a < b) a else b
  pure def greater(a: int, b: int): int = if (a > b) a else b
  pure def iabs(a: int): int = if (a < 0) -a else a
  // a and b are so close that floating point need not tell them apart
  pure def near(a: int, b: int): bool = a != b and iabs(a - b) * NEAR < iabs(a) + iabs(b)

  type Cfg = { incr: int, decr: int, minh: int }
  // the same for points of time of a call, whose resolution is that of its end points
  pure def nearTime(k: Call, a: int, b: int): bool = a != b and iabs(a - b) * NEAR < iabs(k.t0) + iabs(k.tf)
  // what one trial reports: fin = false for NaN/inf; otherwise the factor s
  type Verdict = { fin: bool, s: int }

  pure def accepts(v: Verdict): bool = v.fin and v.s >= SC
  pure def shrink(c: Cfg, v: Verdict, h: int): int =
    if (not(v.fin)) h / 4 else h * lesser(greater(v.s, SC / 4), c.decr) / SC
  pure def grow(c: Cfg, v: Verdict, h: int): int = {
    val s = lesser(v.s, 4 * SC)
    if (s > c.incr) h * s / SC else h
  }
  pure def ambiguous(c: Cfg, v: Verdict, h: int): bool =
    v.fin and (near(v.s, SC) or near(lesser(v.s, 4 * SC), c.incr))
      or (not(accepts(v)) and near(shrink(c, v, h), c.minh))

  // a call in progress
  type Call = { kind: str,             // "step" | "evolve"
                t0: int, tf: int, tc: int,
                h: int,                // size of the next trial
                h0: int,               // first size of the current step
                trials: int,           // trials of the current step so far
                steps: int,            // accepted steps of this call
                store: bool, freq: int }
  type Snap = { t: int, id: int }      // id of the state (number of the trial that produced it, 0: initial)
  type St = { active: bool, call: Call, cur: int, next: int, snaps: List[Snap],
              // last finished call
              ended: str,              // "" | "ok" | "maxloops" | "minstep"
              retH: int, retS: int,    // accepted size and suggestion of the last accepted step
              amb: bool }
  pure val noCall: Call = { kind: "none", t0: 0, tf: 0, tc: 0, h: 0, h0: 0, trials: 0, steps: 0, store: false, freq: 1 }
  pure val fresh: St = { active: false, call: noCall, cur: 0, next: 1, snaps: [], ended: "", retH: 0, retS: 0, amb: false }

  pure def beginStep(s: St, h: int): St =
    { ...s, active: true, call: { ...noCall, kind: "step", h: h, h0: h }, ended: "" }
  // evolve forgets everything recorded before; hinit <= 0 stands for "not given"
  pure def beginEvolve(s: St, t0: int, tf: int, hinit: int, store: bool, freq: int): St = {
    val hi = if (hinit <= 0) (tf - t0) / 100 else hinit
    val h = if (t0 + hi > tf) tf - t0 else hi
    { ...s, active: t0 < tf, ended: if (t0 < tf) "" else "ok",
      call: { kind: "evolve", t0: t0, tf: tf, tc: t0, h: h, h0: h, trials: 0, steps: 0, store: store, freq: freq },
      snaps: if (store) [{ t: t0, id: s.cur }] else [] }
  }
  pure def doReset(s: St): St = { ...s, snaps: [], ended: "", call: noCall }
  pure def doTrial(c: Cfg, s: St, v: Verdict): St = {
    val k = s.call
    val id = s.next
    if (accepts(v)) {
      val hs = grow(c, v, k.h)
      if (k.kind == "step")
        { ...s, active: false, cur: id, next: id + 1, ended: "ok", retH: k.h, retS: hs, call: { ...k, trials: k.trials + 1, steps: 1 },
          amb: ambiguous(c, v, k.h) }
      else {
        val tc = if (k.h == k.tf - k.tc) k.tf else k.tc + k.h
        val n = k.steps + 1
        val hn = if (tc + hs > k.tf) k.tf - tc else hs
        { ...s, active: tc < k.tf, ended: if (tc < k.tf) "" else "ok", cur: id, next: id + 1, retH: k.h, retS: hs,
          call: { ...k, tc: tc, h: hn, h0: hn, trials: 0, steps: n },
          snaps: if (k.store and n % k.freq == 0) s.snaps.append({ t: tc, id: id }) else s.snaps,
          amb: ambiguous(c, v, k.h) or (tc < k.tf and nearTime(k, tc + hs, k.tf)) or nearTime(k, tc, k.tf) }
      }
    } else {
      val hn = shrink(c, v, k.h)
      val n = k.trials + 1
      val why = if (n >= MAXTRIALS) "maxloops" else if (hn < c.minh) "minstep" else ""
      { ...s, active: why == "", ended: why, next: id + 1, call: { ...k, h: hn, trials: n }, amb: ambiguous(c, v, k.h) }
    }
  }

  // ---- guarantees of the controller, as predicates on a transition -------------------------------------
  // s --v--> t is one trial
  pure def trialSound(c: Cfg, s: St, v: Verdict, t: St): bool = and {
    // only acceptable trials move the state, and then the state is that trial's
    (t.cur != s.cur) iff accepts(v),
    t.cur == s.cur or t.cur == s.next,
    // a rejected trial only ever shrinks the step, by a bounded factor
    not(accepts(v)) implies t.call.h < s.call.h or s.call.h == 0,
    not(accepts(v)) implies t.call.tc == s.call.tc,
    // progress is exactly the accepted step
    accepts(v) and s.call.kind == "evolve" implies t.call.tc - s.call.tc == s.call.h,
    accepts(v) implies t.retH <= s.call.h0 and t.retS >= t.retH and t.retS <= 4 * t.retH,
    t.call.trials <= MAXTRIALS,
  }
  // every reachable state of an evolution
  pure def evolveSound(s: St): bool = {
    val k = s.call
    k.kind == "evolve" implies and {
      s.ended == "ok" implies (k.tc == k.tf or k.t0 >= k.tf),
      k.t0 < k.tf implies (k.tc >= k.t0 and k.tc <= k.tf),
      s.active implies (k.tc + k.h <= k.tf and k.tc < k.tf),
      k.store implies s.snaps.length() == 1 + k.steps / k.freq,
      not(k.store) implies s.snaps.length() == 0,
      s.snaps.indices().forall(i => i > 0 implies (s.snaps[i - 1].t < s.snaps[i].t and s.snaps[i - 1].id < s.snaps[i].id)),
      (k.store and k.freq == 1 and k.steps > 0) implies (s.snaps[s.snaps.length() - 1].t == k.tc and s.snaps[s.snaps.length() - 1].id == s.cur),
    }
  }
}

// Small-scope exhaustive instance (Apalache / TLC): scale 16, every verdict at every point.
module control_mc {
  import control(SC = 16, NEAR = 10000).* from "./control"
  pure val cfgs: Set[Cfg] = Set({ incr: 20, decr: 12, minh: 4 }, { incr: 72, decr: 2, minh: 5 }, { incr: 17, decr: 15, minh: 40 })
  pure val verdicts: Set[Verdict] = Set({ fin: false, s: 0 }, { fin: true, s: 0 }, { fin: true, s: 8 }, { fin: true, s: 15 },
                                        { fin: true, s: 16 }, { fin: true, s: 20 }, { fin: true, s: 32 }, { fin: true, s: 200 })
  var c: Cfg
  var st: St
  var ok: bool
  action init = { nondet cc = cfgs.oneOf()  all { c' = cc, st' = fresh, ok' = true } }
  action callStep = all { not(st.active), nondet h = Set(0, 16, 1600).oneOf()  st' = beginStep(st, h), c' = c, ok' = true }
  action callEvolve = all { not(st.active),
    nondet t0 = Set(-64, 0, 33).oneOf()
    nondet len = Set(-16, 0, 112, 1600).oneOf()
    nondet h = Set(0, 7, 160, 700).oneOf()
    nondet store = Set(true, false).oneOf()
    nondet f = Set(1, 2).oneOf()
    st' = beginEvolve(st, t0, t0 + len, h, store, f), c' = c, ok' = true }
  action resetA = all { not(st.active), st' = doReset(st), c' = c, ok' = true }
  action trial = all { st.active, nondet v = verdicts.oneOf() { val t = doTrial(c, st, v)  all { st' = t, c' = c, ok' = trialSound(c, st, v, t) } } }
  action step = any { callStep, callEvolve, resetA, trial }
  val safe = ok and evolveSound(st)
}
