// -*- mode: Bluespec; -*-
// Histories of public operations on several live solvers, and what each result may depend on.
//
// The value of a state is symbolic: the initial vector and the sizes of the steps taken from it.  Whatever a solver
// did before - other step sizes, rejected trials, failures, resets, evolutions, other solvers working in between -
// a step of size h from value v yields the value v.h, which the harness computes with a new solver.
//
// The cached knowledge of a solver is modelled only as far as it shows: in how often N is evaluated.
module hist {
  import problem.* from "./problem"
  import schemes.* from "./schemes"

  // lengths and times are in units of 2^-40
  pure val U = 2^40
  type Val = { init: int, path: List[int] }
  type Snap = { t: int, v: Val }
  type Inst = { cls: int, rep: int, prob: int,      // rep 0: vector, 1: matrix, 2: matrix, diagonalized; prob 10 + p: many copies of problem p side by side
                etd: int,                           // which ETD configuration
                ts: int,                            // the problem runs 2^ts times as fast, all sizes and times being 2^ts times smaller
                nk: int,                            // N: 0 polynomial, 1 one constant array, 2 returns its argument, 3 zero
                grow: bool,                         // may the controller enlarge steps
                low: bool,                          // the decrement factor is below the controller's own limit
                cold: bool, acc: bool,              // nothing evaluated yet / the last trial was accepted
                loose: bool,                        // an operation failed: cached evaluations may or may not survive
                usable: bool, v: Val,               // the next step starts from v
                rec: List[Snap] }
  type Op = { name: str, i: int, h: int, r: int, k: int, t0: int, tf: int, store: bool, freq: int, plan: List[int],
              // expected: did it complete, size used, suggested size, evaluations of N between lo and hi (hi < 0: any)
              ok: bool, used: int, sug: int, lo: int, hi: int, rec: List[Snap] }
  pure val noOp: Op = { name: "init", i: 0, h: 0, r: 0, k: 0, t0: 0, tf: 0, store: false, freq: 1, plan: [], ok: true, used: 0, sug: 0, lo: 0, hi: -1, rec: [] }

  pure def sch(x: Inst): Scheme = ALL[x.cls]
  pure def adaptive(x: Inst): bool = isAdaptive(sch(x))
  pure def ext(v: Val, h: int): Val = { ...v, path: v.path.append(h) }
  // evaluations of N in the next trial / step
  pure def evals(x: Inst): int =
    if (x.cold) sch(x).evFirst else if (not(adaptive(x))) sch(x).evNext else if (x.acc) sch(x).evNext else sch(x).evRetry
  pure def suggestion(x: Inst, h: int): int = if (x.grow) 4 * h else h

  // a step with r rejected trials (each divides the size by 4)
  pure def doStep(x: Inst, h: int, r: int): { x: Inst, op: Op } = {
    val used = h / 4^r
    val n = evals(x) + r * sch(x).evRetry
    { x: { ...x, v: ext(x.v, used), cold: false, acc: true, loose: false },
      op: { ...noOp, name: "step", h: h, r: r, used: used, sug: suggestion(x, used),
            lo: if (x.loose) (r + 1) * (if (adaptive(x)) sch(x).evRetry else sch(x).evNext) else n,
            hi: if (x.loose) sch(x).evFirst + r * sch(x).evRetry else n } }
  }
  // N raises at its k-th evaluation in this operation, after some rejected trials
  pure def doFault(x: Inst, h: int, r: int, k: int): { x: Inst, op: Op } = {
    val first = evals(x)
    { x: { ...x, cold: x.cold and k == 1, acc: x.acc and k <= first and not(x.cold), loose: true },
      op: { ...noOp, name: "fault", h: h, r: r, k: k, ok: false } }
  }
  // the k-th evaluation of N returns values so large that the arithmetic of the trial or of its error overflows, floating-point errors
  // being made exceptions: the step fails, wherever that happens, and leaves nothing behind
  pure def doHuge(x: Inst, h: int, k: int): { x: Inst, op: Op } =
    { x: { ...x, loose: true, cold: x.cold, acc: false }, op: { ...noOp, name: "huge", h: h, k: k, ok: false } }
  // An operation that is refused (an evolution over less than its step size, an adaptive step of negative size) has no effect
  // beyond that of a reset.
  pure def doRefuse(x: Inst, h: int, t0: int, len: int): { x: Inst, op: Op } =
    { x: { ...x, loose: true }, op: { ...noOp, name: "refuse", h: h, t0: t0, tf: t0 + len, ok: false } }
  pure def doGiveUp(x: Inst, h: int): { x: Inst, op: Op } =
    { x: { ...x, cold: false, acc: false, loose: true }, op: { ...noOp, name: "giveup", h: h, ok: false } }

  type Ev = { tc: int, h: int, v: Val, rec: List[Snap], n: int, rej: int, done: bool }
  // adaptive: plan[j] trials of step j are rejected; constant: the grid
  pure def doEvolve(x: Inst, init: int, t0: int, len: int, h0: int, plan: List[int], store: bool, freq: int, most: int): { x: Inst, op: Op } = {
    val v0 = { init: init, path: [] }
    val tf = t0 + len
    val s0: Ev = { tc: t0, h: if (adaptive(x) and h0 > len) len else h0, v: v0, rec: if (store) [{ t: t0, v: v0 }] else [], n: 0, rej: 0, done: false }
    val e = range(0, most).foldl(s0, (s, j) =>
      if (s.tc >= tf) { ...s, done: true } else {
        val r = if (adaptive(x) and j < plan.length()) plan[j] else 0
        val used = s.h / 4^r
        val tc = s.tc + used
        val hs = suggestion(x, used)
        val v = ext(s.v, used)
        val n = s.n + 1
        { tc: tc, h: if (not(adaptive(x))) s.h else if (tc + hs > tf) tf - tc else hs, v: v, n: n, rej: s.rej + r, done: tc >= tf,
          rec: if (store and n % freq == 0) s.rec.append({ t: tc, v: v }) else s.rec }
      })
    val cnt = if (e.n == 0) 0 else sch(x).evFirst + (e.n - 1) * sch(x).evNext + e.rej * sch(x).evRetry
    { x: { ...x, v: e.v, rec: e.rec, cold: e.n == 0, acc: e.n > 0, loose: false, usable: true },
      op: { ...noOp, name: "evolve", h: h0, t0: t0, tf: tf, plan: plan, store: store, freq: freq, lo: cnt, hi: cnt, ok: e.done, used: e.n, rec: e.rec } }
  }

  // Problem 6: at size U/4 the default contour (radius 1) passes exactly through the spectrum of hL, so the
  // coefficients cannot be computed.  With radius 4 (etd 3) they can.
  pure def fragile(x: Inst): bool = x.prob == 6
  pure def doClash(x: Inst): { x: Inst, op: Op } =
    { x: { ...x, loose: true }, op: { ...noOp, name: "clash", h: U / 4, ok: false } }
  // With floating-point errors made exceptions, the exponentials of a huge size cannot be computed, however often one tries.
  pure def doOverflow(x: Inst): { x: Inst, op: Op } =
    { x: { ...x, loose: true }, op: { ...noOp, name: "overflow", h: U * 2^20, ok: false } }

  // ---- generation -----------------------------------------------------
  // other: the class of another solver, which this one shares now and then
  pure def newInst(seed: int, other: int): Inst = {
    val cls = if (other >= 0 and below(seed, 8, 3) == 0) other else below(seed, 1, 7)
    val full = cls != 6 and below(seed, 2, 2) == 0
    val sick = full and [0, 1, 3, 4].indices().exists(i => [0, 1, 3, 4][i] == cls) and below(seed, 7, 3) == 0
    val k = if (sick or below(seed, 320, 5) < 3) 0 else rin(seed, 321, 1, 3)
    val nk = if (k == 3 and below(seed, 4, 6) == 4) 1 else k       // problem 4 may have L = 0
    { cls: cls, prob: if (sick) 6 else below(seed, 4, 6) + (if (below(seed, 323, 5) == 0) 10 else 0), etd: if (sick) 0 else below(seed, 6, 4),
      rep: if (sick) 1 else if (not(full)) 0 else if ((cls == 3 or cls == 4 or cls == 5) and below(seed, 3, 2) == 0) 2 else 1,
      ts: if (nk == 2) 0 else [0, 0, 0, 24, -24, 60][below(seed, 322, 6)], nk: nk,
      grow: true, low: false, cold: true, acc: false, loose: false, usable: true, v: { init: start(seed, 5, nk), path: [] }, rec: [] }
  }
  // without a source the zero state stays where it is
  pure def start(seed: int, i: int, nk: int): int = { val k = below(seed, i, 4)  if (k == 2 and nk >= 2) 0 else k }
  // 1/64 .. 1/8, sometimes tiny
  pure def hsize(seed: int, i: int): int = if (below(seed, i + 300, 12) == 0) rin(seed, i + 301, 1, 4) * 2^(rin(seed, i + 302, 8, 30)) else rin(seed, i, 1, 8) * U / 64
  pure def near256(x: int): int = if (x < 256) 256 else x / 256 * 256
  // a size that is almost, but not quite, the one used last
  pure def almost(seed: int, x: Inst, other: int): int =
    if (x.v.path.length() == 0) other else {
      val h = near256(x.v.path[x.v.path.length() - 1])
      near256(h + [1, -1][below(seed, 310, 2)] * near256(h / 2^(rin(seed, 311, 10, 30))))
    }
  pure val CAP = 14                                                          // longest value

  var insts: List[Inst]
  var op: Op
  pure def upd(l: List[Inst], i: int, x: Inst): List[Inst] = l.replaceAt(i, x)
  pure def choose(l: List[Inst], seed: int): { l: List[Inst], op: Op } = {
    val i = below(seed, 10, 2)
    val x = l[i]
    val k = below(seed, 11, 100)
    val h0 = if (below(seed, 12, 3) == 0) U / 16 else hsize(seed, 13)
    val h = if (below(seed, 32, 4) == 0) almost(seed, x, h0) else h0
    val r = if (adaptive(x) and below(seed, 14, 3) == 0) rin(seed, 15, 1, 2) else 0
    val long = x.v.path.length() >= CAP
    if (fragile(x) and x.usable and x.etd == 0 and below(seed, 33, 5) == 0) { val f = doClash(x)  { l: upd(l, i, f.x), op: { ...f.op, i: i } } }
    else if (fragile(x) and x.etd == 0 and below(seed, 34, 8) == 0) { l: upd(l, i, { ...x, etd: 3 }), op: { ...noOp, name: "radius", i: i } }
    else if (fragile(x) and x.usable and x.etd == 3 and not(long) and below(seed, 33, 3) == 0) { val f = doStep(x, U / 4, 0)  { l: upd(l, i, f.x), op: { ...f.op, i: i } } }
    else if (not(fragile(x)) and x.rep != 1 and x.usable and below(seed, 37, 20) == 0) { val f = doOverflow(x)  { l: upd(l, i, f.x), op: { ...f.op, i: i } } }
    else if (k < 6) { l: upd(l, i, newInst(seed, l[1 - i].cls)), op: { ...noOp, name: "new", i: i } }
    else if (k < 12 or (long and k < 40)) { l: upd(l, i, { ...x, v: { init: start(seed, 16, x.nk), path: [] }, usable: true, cold: true, acc: false, loose: false, rec: [] }), op: { ...noOp, name: "restart", i: i } }
    else if (k < 18) { l: upd(l, i, { ...x, cold: true, acc: false, loose: false, rec: [] }), op: { ...noOp, name: "reset", i: i } }
    else if (k < 19 and adaptive(x)) { l: upd(l, i, { ...x, low: not(x.low) }), op: { ...noOp, name: "tweak", i: i } }
    else if (k < 22 and adaptive(x)) { l: upd(l, i, { ...x, grow: not(x.grow) }), op: { ...noOp, name: "tweak", i: i } }
    else if (k < 24 and x.usable) { val f = doRefuse(x, h, rin(seed, 22, -2, 2) * U / 2, h * below(seed, 29, 4) / 4)  { l: upd(l, i, f.x), op: { ...f.op, i: i } } }
    else if (k < 28) { l: l, op: { ...noOp, name: "loglevel", i: i, k: below(seed, 17, 6) } }
    else if (k < 40 or not(x.usable) or long) {
      val hh = if (adaptive(x)) U / 2^(rin(seed, 18, 4, 6)) else hsize(seed, 18)
      val len = if (below(seed, 30, 12) == 0 and adaptive(x)) 0 else if (adaptive(x)) rin(seed, 19, 1, 12) * U / 64 else hh * rin(seed, 19, 1, 6) - (if (below(seed, 20, 4) == 0) hh / 4 else 0)
      val h0 = if (not(adaptive(x)) and hh > len) len else hh
      // now and then hundreds of steps, few of them recorded
      val many = below(seed, 35, 20) == 0 and (not(adaptive(x)) or not(x.grow))
      val steps = if (below(seed, 39, 4) == 0) rin(seed, 36, 300, 1060) else rin(seed, 36, 101, 230)
      val plan = range(0, 6).foldl([], (p, j) => p.append(if (below(seed, 40 + j, 5) == 0) 1 else 0))
      val hm = U / [512, 512, 64][below(seed, 31, 3)]
      val e = if (many) doEvolve(x, start(seed, 21, x.nk), rin(seed, 22, -2, 2) * U / 2, steps * hm, hm, [], below(seed, 24, 2) > 0, [20, 50, 100][below(seed, 25, 3)], steps + 2)
              else doEvolve(x, start(seed, 21, x.nk), rin(seed, 22, -2, 2) * U / 2, len, h0, if (below(seed, 23, 2) == 0) [] else plan, below(seed, 24, 5) > 0, [1, 1, 1, 2, 3][below(seed, 25, 5)], 300)
      // evolutions that take too many steps are not generated
      if (not(e.op.ok)) { l: l, op: { ...noOp, name: "loglevel", i: i, k: 0 } }
      else if (below(seed, 26, 6) == 0 and e.op.hi > 0) {
        val f = rin(seed, 27, 1, e.op.hi)
        { l: upd(l, i, { ...x, usable: false, rec: [], loose: true, v: { init: start(seed, 21, x.nk), path: [] } }), op: { ...e.op, name: "evolvefault", i: i, k: f, ok: false, plan: e.op.plan } }
      } else { l: upd(l, i, e.x), op: { ...e.op, i: i } }
    }
    else if (k < 52) {
      val total = evals(x) + r * sch(x).evRetry
      val f = doFault(x, h, r, rin(seed, 28, 1, if (x.loose) sch(x).evNext - 1 else total))
      { l: upd(l, i, f.x), op: { ...f.op, i: i } }
    }
    else if (k < 56 and adaptive(x) and below(seed, 38, 2) == 0) {
      // (the evaluation at the starting state is finite: it is the same whenever it is made)
      val f = doHuge(x, h, rin(seed, 28, if (x.cold or x.cls == 4 or x.loose) 2 else 1, sch(x).evRetry))
      { l: upd(l, i, f.x), op: { ...f.op, i: i } }
    }
    else if (k < 56 and adaptive(x)) { val f = doGiveUp(x, h)  { l: upd(l, i, f.x), op: { ...f.op, i: i } } }
    else { val f = doStep(x, h, r)  { l: upd(l, i, f.x), op: { ...f.op, i: i } } }
  }
  action init = { nondet s = oneOf(0.to(2^48))  all { insts' = { val a = newInst(s, -1)  [a, newInst(s + 1, a.cls)] }, op' = noOp } }
  action step = { nondet s = oneOf(0.to(2^48))  val n = choose(insts, s)  all { insts' = n.l, op' = n.op } }
  // the modelled knowledge is consistent
  val safe = insts.indices().forall(i => val x = insts[i] and {
    x.cold implies not(x.acc),
    not(adaptive(x)) or x.usable implies x.v.path.length() <= CAP + 1100,
    x.rec.indices().forall(j => j > 0 implies x.rec[j - 1].t < x.rec[j].t),
    op.hi >= 0 implies op.lo <= op.hi,
  })
}
