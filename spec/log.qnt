// -*- mode: Bluespec; -*-
// Logging: one logger per solver class; levels, handlers, and what an operation says at each level.
module log {
  import fx.* from "./fx"
  import problem.* from "./problem"
  // how a level is given: text 0..8 valid names (value below), numbers, or invalid text
  type Arg = { form: int, k: int }                       // form 0: name, 1: number, 2: invalid name
  pure val NAMED = [10, 20, 30, 40, 50, 30, 50, 10, 20]  // DEBUG INFO WARNING ERROR CRITICAL WARN FATAL, debug, Info
  pure val NUMBERS = [10, 20, 30, 40, 50, 5, 15, 25, 35, 60]
  pure def valid(a: Arg): bool = a.form < 2
  pure def levelOf(a: Arg): int = if (a.form == 0) NAMED[a.k] else NUMBERS[a.k]
  pure val WARNING = 30
  pure val N = 4                                         // loggers: IF4, ETD4, IF34, IF45DP classes; then a plain name
  type Logger = { made: bool, level: int, own: int, std: int }   // own: handlers the user attached, std: handlers the library attached
  // an operation and the least it must say: warnings/errors at least so many lines of that level, quiet: nothing at or above WARNING
  type Op = { name: str, l: int, arg: Arg, ok: bool, steps: int, t0: int, len: int, store: bool, freq: int, warns: int, errs: int }
  pure val noOp: Op = { name: "init", l: 0, arg: { form: 0, k: 0 }, ok: true, steps: 0, t0: 0, len: 0, store: false, freq: 1, warns: 0, errs: 0 }
  pure def setup(x: Logger, a: Arg): Logger =
    if (not(valid(a))) x else { ...x, made: true, level: levelOf(a), std: if (x.own + x.std == 0) 1 else x.std }
  // lines of a level appear iff the logger's level lets them through
  pure def passes(x: Logger, lev: int): bool = x.made and lev >= x.level

  var loggers: List[Logger]
  var live: List[bool]                                   // is there a solver of the class
  var op: Op
  pure def anArg(seed: int, i: int): Arg = {
    val r = below(seed, i, 10)
    if (r < 2) { form: 2, k: below(seed, i + 1, 6) } else if (r < 7) { form: 0, k: below(seed, i + 1, 9) } else { form: 1, k: below(seed, i + 1, 10) }
  }
  type S = { ls: List[Logger], lv: List[bool], op: Op }
  pure def advance1(ls: List[Logger], lv: List[bool], seed: int): S = {
    val l = below(seed, 1, N + 1)
    val x = ls[l]
    val a = anArg(seed, 2)
    val k = below(seed, 3, 12)
    val set1 = { ls: ls.replaceAt(l, setup(x, a)), lv: lv, op: { ...noOp, name: "setup", l: l, arg: a, ok: valid(a) } }
    if (k == 0) { ls: ls.replaceAt(l, { ...x, own: x.own + 1 }), lv: lv, op: { ...noOp, name: "own", l: l } }
    else if (l == N) set1
    else if (k < 4 or not(lv[l])) {
      val dflt = below(seed, 4, 3) == 0
      val b = if (dflt) { form: 0, k: 2 } else a
      { ls: ls.replaceAt(l, setup(x, b)), lv: lv.replaceAt(l, lv[l] or valid(b)), op: { ...noOp, name: if (dflt) "default" else "construct", l: l, arg: b, ok: valid(b) } }
    }
    else if (k < 7) { ls: ls.replaceAt(l, if (valid(a)) { ...x, level: levelOf(a) } else x), lv: lv, op: { ...noOp, name: "set", l: l, arg: a, ok: valid(a) } }
    else if (k == 7 and l >= 2 and below(seed, 11, 2) == 0) { ls: ls, lv: lv, op: { ...noOp, name: "reject", l: l, steps: rin(seed, 5, 1, 12) } }
    else if (k == 7 and l >= 2) { ls: ls, lv: lv, op: { ...noOp, name: "fail", l: l, steps: rin(seed, 5, 1, 5), ok: false, warns: 1, errs: 1 } }
    else {
      val n = [1, 5, 99, 100, 101, 200, 256, 300][below(seed, 6, 8)]
      { ls: ls, lv: lv, op: { ...noOp, name: "evolve", l: l, steps: n, t0: [0, -4, 4, -8, 1000, -1][below(seed, 7, 6)], len: [4, 8, 1, 4][below(seed, 8, 4)],
                              store: below(seed, 9, 3) > 0, freq: [1, 7, 100][below(seed, 10, 3)] } }
    }
  }
  action init = all { loggers' = range(0, N + 1).foldl([], (l, i) => l.append({ made: false, level: 0, own: 0, std: 0 })), live' = [false, false, false, false], op' = noOp }
  action step = { nondet s = oneOf(0.to(2^48)) val n = advance1(loggers, live, s) all { loggers' = n.ls, live' = n.lv, op' = n.op } }
  // never two handlers of the library's, and none in addition to the user's
  val safe = loggers.indices().forall(i => val x = loggers[i] and {
    x.std <= 1, x.made implies x.own + x.std >= 1,
    // the library adds its handler only to a logger that had none
    not(x.made) implies x.std == 0 })
}
