// -*- mode: Bluespec; -*-
// Construction of solvers: which operators are accepted, what the new solver says about itself, which configuration it uses.
module construct {
  import fx.* from "./fx"
  import problem.* from "./problem"
  import schemes.* from "./schemes"
  // shape: 0 vector, 1 square matrix, 2 rectangular matrix, 3 three-dimensional, 4 scalar
  // cond: index into CONDS, the decimal logarithm of the condition number in hundredths; the last is a singular operator
  // a condition number above 1000 is reported when diagonalizing, one above 10^16 refused
  // call: 0 keywords, 1 positional, 2 positional operator and function only
  type Case = { cls: int, shape: int, n: int, m: int, cx: bool, cond: int, diagonalize: bool, config: bool, etd: bool, call: int, level: int, turns: List[List[int]], phase: List[int] }
  // turns: reflections (normal vectors) applied left and right of the diagonal operator; its 2-norm condition number stays what it is,
  // other norms give other numbers; so does a turn of the phases (by quarters), which changes what is real about a complex operator
  type Out = { ok: bool, adaptive: bool, warns: int, full: bool, eps: bool, cutoff: bool, level: int }
  pure def hasMatrix(c: int): bool = c != 6                       // all but IF45DP
  pure def hasDiagonalize(c: int): bool = c == 3 or c == 4 or c == 5
  pure def hasEtd(c: int): bool = c == 0 or c == 1 or c == 3 or c == 4
  pure def hasConfig(c: int): bool = isAdaptive(ALL[c])
  pure val CONDS = [30, 290, 310, 370, 500, 800, 1200, 1450, 1580, 1620, 1700, 2500, 99900, 297, 299, 301, 303]
  pure val ROOM = 1300                                            // beyond, rounding decides about a full matrix: only diagonal ones
  pure def refusedCond(k: int): bool = CONDS[k] > 1600
  pure def reported(k: int): bool = CONDS[k] > 300 and not(refusedCond(k))
  pure val LEVELS = [30, 10, 20, 30, 40, 50, 25]                  // 0: the default
  pure def accepted(c: Case): bool = or {
    c.shape == 0,
    c.shape == 1 and hasMatrix(c.cls) and not(c.diagonalize and refusedCond(c.cond)) }
  pure def expected(c: Case): Out = {
    ok: accepted(c), adaptive: isAdaptive(ALL[c.cls]), full: c.shape == 1,
    warns: if (c.shape == 1 and c.diagonalize and reported(c.cond)) 1 else 0,
    eps: c.config, cutoff: c.etd, level: LEVELS[c.level] }
  pure def gen(seed: int): Case = {
    val cls = below(seed, 1, 7)
    val shape = if (below(seed, 2, 3) == 0) rin(seed, 3, 2, 4) else below(seed, 3, 2)
    val n = rin(seed, 4, 1, 5)
    val call = below(seed, 5, 3)
    val cond = if (n == 1) below(seed, 9, 2) * 12 else if (below(seed, 14, 3) == 0) 0 else if (below(seed, 15, 3) == 0) rin(seed, 16, 13, 16) else below(seed, 9, 17)
    val turns = if (n < 2 or shape != 1 or CONDS[cond] > ROOM) [] else
      range(0, 2 * below(seed, 17, 3)).foldl([], (l, q) => l.append(range(0, n).foldl([], (v, i) => v.append(rin(seed, 100 + 10 * q + i, -4, 4)))))
    { cls: cls, shape: shape, n: n, m: if (below(seed, 6, 2) == 0) n + rin(seed, 7, 1, 3) else if (n == 1) 2 else n - 1, cx: below(seed, 8, 2) == 0,
      cond: cond, diagonalize: call < 2 and hasDiagonalize(cls) and below(seed, 10, 2) == 0,
      config: call < 2 and hasConfig(cls) and below(seed, 11, 2) == 0, etd: call < 2 and hasEtd(cls) and below(seed, 12, 2) == 0,
      call: call, level: if (call == 2) 0 else below(seed, 13, 7), turns: turns,
      phase: if (n < 2 or below(seed, 18, 2) == 0) [] else range(0, n).foldl([], (l, i) => l.append(below(seed, 20 + i, 4))) }
  }
  var c: Case
  var o: Out
  action pick = { nondet s = oneOf(0.to(2^48)) val k = gen(s) all { c' = k, o' = expected(k) } }
  action init = pick
  action step = pick
  val safe = and { o.ok implies c.shape <= 1, (c.cls == 6 and c.shape == 1) implies not(o.ok), o.warns == 1 implies hasDiagonalize(c.cls) }
}
