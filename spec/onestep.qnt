// -*- mode: Bluespec; -*-
// One trial step of every scheme on diagonal L: inputs and the exact result.
module onestep {
  import fx.* from "./fx"
  import schemes.* from "./schemes"
  import problem.* from "./problem"

  const SCH: int        // index into ALL
  const NLKIND: int     // -1: any

  // lreal, ureal: L, u are given as real arrays; intL, intU: as integer arrays.
  // copies: the problem is presented that many times side by side; since N couples component i with i + 1 (mod n), every
  // copy evolves like a single one (checked below).  layout: how the arrays lie in memory and which number type h has.
  type Case = { cls: str, n: int, real: bool, lreal: bool, ureal: bool, intL: bool, intU: bool, h: int, lam: Vec, u: Vec, poly: Poly,
                cutoff: int, npts: int, rad: int, copies: int, layout: int }
  type Out = { u: Vec, err: Vec }
  pure def gen(seed: int): Case = {
    val n = rin(seed, 1, 1, 4)
    val real = below(seed, 2, 3) == 0
    val lreal = real or below(seed, 15, 3) == 0      // L = -k^2 with complex modes, or a dispersive L with real initial data
    val ureal = real or below(seed, 16, 4) == 0
    val intU = ureal and below(seed, 17, 5) == 0
    val style = below(seed, 4, 4)       // 0: all modes one regime, else mixed
    val reg0 = below(seed, 5, 9)
    val lam = range(0, n).foldl([], (acc, i) =>
      acc.append(reig(seed, 20 + 4 * i, if (style == 0) reg0 else below(seed, 40 + i, 9), lreal)))
    val intL = lreal and below(seed, 6, 3) == 0
    val etd = below(seed, 7, 3) == 0
    { cls: ALL[SCH].name, n: n, real: real, lreal: lreal, ureal: ureal, intL: intL, intU: intU,
      copies: [1, 1, 1, 1, 1, 2, 3, 16, 33, 257][below(seed, 18, 10)], layout: below(seed, 19, 6),
      h: rstep(seed, 8),
      lam: if (intL) vmap(lam, x => (x._1 / P * P, 0)) else lam,
      u: if (intU) rvec(seed, 60, n, 2, 1, true) else rvec(seed, 60, n, 64, 64, ureal),
      poly: rpoly(seed, n, if (NLKIND >= 0) NLKIND else if (below(seed, 10, 4) == 0) rin(seed, 11, 1, 4) else 0, real),
      // ETD configuration: defaults two times in three
      cutoff: if (not(etd)) 0 else P / 2^(rin(seed, 12, 2, 7)),
      npts: if (not(etd)) 0 else rin(seed, 13, 20, 48),
      rad: if (not(etd)) 0 else rin(seed, 14, 8, 24) * P / 16 }
  }
  pure def eval(c: Case): Out = {
    val s = ALL[SCH]
    val f = diagFuncs(s, vmap(c.lam, x => cfmul(x, c.h)))
    val r = stepDiag(s, f, c.h, c.u, v => nlPoly(c.poly, v))
    { u: r.u, err: r.err }
  }
  // two copies side by side evolve like one
  pure def lifts(c: Case, o: Out): bool = {
    val two = eval({ ...c, lam: c.lam.concat(c.lam), u: c.u.concat(c.u),
                     poly: { c: c.poly.c.concat(c.poly.c), a: c.poly.a.concat(c.poly.a), b: c.poly.b.concat(c.poly.b), d: c.poly.d.concat(c.poly.d) } })
    two.u == o.u.concat(o.u) and two.err == o.err.concat(o.err)
  }
  var c: Case
  var o: Out
  val safe = c.copies == 2 implies lifts(c, o)
  action pick(seed: int): bool = {
    val cc = gen(seed)
    all { c' = cc, o' = eval(cc) }
  }
  action init = { nondet seed = oneOf(0.to(2^48))  pick(seed) }
  action step = { nondet seed = oneOf(0.to(2^48))  pick(seed) }
}
module onestep_0 { import onestep(SCH = 0, NLKIND = -1).* from "./onestep" }
module onestep_1 { import onestep(SCH = 1, NLKIND = -1).* from "./onestep" }
module onestep_2 { import onestep(SCH = 2, NLKIND = -1).* from "./onestep" }
module onestep_3 { import onestep(SCH = 3, NLKIND = -1).* from "./onestep" }
module onestep_4 { import onestep(SCH = 4, NLKIND = -1).* from "./onestep" }
module onestep_5 { import onestep(SCH = 5, NLKIND = -1).* from "./onestep" }
module onestep_6 { import onestep(SCH = 6, NLKIND = -1).* from "./onestep" }
