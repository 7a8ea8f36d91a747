// -*- mode: Bluespec; -*-
// The published one-step schemes as data, and their evaluation.
//
//   u' = L u + N(u),  z = h L
//   k_1 = u,  k_i = e^{c_i z} u + h * sum_t  num/den * psi_r(c_t z) N(k_{j_t})
//   last stage = the new state;   err = h * sum_t num/den * psi_r(c_t z) N(k_{j_t})
//
// psi_0 = exp, psi_r = r! phi_r (so psi_r(0) = 1).
// Krogstad (2005) for ETD4/ETD(3,4); Whalen, Brio & Moloney (2015) for
// ETD5/ETD(3,5) and IF(3,4); classical RK4 in integrating-factor form for IF4;
// Dormand & Prince 5(4) in integrating-factor form for IF45DP.
module schemes {
  import fx.* from "./fx"

  // ci: index into cs, -1 for c = 0 (every psi_r is then the identity)
  type Term = { j: int, ci: int, r: int, n: int, d: int }
  type Stage = { ci: int, terms: List[Term] }
  // cs are (num, den); nstages counts the evaluated N's of an accepted step (incl. N at the new state)
  type Scheme = { name: str, cs: List[(int, int)], stages: List[Stage], err: List[Term], q: int, order: int,
                  // number of N evaluations: first step, further accepted step, retry after a rejection
                  evFirst: int, evNext: int, evRetry: int }
  pure def t(j: int, ci: int, r: int, n: int, d: int): Term = { j: j, ci: ci, r: r, n: n, d: d }
  pure def st(ci: int, terms: List[Term]): Stage = { ci: ci, terms: terms }

  pure val krogStages: List[Stage] = [
    st(0, [t(1, 0, 1, 1, 2)]),
    st(0, [t(1, 0, 1, 1, 2), t(1, 0, 2, -1, 2), t(2, 0, 2, 1, 2)]),
    st(1, [t(1, 1, 1, 1, 1), t(1, 1, 2, -1, 1), t(3, 1, 2, 1, 1)]),
    st(1, [t(1, 1, 1, 1, 1), t(1, 1, 2, -3, 2), t(1, 1, 3, 2, 3),
           t(2, 1, 2, 1, 1), t(2, 1, 3, -2, 3),
           t(3, 1, 2, 1, 1), t(3, 1, 3, -2, 3),
           t(4, 1, 2, -1, 2), t(4, 1, 3, 2, 3)])]
  pure val ETD4: Scheme = { name: "ETD4", cs: [(1, 2), (1, 1)], stages: krogStages, err: [], q: 0, order: 4,
                            evFirst: 5, evNext: 4, evRetry: 0 }
  pure val ETD34: Scheme = { name: "ETD34", cs: [(1, 2), (1, 1)], stages: krogStages,
    err: [t(4, 1, 2, -1, 2), t(4, 1, 3, 2, 3), t(5, 1, 2, 1, 2), t(5, 1, 3, -2, 3)], q: 4, order: 4,
    evFirst: 5, evNext: 4, evRetry: 4 }

  pure val etd5Stages: List[Stage] = [
    st(0, [t(1, 0, 1, 1, 4)]),
    st(0, [t(1, 0, 1, 1, 4), t(1, 0, 2, -1, 8), t(2, 0, 2, 1, 8)]),
    st(1, [t(1, 1, 1, 1, 2), t(1, 1, 2, -1, 2), t(3, 1, 2, 1, 2)]),
    st(2, [t(1, 2, 1, 3, 4), t(1, 2, 2, -9, 16), t(2, 2, 1, -3, 8), t(3, 2, 1, 3, 8), t(4, 2, 2, 9, 16)]),
    st(3, [t(1, 3, 1, -77, 42), t(1, 3, 2, 59, 42),
           t(2, 3, 1, 8, 7), t(4, 3, 1, -12, 7),
           t(3, 3, 1, 111, 28), t(3, 3, 2, -87, 28),
           t(5, 3, 1, -47, 84), t(5, 3, 2, 143, 84)]),
    st(3, [t(1, 3, 1, 1799, 2700), t(1, 3, 2, -3479, 2700), t(1, 3, 3, 1890, 2700),
           t(3, 3, 1, 1097, 1350), t(3, 3, 2, -467, 1350), t(3, 3, 3, -150, 1350),
           t(4, 3, 1, -98, 225), t(4, 3, 2, 398, 225), t(4, 3, 3, -270, 225),
           t(5, 3, 1, -313, 1350), t(5, 3, 2, 883, 1350), t(5, 3, 3, -90, 1350),
           t(6, 3, 1, 509, 2700), t(6, 3, 2, -2129, 2700), t(6, 3, 3, 1830, 2700)])]
  // a75 * (-N1 + 4 N3 - 6 N4 + 4 N5 - N6)
  pure def a75(j: int, m: int): List[Term] = [t(j, 3, 1, -313 * m, 1350), t(j, 3, 2, 883 * m, 1350), t(j, 3, 3, -90 * m, 1350)]
  pure val cs5: List[(int, int)] = [(1, 4), (1, 2), (3, 4), (1, 1)]
  pure val ETD5: Scheme = { name: "ETD5", cs: cs5, stages: etd5Stages, err: [], q: 0, order: 5,
                            evFirst: 7, evNext: 6, evRetry: 0 }
  pure val ETD35: Scheme = { name: "ETD35", cs: cs5, stages: etd5Stages,
    err: a75(1, -1).concat(a75(3, 4)).concat(a75(4, -6)).concat(a75(5, 4)).concat(a75(6, -1)), q: 4, order: 5,
    evFirst: 6, evNext: 6, evRetry: 5 }

  pure val rk4Stages: List[Stage] = [
    st(0, [t(1, 0, 0, 1, 2)]),
    st(0, [t(2, -1, 0, 1, 2)]),
    st(1, [t(3, 0, 0, 1, 1)]),
    st(1, [t(1, 1, 0, 1, 6), t(2, 0, 0, 1, 3), t(3, 0, 0, 1, 3), t(4, -1, 0, 1, 6)])]
  pure val IF4: Scheme = { name: "IF4", cs: [(1, 2), (1, 1)], stages: rk4Stages, err: [], q: 0, order: 4,
                           evFirst: 5, evNext: 4, evRetry: 0 }
  pure val IF34: Scheme = { name: "IF34", cs: [(1, 2), (1, 1)], stages: rk4Stages,
    err: [t(4, -1, 0, 1, 6), t(5, -1, 0, -1, 6)], q: 4, order: 4, evFirst: 5, evNext: 4, evRetry: 4 }

  // cs: 1/5 3/10 4/5 8/9 1 | 1/10 3/5 1/2 31/45 53/90 4/45 7/10 1/9
  pure val IF45DP: Scheme = { name: "IF45DP",
    cs: [(1, 5), (3, 10), (4, 5), (8, 9), (1, 1), (1, 10), (3, 5), (1, 2), (31, 45), (53, 90), (4, 45), (7, 10), (1, 9)],
    stages: [
      st(0, [t(1, 0, 0, 1, 5)]),
      st(1, [t(1, 1, 0, 3, 40), t(2, 5, 0, 9, 40)]),
      st(2, [t(1, 2, 0, 44, 45), t(2, 6, 0, -56, 15), t(3, 7, 0, 32, 9)]),
      st(3, [t(1, 3, 0, 19372, 6561), t(2, 8, 0, -25360, 2187), t(3, 9, 0, 64448, 6561), t(4, 10, 0, -212, 729)]),
      st(4, [t(1, 4, 0, 9017, 3168), t(2, 2, 0, -355, 33), t(3, 11, 0, 46732, 5247), t(4, 0, 0, 49, 176), t(5, 12, 0, -5103, 18656)]),
      st(4, [t(1, 4, 0, 35, 384), t(3, 11, 0, 500, 1113), t(4, 0, 0, 125, 192), t(5, 12, 0, -2187, 6784), t(6, -1, 0, 11, 84)])],
    err: [t(1, 4, 0, 71, 57600), t(3, 11, 0, -71, 16695), t(4, 0, 0, 71, 1920), t(5, 12, 0, -17253, 339200), t(6, -1, 0, 22, 525), t(7, -1, 0, -1, 40)],
    q: 5, order: 5, evFirst: 7, evNext: 6, evRetry: 6 }

  pure val ALL: List[Scheme] = [ETD4, ETD5, IF4, ETD34, ETD35, IF34, IF45DP]
  pure def isAdaptive(s: Scheme): bool = s.q > 0

  // ---- evaluation: diagonal L ----------------------------------------
  // F[ci][r] = vector of psi_r(c z_i) ; ci == -1 is handled as the identity
  pure def diagFuncs(s: Scheme, z: Vec): List[List[Vec]] =
    range(0, s.cs.length()).foldl([], (acc, a) => acc.append({
      val c = s.cs[a]
      val per = range(0, z.length()).foldl([], (l, i) => l.append(psis(crat(z[i], c._1, c._2))))
      [0, 1, 2, 3].foldl([], (l, r) => l.append(range(0, z.length()).foldl([], (v, i) => v.append(per[i][r]))))
    }))
  // sum of terms applied to the N's (h not included)
  pure def sumDiag(f: List[List[Vec]], terms: List[Term], ns: List[Vec]): Vec = {
    val dim = ns[0].length()
    range(0, dim).foldl([], (acc, i) => acc.append(
      terms.foldl(C0, (s, tm) => {
        val x = ns[tm.j - 1][i]
        val y = if (tm.ci < 0) x else cmul(f[tm.ci][tm.r][i], x)
        cadd(s, crat(y, tm.n, tm.d))
      })))
  }
  type StepOut = { u: Vec, err: Vec, ks: List[Vec], ns: List[Vec] }
  // h is a fixed-point real
  pure def stepDiag(s: Scheme, f: List[List[Vec]], h: int, u: Vec, nl: (Vec) => Vec): StepOut = {
    val r = s.stages.foldl({ ks: [u], ns: [nl(u)] }, (acc, stg) => {
      val base = vmul(f[stg.ci][0], u)
      val incr = vmap(sumDiag(f, stg.terms, acc.ns), x => cfmul(x, h))
      val k = vadd(base, incr)
      { ks: acc.ks.append(k), ns: acc.ns.append(nl(k)) }
    })
    { u: r.ks[r.ks.length() - 1],
      err: if (s.err.length() == 0) [] else vmap(sumDiag(f, s.err, r.ns), x => cfmul(x, h)),
      ks: r.ks, ns: r.ns }
  }

  // ---- evaluation: full matrix L -------------------------------------
  // psi_r(cZ) = sum_k c^k r!/(k+r)! Z^k ; K powers must suffice for |Z|
  pure def powers(z: Mat, kmax: int): List[Mat] =      // Z^k / k!
    range(1, kmax + 1).foldl([meye(z.length())], (acc, k) => acc.append(mrat(mm(acc[k - 1], z), 1, k)))
  pure def matFuncs(s: Scheme, z: Mat, kmax: int): List[List[Mat]] = {
    val pw = powers(z, kmax)
    val dim = z.length()
    s.cs.foldl([], (acc, c) => acc.append(
      [0, 1, 2, 3].foldl([], (l, r) => l.append(
        range(0, dim).foldl([], (rows, i) => rows.append(range(0, dim).foldl([], (row, j) => row.append(
          range(0, kmax + 1).foldl({ s: C0, cp: P }, (a, k) => {
            val w = if (r == 0) 1 else if (r == 1) k + 1 else if (r == 2) (k + 1) * (k + 2) else (k + 1) * (k + 2) * (k + 3)
            val m = if (r == 0) 1 else if (r == 1) 1 else if (r == 2) 2 else 6
            { s: cadd(a.s, crat(cfmul(pw[k][i][j], a.cp), m, w)), cp: a.cp * c._1 / c._2 }
          }).s))))))))
  }
  pure def sumMat(f: List[List[Mat]], terms: List[Term], ns: List[Vec]): Vec = {
    val dim = ns[0].length()
    val zero = range(0, dim).foldl([], (acc, i) => acc.append(C0))
    terms.foldl(zero, (s, tm) => {
      val x = ns[tm.j - 1]
      val y = if (tm.ci < 0) x else mv(f[tm.ci][tm.r], x)
      vadd(s, vmap(y, e => crat(e, tm.n, tm.d)))
    })
  }
  pure def stepMat(s: Scheme, f: List[List[Mat]], h: int, u: Vec, nl: (Vec) => Vec): StepOut = {
    val r = s.stages.foldl({ ks: [u], ns: [nl(u)] }, (acc, stg) => {
      val base = mv(f[stg.ci][0], u)
      val incr = vmap(sumMat(f, stg.terms, acc.ns), x => cfmul(x, h))
      val k = vadd(base, incr)
      { ks: acc.ks.append(k), ns: acc.ns.append(nl(k)) }
    })
    { u: r.ks[r.ks.length() - 1],
      err: if (s.err.length() == 0) [] else vmap(sumMat(f, s.err, r.ns), x => cfmul(x, h)),
      ks: r.ks, ns: r.ns }
  }
}
