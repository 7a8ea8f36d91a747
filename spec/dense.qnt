// -*- mode: Bluespec; -*-
// One trial step with a full-matrix L: the result does not depend on how L is represented.
//   kind 0: a dense matrix with |hL| inside the contour (every full-matrix solver, and diagonalize=True)
//   kind 1: L = S diag(lam) S^-1, S unimodular, lam possibly stiff (integrating factor, diagonalize=True)
//   kind 2: L = diag(lam): the same problem as a vector, as a matrix
//   kind 3: non-diagonalizable or triangular L inside the contour (full-matrix solvers)
module dense {
  import fx.* from "./fx"
  import schemes.* from "./schemes"
  import problem.* from "./problem"
  const SCH: int

  // copies: L is presented as a block diagonal matrix of that many copies; layout: how the arrays lie in memory
  type Case = { cls: str, kind: int, n: int, real: bool, lreal: bool, ureal: bool, copies: int, layout: int, h: int, L: Mat, lam: Vec, u: Vec, poly: Poly, npts: int, rad: int }
  type Out = { u: Vec, err: Vec }
  type Pair = { s: Mat, si: Mat }
  pure def repl(m: Mat, i: int, row: Vec): Mat = m.replaceAt(i, row)
  pure def unimod(seed: int, n: int, real: bool, cnt: int): Pair =
    range(0, cnt).foldl({ s: meye(n), si: meye(n) }, (p, k) => {
      val a = below(seed, 200 + 3 * k, n)
      val b = mod(a + 1 + below(seed, 201 + 3 * k, n - 1), n)
      val m = { val x = below(seed, 202 + 3 * k, 4)
                if (x == 0) C1 else if (x == 1) cneg(C1) else if (real or x == 2) (P / 2, 0) else (0, P) }
      { s: p.s.replaceAt(a, vadd(p.s[a], vmap(p.s[b], x => cmul(m, x)))),
        si: range(0, n).foldl([], (rows, i) => rows.append(p.si[i].replaceAt(b, csub(p.si[i][b], cmul(m, p.si[i][a]))))) }
    })
  pure def rmat(seed: int, base: int, n: int, m: int, den: int, real: bool): Mat =
    range(0, n).foldl([], (acc, i) => acc.append(rvec(seed, base + 20 * i, n, m, den, real)))

  // forms of a dense operator: 1 symmetric (Hermitian) up to a small or tiny perturbation, 2 a repeated eigenvalue on a plane,
  // 3 normal with rotations slow against the damping, 4 small against 1, others without structure
  pure def formed(seed: int, r: Mat, n: int, real: bool): Mat = {
    val f = below(seed, 30, 6)
    val tiny = 2^rin(seed, 31, 8, 46)
    val v = range(0, n).foldl([], (l, i) => l.append((rin(seed, 32 + i, -4, 4), if (real) 0 else rin(seed, 36 + i, -4, 4))))
    val vv = v.foldl(0, (a, x) => a + x._1 * x._1 + x._2 * x._2)
    if (f == 1) range(0, n).foldl([], (rows, i) => rows.append(range(0, n).foldl([], (row, j) => row.append(
      if (i < j) r[i][j] else if (i == j) (r[i][i]._1, if (below(seed, 39, 2) == 0) 0 else r[i][i]._2 / tiny)
      else (r[j][i]._1 + r[i][j]._1 / tiny, -r[j][i]._2 + r[i][j]._2 / tiny)))))
    else if (f == 2 and vv > 0) {
      val a = r[0][0]
      val b = csub(r[1][1], a)
      range(0, n).foldl([], (rows, i) => rows.append(range(0, n).foldl([], (row, j) => {
        val w = cmul((v[i]._1, v[i]._2), (v[j]._1 * P, -v[j]._2 * P))
        row.append(cadd(if (i == j) a else C0, cmul(b, (w._1 / vv, w._2 / vv)))) })))
    }
    else if (f == 3) range(0, n).foldl([], (rows, i) => rows.append(range(0, n).foldl([], (row, j) => row.append(
      if (i == j) (-abs(r[0][0]._1) - P / 64 - (if (i < 2) 0 else P / 16), 0)
      else if (i == 0 and j == 1) (r[0][1]._1 / tiny, 0) else if (i == 1 and j == 0) (-r[0][1]._1 / tiny, 0) else C0))))
    else if (f == 4) r.foldl([], (rows, x) => rows.append(vmap(x, y => (y._1 / tiny, y._2 / tiny))))
    else r
  }
  pure def gen(seed: int): (Case, Pair) = {
    val kind = below(seed, 1, 4)
    val n = rin(seed, 2, 2, 3)
    val allreal = below(seed, 3, 2) == 0
    val real = allreal or below(seed, 16, 4) == 0          // L real
    val h = rstep(seed, 8)
    val regs = below(seed, 4, 3)
    // stiffness regimes that keep e^{hL} bounded
    val lam = range(0, n).foldl([], (acc, i) => acc.append(
      if (kind == 2) { val x = rin(seed, 40 + 2 * i, -31, 15)  val y = rin(seed, 41 + 2 * i, -31, 31)
                       // |h lam| <= 1/2 roughly
                       (x * P / 64, if (real) 0 else y * P / 64) }
      else reig(seed, 20 + 4 * i, [1, 3, 4, 1, 7, 8, if (real) 1 else 5].nth(below(seed, 50 + i, 7)), real)))
    val pr = if (kind == 1) unimod(seed, n, real, rin(seed, 5, 1, 4)) else { s: meye(n), si: meye(n) }
    val r0 = rmat(seed, 300, n, 26, 256, real)      // norm < 1/2
    val rr = if (kind == 3) range(0, n).foldl([], (rows, i) => rows.append(range(0, n).foldl([], (row, j) =>
                row.append(if (i == j) r0[0][0] else if (j == i + 1) (if (r0[i][j] == C0) (P / 8, 0) else r0[i][j]) else C0))))
             else if (kind == 0) formed(seed, r0, n, real) else r0
    val L = if (kind == 0 or kind == 3) rr
            else if (kind == 2) mdiag(lam)
            else mm(pr.s, mm(mdiag(lam), pr.si))
    val etd = below(seed, 7, 2) == 0
    ({ cls: ALL[SCH].name, kind: kind, n: n, real: allreal, lreal: real, ureal: allreal or below(seed, 17, 4) == 0, copies: [1, 1, 1, 1, 2, 5][below(seed, 18, 6)], layout: below(seed, 19, 6), h: h, L: L, lam: lam,
       u: rvec(seed, 60, n, 64, 64, allreal or below(seed, 17, 4) == 0), poly: rpoly(seed, n, if (below(seed, 10, 4) == 0) rin(seed, 11, 1, 4) else 0, allreal),
       npts: if (not(etd)) 0 else rin(seed, 13, 48, 64), rad: if (not(etd)) 0 else rin(seed, 14, 24, 40) * P / 16 }, pr)
  }
  pure def eval(g: (Case, Pair)): Out = {
    val c = g._1
    val pr = g._2
    val s = ALL[SCH]
    if (c.kind == 1 or c.kind == 2) {
      val f = diagFuncs(s, vmap(c.lam, x => cfmul(x, c.h)))
      val r = stepDiag(s, f, c.h, mv(pr.si, c.u), v => mv(pr.si, nlPoly(c.poly, mv(pr.s, v))))
      { u: mv(pr.s, r.u), err: if (r.err.length() == 0) [] else mv(pr.s, r.err) }
    } else {
      val z = range(0, c.n).foldl([], (acc, i) => acc.append(vmap(c.L[i], x => cfmul(x, c.h))))
      val f = matFuncs(s, z, 30)
      val r = stepMat(s, f, c.h, c.u, v => nlPoly(c.poly, v))
      { u: r.u, err: r.err }
    }
  }
  var c: Case
  var o: Out
  action pick(seed: int): bool = {
    val g = gen(seed)
    all { c' = g._1, o' = eval(g) }
  }
  action init = { nondet seed = oneOf(0.to(2^48))  pick(seed) }
  action step = { nondet seed = oneOf(0.to(2^48))  pick(seed) }
}
module dense_0 { import dense(SCH = 0).* from "./dense" }
module dense_1 { import dense(SCH = 1).* from "./dense" }
module dense_2 { import dense(SCH = 2).* from "./dense" }
module dense_3 { import dense(SCH = 3).* from "./dense" }
module dense_4 { import dense(SCH = 4).* from "./dense" }
module dense_5 { import dense(SCH = 5).* from "./dense" }
// fixed inputs of known findings: hL with its spectrum outside the default psi contour
module dense_known {
  import dense(SCH = 0).* from "./dense"
  import fx.* from "./fx"
  import schemes.* from "./schemes"
  import problem.* from "./problem"
  pure val I2: Vec = [(P, 0), (P / 2, 0)]
  pure def kcase(i: int): (Case, Pair) = {
    val s: Mat = [[(P, 0), (P, 0)], [(0, 0), (P, 0)]]
    val si: Mat = [[(P, 0), (-P, 0)], [(0, 0), (P, 0)]]
    ({ cls: ALL[i].name, kind: 1, n: 2, real: true, lreal: true, ureal: true, copies: 1, layout: 0, h: P / 8, L: [[(-50 * P, 0), (10 * P, 0)], [(0, 0), (-40 * P, 0)]], lam: [(-50 * P, 0), (-40 * P, 0)],
       u: I2, poly: { c: [(P, 0), (P, 0)], a: zvec(2), b: zvec(2), d: [(P / 4, 0), (P / 4, 0)] }, npts: 0, rad: 0 }, { s: s, si: si })
  }
  var k: int
  var kc: Case
  var ko: Out
  action kset(i: int): bool = all { k' = i, kc' = kcase(i)._1, ko' = evalK(i, kcase(i)) }
  pure def evalK(i: int, g: (Case, Pair)): Out = {
    val c = g._1
    val pr = g._2
    val s = ALL[i]
    val f = diagFuncs(s, vmap(c.lam, x => cfmul(x, c.h)))
    val r = stepDiag(s, f, c.h, mv(pr.si, c.u), v => mv(pr.si, nlPoly(c.poly, mv(pr.s, v))))
    { u: mv(pr.s, r.u), err: if (r.err.length() == 0) [] else mv(pr.s, r.err) }
  }
  action kinit = all { kset(0), pick(0) }
  action kstep = all { kset(mod(k + 1, 6)), c' = c, o' = o }
}
