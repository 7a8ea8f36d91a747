// -*- mode: Bluespec; -*-
// Exact solutions that no step size may spoil:
//   u' = lambda u          -> e^z u                       (every solver)
//   u' = lambda u + c      -> e^z u + h phi_1(z) c        (ETD solvers, and every internal stage of them)
// for |z| from 0 to enormous, on both sides of the small-mode cutoff, and the psi functions themselves.
module linear {
  import fx.* from "./fx"
  import problem.* from "./problem"

  type Case = { n: int, real: bool, h: int, lam: Vec, u: Vec, c: Vec, cutoff: int, npts: int, rad: int, reg: List[int], copies: int }
  // flow[k] = solution at (k+1)/4 * h without (hom) and with (inh) the constant term
  type Out = { hom: List[Vec], inh: List[Vec], psi: List[List[Cx]] }

  // |z| ~ 2^e for e in -40 .. 20 in any direction of the closed left half plane, 0, or slightly right
  pure def zreg(seed: int, i: int, real: bool): (Cx, int) = {
    val k = below(seed, i, 12)
    val m = rin(seed, i + 1, 512, 1023)
    val dir = if (real) 0 else below(seed, i + 2, 5)
    val e = if (k == 0) 60 else if (k <= 3) rin(seed, i + 3, 12, 18) else if (k <= 5) rin(seed, i + 3, 18, 50)
            else if (k <= 9) rin(seed, i + 3, 4, 12) else rin(seed, i + 3, -10, 4)
    // m / 2^(e+?) : magnitudes 2^-e * [1/2, 1) * 2^4
    val x = if (e >= 0) m * P / 2^(e + 6) else m * P * 2^(-e) / 2^6
    val v = if (k == 0) C0
            else if (dir == 0) (-x, 0) else if (dir == 1) (0, x) else if (dir == 2) (0, -x)
            else if (dir == 3) (-x, x / 2) else (-x / 4, -x)
    (v, k)
  }
  pure def gen(seed: int): Case = {
    val n = rin(seed, 1, 1, 6)
    val real = below(seed, 2, 3) == 0
    // h a power of two, so that lambda = z / h is exact
    val e = rin(seed, 3, -2, 12)
    val h = if (e >= 0) P / 2^e else P * 2^(-e)
    val one = below(seed, 4, 4) == 0
    val zz = range(0, n).foldl([], (acc, i) => acc.append(if (one) { val b = zreg(seed, 20, real) (crat(b._1, i + 1, 1), b._2) } else zreg(seed, 20 + 4 * i, real)))
    val etd = below(seed, 7, 2) == 0
    { n: n, real: real, h: h,
      lam: range(0, n).foldl([], (acc, i) => acc.append((zz[i]._1._1 * P / h, zz[i]._1._2 * P / h))),
      reg: range(0, n).foldl([], (acc, i) => acc.append(zz[i]._2)),
      copies: [1, 1, 1, 1, 1, 3, 40, 300][below(seed, 17, 8)],
      u: rvec(seed, 60, n, 64, 64, real), c: rvec(seed, 80, n, 64, 64, real),
      cutoff: if (not(etd)) 0 else P / 2^(rin(seed, 12, 2, 8)),
      npts: if (not(etd)) 0 else rin(seed, 13, 20, 64),
      rad: if (not(etd)) 0 else rin(seed, 14, 8, 32) * P / 16 }
  }
  pure def eval(c: Case): Out = {
    val z = vmap(c.lam, x => cfmul(x, c.h))
    val per = [1, 2, 3, 4].foldl([], (l, k) => l.append(range(0, c.n).foldl([], (v, i) => v.append(psis(crat(z[i], k, 4))))))
    val hom = [1, 2, 3, 4].foldl([], (l, k) => l.append(range(0, c.n).foldl([], (v, i) => v.append(cmul(per[k - 1][i][0], c.u[i])))))
    { hom: hom,
      inh: [1, 2, 3, 4].foldl([], (l, k) => l.append(range(0, c.n).foldl([], (v, i) =>
             v.append(cadd(hom[k - 1][i], crat(cfmul(cmul(per[k - 1][i][1], c.c[i]), c.h), k, 4)))))),
      psi: per[3] }
  }
  var c: Case
  var o: Out
  action pick(seed: int): bool = { val cc = gen(seed)  all { c' = cc, o' = eval(cc) } }
  action init = { nondet seed = oneOf(0.to(2^48))  pick(seed) }
  action step = { nondet seed = oneOf(0.to(2^48))  pick(seed) }
}
