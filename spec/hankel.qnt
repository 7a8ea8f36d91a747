// -*- mode: Bluespec; -*-
// The discrete Hankel transform as an object: grids from the zeros of J0, the transform matrix, changes of size and radius.
module hankel {
  import fx.* from "./fx"
  import problem.* from "./problem"
  pure val PI: int = 314159265358979323846264338327950288419716939937510582097494459 * P / 10^62
  // Bessel functions by their series, at 512 bits since its terms grow like e^x
  pure val Q: int = 2^512
  pure def upQ(x: int): int = x * 2^384
  pure def downQ(x: int): int = x / 2^384
  pure def terms(x: int): int = 3 * x / (2 * Q) + 60
  pure def j0Q(x: int): int = {
    val y = x * x / (4 * Q)
    range(1, terms(x)).foldl((Q, Q), (a, k) => { val t = -a._1 * y / (Q * k * k)  (t, a._2 + t) })._2
  }
  pure def j1Q(x: int): int = {
    val y = x * x / (4 * Q)
    x * range(1, terms(x)).foldl((Q, Q), (a, k) => { val t = -a._1 * y / (Q * k * (k + 1))  (t, a._2 + t) })._2 / (2 * Q)
  }
  // i-th zero of J0: McMahon's expansion, then Newton's iteration (J0' = -J1)
  pure def zeroQ(i: int): int = {
    val b = upQ(PI) * (4 * i - 1) / 4
    range(0, 4).foldl(b + Q * Q / (8 * b), (x, _k) => x + j0Q(x) * Q / j1Q(x))
  }
  pure val NZ = 41
  // beyond that McMahon's expansion is exact enough by itself
  pure val NB = 513
  pure def mcmahon(i: int): int = {
    val b = PI * (4 * i - 1) / 4
    val v = P * P / (8 * b)
    val w = v * v / P
    b + v * (P - w * (124 * P - w * (120928 * P - w * (401743168 * P - w * 1071187749376 / 3) / 7 / P) / 5 / P) / 3 / P) / P
  }
  pure val ZEROS: List[int] = range(1, NB + 1).foldl([], (l, i) => l.append(if (i <= NZ) downQ(zeroQ(i)) else mcmahon(i)))
  pure val J1S: List[int] = range(0, 15).foldl([], (l, i) => l.append(downQ(j1Q(upQ(ZEROS[i])))))
  pure def radii(nr: int, rmax: int): List[int] = range(0, nr).foldl([], (l, i) => l.append(ZEROS[i] * rmax / ZEROS[nr]))
  pure def waves(nr: int, rmax: int): List[int] = range(0, nr).foldl([], (l, i) => l.append(fdiv(ZEROS[i], rmax)))
  // Y_ij = 2 J0(z_i z_j / z_N) / (z_N J1(z_j)^2)
  pure def matrix(nr: int): List[List[int]] = {
    val zn = ZEROS[nr]
    // the Bessel values are symmetric: rows up to the diagonal
    val half = range(0, nr).foldl([], (rows, i) => rows.append(range(0, i + 1).foldl([], (r, j) => r.append(downQ(j0Q(upQ(ZEROS[i] * ZEROS[j] / zn)))))))
    range(0, nr).foldl([], (rows, i) => rows.append(range(0, nr).foldl([], (r, j) => {
      val b = if (j <= i) half[i][j] else half[j][i]
      r.append(2 * b * P / (zn * J1S[j] / P * J1S[j] / P)) })))
  }
  // the object; `other` is a second transform alive at the same time
  type H = { nr: int, rmax: int }
  // form of an argument: 0 valid, 1 bad value, 2 not a number (NaN for radii), 3 wrong type
  type Op = { name: str, nr: int, rmax: int, form: int, ok: bool, cols: int, f: List[Vec], g: List[Vec], y: List[List[int]], c: int, scale: int }
  pure val noOp: Op = { name: "init", nr: 0, rmax: 0, form: 0, ok: true, cols: 0, f: [], g: [], y: [], c: 0, scale: 0 }
  pure def rnr(seed: int, i: int): int = if (below(seed, i, 60) == 0) rin(seed, i + 1, NZ, NB - 1) else if (below(seed, i, 6) == 0) rin(seed, i + 1, 15, NZ - 1) else rin(seed, i + 1, 4, 9)
  pure def rrm(seed: int, i: int): int = {
    val k = below(seed, i, 4)
    if (k == 0) P else if (k == 1) rin(seed, i + 1, 1, 640) * P / 16 else if (k == 2) rin(seed, i + 1, 1, 99) * P / 1000 else rin(seed, i + 1, 1, 1000) * P
  }
  // a radius in the neighbourhood of the present one, down to the next float
  pure def nearRm(seed: int, r: int): int = {
    val d = r / [2^51, 2^50, 2^46, 2^40, 2^34, 2^30, 2^28, 2^26, 2^22, 2^16, 2^10][below(seed, 21, 11)]
    if (below(seed, 22, 2) == 0) r + d else r - d
  }
  pure def badNr(seed: int): int = [3, 0, -1, -5, 1, 2][below(seed, 9, 6)]
  pure def badRm(seed: int): int = [0, -P, -P / 1000, -7 * P][below(seed, 9, 4)]
  pure def advance(h: H, seed: int): { h: H, op: Op } = {
    val k = below(seed, 1, 17)
    val bad = below(seed, 2, 3) == 0
    if (k < 2) {
      val w = below(seed, 3, 2)
      val nr = if (bad and w == 0) badNr(seed) else rnr(seed, 4)
      val fm = if (bad) (if (w == 1 and below(seed, 8, 2) == 0) 2 else 1) else 0
      val rm = if (bad and w == 1) badRm(seed) else rrm(seed, 6)
      { h: if (bad) h else { nr: nr, rmax: rm }, op: { ...noOp, name: ["new", "grid"][below(seed, 10, 2)], nr: nr, rmax: rm, form: fm, ok: not(bad) } }
    }
    else if (k < 5) {
      val nr = if (bad) badNr(seed) else rnr(seed, 4)
      { h: if (bad) h else { ...h, nr: nr }, op: { ...noOp, name: "nr", nr: nr, form: if (bad) rin(seed, 8, 1, 3) else 0, ok: not(bad) } }
    } else if (k < 8) {
      val rm = if (bad) badRm(seed) else if (below(seed, 20, 2) == 0) nearRm(seed, h.rmax) else rrm(seed, 6)
      { h: if (bad) h else { ...h, rmax: rm }, op: { ...noOp, name: "rmax", rmax: rm, form: if (bad) rin(seed, 8, 1, 2) else 0, ok: not(bad) } }
    } else if (k == 8) { h: h, op: { ...noOp, name: "zeros" } }
    else if (k == 16) { h: h, op: { ...noOp, name: "swap" } }
    else if (h.nr > 14) {
      // a Gaussian narrow in both domains is transformed as on the infinite line: exp(-c r^2) -> exp(-k^2/(4c))/(2c)
      val zn = ZEROS[h.nr] / P
      val top = zn * zn / 120
      val a = if (top <= 31) 31 else rin(seed, 4, 31, top)
      val c = fdiv(a * P, fmul(h.rmax, h.rmax))
      val inv = fdiv(P, 4 * c)
      val f = radii(h.nr, h.rmax).foldl([], (l, r) => l.append((cexp((-fmul(fmul(r, r), c), 0))._1, 0)))
      val g = waves(h.nr, h.rmax).foldl([], (l, q) => l.append((fdiv(cexp((-fmul(fmul(q, q), inv), 0))._1, 2 * c), 0)))
      { h: h, op: { ...noOp, name: if (zn * zn < 130 * 31) "skip" else ["gauss", "igauss"][below(seed, 3, 2)], f: [f], g: [g], c: c, scale: fdiv(P, 2 * c) } }
    }
    else if (k == 9) { h: h, op: { ...noOp, name: "matrix", y: matrix(h.nr) } }
    else {
      val cols = if (below(seed, 3, 3) > 0) 0 else rin(seed, 4, 1, 3)
      val f = range(0, imax(cols, 1)).foldl([], (l, q) => l.append(rvec(seed, 100 + 40 * q, h.nr, 64, 16, below(seed, 5, 2) == 0)))
      val y = matrix(h.nr)
      val s = h.rmax * P / ZEROS[h.nr] * h.rmax / P
      val inverse = below(seed, 6, 2) == 0
      val g = f.foldl([], (l, v) => l.append(y.foldl([], (r, row) => {
        val t = range(0, h.nr).foldl((0, 0), (a, j) => (a._1 + row[j] * v[j]._1, a._2 + row[j] * v[j]._2))
        val z = (t._1 / P, t._2 / P)
        r.append(if (inverse) (fdiv(z._1, s), fdiv(z._2, s)) else (fmul(z._1, s), fmul(z._2, s))) })))
      { h: h, op: { ...noOp, name: if (inverse) "iht" else "ht", cols: cols, f: f, g: g, y: y, scale: if (inverse) fdiv(P, s) else s } }
    }
  }
  var h: H
  var other: H
  var op: Op
  var r: List[int]
  var kr: List[int]
  action show(n: { h: H, op: Op }): bool = all { h' = n.h, op' = n.op, r' = radii(n.h.nr, n.h.rmax), kr' = waves(n.h.nr, n.h.rmax) }
  action init = all { show({ h: { nr: 4, rmax: P }, op: noOp }), other' = { nr: 5, rmax: 2 * P } }
  action step = {
    nondet s = oneOf(0.to(2^48))
    val n = advance(h, s)
    if (n.op.name == "swap") all { show({ h: other, op: n.op }), other' = h }
    else all { show(n), other' = other }
  }
  // the zeros are zeros, all of them (gaps just above pi), r increases within the radius, the transform is nearly its own inverse;
  // the expansion agrees with the exact zeros where it takes over
  val safe = and {
    range(0, 4).indices().forall(i => { val j = mod(h.nr * 7 + i * 11 + h.rmax / 2^120, NZ - 1)
      abs(downQ(j0Q(upQ(ZEROS[j])))) < P / 2^100 and ZEROS[j + 1] - ZEROS[j] < PI and ZEROS[j + 1] - ZEROS[j] > 311 * P / 100 }),
    abs(mcmahon(NZ) - ZEROS[NZ - 1]) < P / 2^54,
    abs(ZEROS[0] - 240482555769577276862163187932645464312 * P / 10^38) < P / 2^110,
    h.nr >= 4 and h.rmax > 0,
    r.indices().forall(i => r[i] > 0 and r[i] < h.rmax and (i == 0 or r[i - 1] < r[i])),
    op.y.length() > 0 implies range(0, h.nr).indices().forall(i => range(0, h.nr).indices().forall(j =>
      abs(range(0, h.nr).foldl(0, (s, q) => s + op.y[i][q] * op.y[q][j] / P) - (if (i == j) P else 0)) < P / 1000)) }
}
