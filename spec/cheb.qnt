// -*- mode: Bluespec; -*-
// Chebyshev grids, their differentiation matrix, derivatives of polynomials on them, and the Allen-Cahn operators built on it.
module cheb {
  import fx.* from "./fx"
  import problem.* from "./problem"
  import fields.* from "./fields"
  // polynomial sum c_k s^k, s = (x - a) / (b - a), and its p-th derivative with respect to x
  pure def falling(k: int, p: int): int = range(0, p).foldl(1, (f, i) => f * (k - i))
  pure def poly(c: List[int], s: int, len: int, p: int): int = {
    val v = range(0, c.length()).foldl(0, (t, i) => { val k = c.length() - 1 - i  if (k < p) t else fmul(t, s) + c[k] * falling(k, p) })
    range(0, p).foldl(v, (f, _i) => fdiv(f, len))
  }
  // err: 0 none; 1 n a float; 2 n text; 3 n too small
  type Grid = { n: int, err: int, exc: str, dflt: bool, a: int, b: int, x: List[int], d: List[List[int]] }
  // err: 0 none; 1 order float; 2 order text; 3 negative order; 4 too short; 5 too long; 6 three-dimensional; 7 matrix not square
  type Der = { n: int, a: int, b: int, p: int, cols: int, cx: bool, amp: int, form: int, err: int, exc: str, u: List[List[int]], du: List[List[int]], norm: int }
  // Allen-Cahn: u, eps -> (L u + N(u)) on the interior, where w = u + x solves w' = eps w'' + w - w^3 and u vanishes at the ends
  type Ac = { n: int, eps: int, dflt: bool, a: int, b: int, u: List[int], lu: List[int], nu: List[int], norm: int }
  pure def ends(seed: int, i: int): (int, int) = {
    val k = below(seed, i, 4)
    if (k == 0) (-P, P) else if (k == 1) { val a = rin(seed, i + 1, -64, 64) * P / 8  (a, a + rin(seed, i + 2, 1, 256) * P / 8) }
    else if (k == 2) { val a = rin(seed, i + 1, -99, 99) * P / 10  (a, a + rin(seed, i + 2, 1, 999) * P / 100) }
    else { val a = rin(seed, i + 1, -1000, 1000) * P  (a, a + rin(seed, i + 2, 1, 64) * P / 64) }
  }
  pure def grid(seed: int): Grid = {
    val e = below(seed, 1, 10)
    val err = if (e > 3) 0 else e
    val n = if (err == 3) rin(seed, 2, -3, 1) else if (below(seed, 18, 12) == 0) [15, 16, 20, 31, 32, 48][below(seed, 17, 6)] else rin(seed, 2, 2, 14)
    val dflt = below(seed, 3, 4) == 0
    val ab = if (dflt) (-P, P) else ends(seed, 4)
    val x = if (err == 0) nodes(n, ab._1, ab._2) else []
    { n: n, err: err, exc: if (err == 0) "" else if (err == 3) "ValueError" else "TypeError", dflt: dflt, a: ab._1, b: ab._2, x: x, d: if (err == 0) diffmat(n, x) else [] }
  }
  pure def der(seed: int): Der = {
    val e = below(seed, 21, 14)
    val large = below(seed, 18, 12) == 1
    val n = if (large) [15, 16, 20, 24, 31, 32][below(seed, 17, 6)] else rin(seed, 22, 2, 12)
    val ab = ends(seed, 24)
    val p = if (large) rin(seed, 27, 0, 3) else [1, 1, 1, 2, 2, 3, 4, 0, 5, 6][below(seed, 27, 10)]
    val amp = [P, P, P, P, 2^40 * P, P / 2^40][below(seed, 16, 6)]
    val cx = below(seed, 19, 3) == 0
    val cols = if (below(seed, 28, 2) == 0) 0 else rin(seed, 29, 1, 4)
    // complex data: the imaginary parts are further columns
    val parts = imax(cols, 1) * (if (cx) 2 else 1)
    // with order 0 nothing is multiplied, so nothing can mismatch
    val err = if (e > 7 or (e >= 4 and p == 0) or (e == 7 and cols > 0)) 0 else e
    val len = ab._2 - ab._1
    val cs = range(0, parts).foldl([], (l, q) => l.append(
      { val deg = rin(seed, 30 + q, 0, n)  range(0, deg + 1).foldl([], (c, k) => c.append(fmul(amp, dy(seed, 50 + 40 * q + k, 64, 16)))) }))
    val s = nodes(n, 0, P)
    val d = diffmat(n, nodes(n, ab._1, ab._2))
    { n: n, a: ab._1, b: ab._2, p: p, cols: cols, cx: cx, amp: amp, form: below(seed, 15, 6), err: err, exc: if (err == 0) "" else if (err < 3) "TypeError" else "ValueError",
      u: range(0, n + 1).foldl([], (l, i) => l.append(range(0, cs.length()).foldl([], (r, q) => r.append(poly(cs[q], s[i], len, 0))))),
      du: range(0, n + 1).foldl([], (l, i) => l.append(range(0, cs.length()).foldl([], (r, q) => r.append(poly(cs[q], s[i], len, p))))),
      norm: rmax(d) }
  }
  pure def ac(seed: int): Ac = {
    val n = rin(seed, 62, 2, 10)
    val ab = if (below(seed, 63, 2) == 0) (-P, P) else (rin(seed, 64, -8, 0) * P / 4, rin(seed, 65, 1, 8) * P / 4)
    val dflt = below(seed, 66, 3) == 0
    val eps = if (dflt) P / 100 else rin(seed, 67, 1, 100) * P / 1024
    val x = nodes(n, ab._1, ab._2)
    val d = diffmat(n, x)
    val u = range(0, n - 1).foldl([], (l, i) => l.append(dy(seed, 70 + i, 32, 32)))
    // u extended by zeros, twice differentiated
    val full = [0].concat(u).append(0)
    val dd = rapply(d, rapply(d, full))
    { n: n, eps: eps, dflt: dflt, a: ab._1, b: ab._2, u: u, norm: rmax(d),
      lu: range(0, n - 1).foldl([], (l, i) => l.append(fmul(eps, dd[i + 1]) + u[i])),
      nu: range(0, n - 1).foldl([], (l, i) => l.append(x[i + 1] - rpow(u[i] + x[i + 1], 3))) }
  }
  var g: Grid
  var d: Der
  var m: Ac
  action pick = { nondet s = oneOf(0.to(2^48)) all { g' = grid(s), d' = der(s), m' = ac(s) } }
  action init = pick
  action step = pick
  // nodes increase from a to b and are symmetric; D annihilates constants, maps x to 1 and x^2 to 2x
  pure val TINY = P / 2^60
  pure def small(v: int, sz: int): bool = abs(v) <= fmul(TINY, sz + P)
  val safe = g.exc == "" implies and {
    g.x[0] == g.a, g.x[g.n] == g.b,
    range(0, g.n).indices().forall(i => g.x[i] < g.x[i + 1]),
    range(0, g.n + 1).indices().forall(i => small(g.x[i] + g.x[g.n - i] - g.a - g.b, abs(g.a) + abs(g.b))),
    range(0, g.n + 1).indices().forall(i => and {
      small(rdot(g.d[i], g.x) - P, rmax(g.d)),
      g.d[i].foldl(0, (s, v) => s + v) == 0,
      small(rdot(g.d[i], g.x.foldl([], (l, v) => l.append(fmul(v, v)))) - 2 * g.x[i], 100000 * fmul(rmax(g.d), fmul(imax(abs(g.a), abs(g.b)), imax(abs(g.a), abs(g.b))))) }),
    // the formula differentiates polynomials of the grid's degree exactly
    (d.p == 1 and d.err == 0) implies { val e = diffmat(d.n, nodes(d.n, d.a, d.b))
      range(0, d.n + 1).indices().forall(i => small(rdot(e[i], d.u.foldl([], (l, r) => l.append(r[0]))) - d.du[i][0], fmul(fmul(d.norm, 1000 * P), d.amp))) } }
}
