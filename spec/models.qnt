// -*- mode: Bluespec; -*-
// The model problems: KdV and Burgers in discrete Fourier space, solitons.
module models {
  import fx.* from "./fx"
  import problem.* from "./problem"
  import fields.* from "./fields"
  // ---- right-hand sides in Fourier space ------------------------------
  // uf: spectrum of real data at n points (n even), modes 0 .. n/2
  type Rhs = { kdv: bool, n: int, a: int, len: int, mu: int, uf: Vec, l: Vec, nf: Vec, umax: int }
  pure def rhs(seed: int): Rhs = {
    val n = if (below(seed, 8, 10) == 0) [32, 34, 64, 100][below(seed, 1, 4)] else 2 * rin(seed, 1, 2, 8)
    val q = n / 2
    val kdv = below(seed, 2, 2) == 0
    val len = if (below(seed, 3, 2) == 0) rin(seed, 4, 1, 400) * P / 8 else rin(seed, 4, 1, 16) * PI / 2
    val mu = if (below(seed, 9, 10) == 0) 0 else rin(seed, 5, 1, 999) * P / 1000
    val w = range(0, n).foldl([], (l, j) => l.append(cexp((0, 2 * PI * j / n))))
    val k = range(0, q + 1).foldl([], (l, j) => l.append(2 * PI * j * P / len))
    val few = below(seed, 6, 3) == 0
    val uf = range(0, q + 1).foldl([], (l, j) => l.append(if (few and below(seed, 20 + j, 2) == 0) C0 else (dy(seed, 100 + 2 * j, 64, 16), if (j == 0 or j == q) 0 else dy(seed, 101 + 2 * j, 64, 16))))
    // real data from a half spectrum; i k times the highest mode is invisible
    val u = range(0, n).foldl([], (l, j) => l.append((uf[0]._1 + (if (j % 2 == 0) uf[q]._1 else -uf[q]._1)
        + range(1, q).foldl(0, (s, m) => s + 2 * cmul(uf[m], w[(m * j) % n])._1)) / n))
    val ux = range(0, n).foldl([], (l, j) => l.append(range(1, q).foldl(0, (s, m) => s + 2 * cmul(cmul((0, k[m]), uf[m]), w[(m * j) % n])._1) / n))
    val p = range(0, n).foldl([], (l, j) => l.append(fmul(u[j], ux[j]) * (if (kdv) -6 else -1)))
    { kdv: kdv, n: n, a: rin(seed, 7, -64, 64) * P / 8, len: len, mu: mu, uf: uf,
      l: k.foldl([], (l, x) => l.append(if (kdv) (0, fmul(fmul(x, x), x)) else (-fmul(mu, fmul(x, x)), 0))),
      nf: range(0, q + 1).foldl([], (l, m) => l.append(range(0, n).foldl(C0, (s, j) => cadd(s, cfmul(w[mod(-m * j, n)], p[j]))))),
      umax: u.foldl(0, (s, v) => imax(s, abs(v))) }
  }
  // ---- solitons -------------------------------------------------------
  // kind 0: one soliton, 1: several, 2: lengths differ
  type Sol = { kind: int, dflt: int, ints: bool, x: List[int], a: List[int], x0: List[int], t: int, u: List[int], residual: int }
  pure def sol(seed: int): Sol = {
    val kind = [0, 0, 1, 1, 1, 2][below(seed, 201, 6)]
    val dflt = if (kind == 0) below(seed, 202, 4) else if (kind == 1) below(seed, 202, 2) else 0       // how many trailing arguments are left out
    val m = if (kind == 0) 1 else rin(seed, 203, 1, 4)
    val t = if (dflt >= 1) 0 else dy(seed, 204, 64, 16)
    val a = range(0, m).foldl([], (l, i) => l.append(if (dflt == 3) P / 2 else rin(seed, 210 + i, 1, 64) * P / 16 * (if (below(seed, 215 + i, 5) == 0) -1 else 1)))
    val x0 = range(0, if (kind == 2) m + (if (below(seed, 205, 2) == 0 and m > 1) -1 else 1) else m).foldl([], (l, i) => l.append(if (kind == 0 and dflt >= 2) 0 else dy(seed, 220 + i, 640, 16)))
    val n = rin(seed, 206, 1, 9)
    val near = below(seed, 207, m)
    val ints = below(seed, 208, 4) == 0             // a grid of integers, given as such
    val x = if (kind == 2) [0, P] else range(0, n).foldl([], (l, i) => l.append(
       if (ints) (if (below(seed, 230 + i, 2) == 0) rin(seed, 240 + i, -40, 40) else (x0[near] + fmul(fmul(a[near], a[near]), t)) / P + rin(seed, 240 + i, -2, 2)) * P
       else if (below(seed, 230 + i, 2) == 0) dy(seed, 240 + i, 640, 16) else x0[near] + fmul(fmul(a[near], a[near]), t) + dy(seed, 240 + i, 64, 16)))
    val parts = if (kind == 2) [] else x.foldl([], (l, y) => l.append(range(0, m).foldl([], (r, i) => r.append(soliton(a[i], x0[i], t, y)))))
    { kind: kind, dflt: dflt, ints: ints, x: x, a: a, x0: x0, t: t,
      u: parts.foldl([], (l, r) => l.append(r.foldl(0, (s, v) => s + v.u))),
      // u_t + 6 u u_x + u_xxx of each
      residual: parts.foldl(0, (s, r) => imax(s, r.foldl(0, (z, v) => imax(z, abs(v.ut + 6 * fmul(v.u, v.ux) + v.uxxx))))) }
  }
  // ---- a soliton on a periodic grid, at times 0 and t, with its time derivative
  type Run = { on: bool, cls: int, n: int, a: int, len: int, amp: int, x0: int, t: int, u0: List[int], ut: List[int], u1: List[int] }
  pure val noRun: Run = { on: false, cls: 0, n: 0, a: 0, len: 0, amp: 0, x0: 0, t: 0, u0: [], ut: [], u1: [] }
  pure def run1(seed: int): Run = if (below(seed, 301, 8) > 0) noRun else {
    val amp = rin(seed, 302, 77, 100) * P / 64
    val x0 = dy(seed, 303, 64, 32)
    val t = rin(seed, 304, 1, 16) * P / 16
    val n = 128
    val xs = range(0, n).foldl([], (l, j) => l.append(-20 * P + 40 * P * j / n))
    val s0 = xs.foldl([], (l, x) => l.append(soliton(amp, x0, 0, x)))
    { on: true, cls: below(seed, 305, 7), n: n, a: -20 * P, len: 40 * P, amp: amp, x0: x0, t: t,
      u0: s0.foldl([], (l, v) => l.append(v.u)), ut: s0.foldl([], (l, v) => l.append(v.ut)),
      u1: xs.foldl([], (l, x) => l.append(soliton(amp, x0, t, x).u)) }
  }
  var r: Rhs
  var s: Sol
  var q: Run
  action pick = { nondet seed = oneOf(0.to(2^48)) all { r' = rhs(seed), s' = sol(seed), q' = run1(seed) } }
  action init = pick
  action step = pick
  // the nonlinear term has no mean (mass is conserved), diffusion damps and dispersion only rotates, and the solitons solve the equation
  val safe = and {
    cinf(r.nf[0]) <= P / 2^60,
    r.l[0] == C0,
    r.l.indices().forall(i => if (r.kdv) r.l[i]._1 == 0 else r.l[i]._1 <= 0 and r.l[i]._2 == 0),
    s.residual <= P / 2^60 }
}
