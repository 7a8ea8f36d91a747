// -*- mode: Bluespec; -*-
// The exact flow of u' = L u + N(u), by its Taylor series at t = 0:  the meaning of a time step,
// with no reference to any Runge-Kutta scheme.
module flow {
  import fx.* from "./fx"
  import problem.* from "./problem"
  const DENSE: bool
  pure val K = 30

  type Case = { n: int, real: bool, L: Mat, lam: Vec, u: Vec, poly: Poly, h: int, style: int }
  // exact solution at h, h/2, h/4, h/8, h/32, h/128 and the magnitude of the highest series terms
  type Out = { at: List[Vec], rem: int }

  // coefficient k of the product of two series
  pure def cauchy(a: List[Cx], b: List[Cx], k: int): Cx = {
    val s = range(0, k + 1).foldl((0, 0), (acc, i) => {
      val x = a[i]
      val y = b[k - i]
      (acc._1 + x._1 * y._1 - x._2 * y._2, acc._2 + x._1 * y._2 + x._2 * y._1)
    })
    (s._1 / P, s._2 / P)
  }
  // series of each component, in powers of (t / h)
  pure def series(c: Case): List[List[Cx]] = {
    val n = c.n
    val i0 = { u: vmap1(c.u), q: range(0, n).foldl([], (a, i) => a.append([])) }
    range(0, K).foldl(i0, (st, k) => {
      // q_i = u_i^2 up to order k
      val q = range(0, n).foldl([], (acc, i) => acc.append(st.q[i].append(cauchy(st.u[i], st.u[i], k))))
      val uk = range(0, n).foldl([], (acc, i) => acc.append(st.u[i][k]))
      val lin = if (DENSE) mv(c.L, uk) else vmul(c.lam, uk)
      val nxt = range(0, n).foldl([], (acc, i) => {
        val j = mod(i + 1, n)
        val s0 = if (k == 0) cadd(lin[i], c.poly.c[i]) else lin[i]
        val s1 = cadd(s0, cmul(c.poly.a[i], st.u[j][k]))
        val s2 = cadd(s1, cmul(c.poly.b[i], cauchy(st.u[i], st.u[j], k)))
        val s3 = cadd(s2, cmul(c.poly.d[i], cauchy(q[i], st.u[i], k)))
        acc.append(st.u[i].append(crat(cfmul(s3, c.h), 1, k + 1)))
      })
      { u: nxt, q: q }
    }).u
  }
  pure def vmap1(v: Vec): List[List[Cx]] = range(0, v.length()).foldl([], (acc, i) => acc.append([v[i]]))
  pure def gen(seed: int): Case = {
    val n = rin(seed, 1, if (DENSE) 2 else 1, 3)
    val real = below(seed, 2, 2) == 0
    val style = below(seed, 3, 5)      // 0: L = 0, 1: tiny modes, 2: L = lambda I, else O(1)
    val den = if (style == 1) 2^16 else 2^9
    val lam = range(0, n).foldl([], (acc, i) => acc.append(
      if (style == 0) C0 else { val m = if (style == 2) 0 else i
        (rin(seed, 20 + 2 * m, -1023, 256) * P / den, if (real) 0 else rin(seed, 21 + 2 * m, -1023, 1023) * P / den) }))
    { n: n, real: real, style: style, lam: lam,
      L: if (DENSE) range(0, n).foldl([], (acc, i) => acc.append(rvec(seed, 300 + 20 * i, n, 1023, den, real))) else [],
      u: range(0, n).foldl([], (acc, i) => acc.append((rin(seed, 60 + 2 * i, 24, 64) * P / 64, if (real) 0 else dy(seed, 61 + 2 * i, 40, 64)))),
      poly: { c: rvec(seed, 100, n, 24, 32, real), a: rvec(seed, 120, n, 32, 32, real),
              b: range(0, n).foldl([], (acc, i) => acc.append((rin(seed, 140 + 2 * i, 24, 40) * P / 32, if (real) 0 else dy(seed, 141 + 2 * i, 24, 32)))),
              d: range(0, n).foldl([], (acc, i) => acc.append((rin(seed, 160 + 2 * i, -24, -8) * P / 32, if (real) 0 else dy(seed, 161 + 2 * i, 8, 32)))) },
      h: P / 4 }
  }
  pure def eval(c: Case): Out = {
    val s = series(c)
    { at: [0, 1, 2, 3, 5, 7].foldl([], (l, e) => l.append(s.foldl([], (v, comp) => v.append(
            range(0, K + 1).foldl(C0, (acc, k) => cadd(acc, crat(comp[k], 1, 2^(e * k)))))))),
      rem: s.foldl(0, (m, comp) => imax(m, cinf(comp[K]))) }
  }
  var c: Case
  var o: Out
  action pick(seed: int): bool = { val cc = gen(seed)  all { c' = cc, o' = eval(cc), e' = noEvo } }
  action init = { nondet seed = oneOf(0.to(2^48))  pick(seed) }
  action step = { nondet seed = oneOf(0.to(2^48))  pick(seed) }
  // the truncated series is exact to far below double precision
  val seriesConverged = o.rem < P / 2^50
  // ---- long evolutions: the flow continued window by window, and how much it amplifies a small change of the initial state
  pure val W = 16                    // windows of length 1/W
  pure def damped(seed: int): Case = {
    val k = gen(seed)
    val n = k.n
    val stiff = below(seed, 400, 3) == 0
    val lam = range(0, n).foldl([], (l, i) => l.append(((if (stiff and i == n - 1) -rin(seed, 401, 2, 8) * P else -abs(k.lam[i]._1)), k.lam[i]._2)))
    val full = range(0, n).foldl([], (rows, i) => rows.append(range(0, n).foldl([], (r, j) => r.append(
        if (i == j) (-abs(k.L[i][j]._1) - (if (stiff and i == n - 1) 4 * P else P), k.L[i][j]._2) else k.L[i][j]))))
    { ...k, lam: lam, L: if (DENSE) full else [], h: P / W }
  }
  pure def atEnd(s: List[List[Cx]]): Vec = s.foldl([], (v, comp) => v.append(comp.foldl(C0, (acc, z) => cadd(acc, z))))
  type Path = { at: List[Vec], rem: int }
  pure def path(k: Case, windows: int): Path = range(0, windows).foldl({ at: [k.u], rem: 0 }, (p, i) =>
    if (p.rem > P / 2^40) p else {
      val s = series({ ...k, u: p.at[i] })
      { at: p.at.append(atEnd(s)), rem: s.foldl(p.rem, (m, comp) => imax(m, cinf(comp[K]))) } })
  type Evo = { c: Case, windows: int, mid: int, t0: int, at: List[Vec], ok: bool, gain: int, big: int }
  pure def evo(seed: int): Evo = {
    val k = damped(seed)
    val windows = W * [1, 2, 2, 3][below(seed, 500, 4)]
    val p = path(k, windows)
    val d = 2^80                     // the change of the initial state
    val u2 = range(0, k.n).foldl([], (l, i) => l.append((k.u[i]._1 + (if (below(seed, 510 + i, 2) == 0) d else -d), k.u[i]._2)))
    val p2 = path({ ...k, u: u2 }, windows)
    val fine = p.rem <= P / 2^60 and p2.rem <= P / 2^60
    { c: k, windows: windows, mid: rin(seed, 501, 1, windows - 1), t0: dy(seed, 502, 16, 4), at: p.at, ok: fine,
      gain: if (not(fine)) 0 else range(0, windows + 1).foldl(P, (m, i) => imax(m, vnorm(vsub(p.at[i], p2.at[i])) * P / d)),
      big: p.at.foldl(0, (m, v) => imax(m, vnorm(v))) }
  }
  var e: Evo
  pure val noEvo: Evo = { c: { n: 0, real: true, L: [], lam: [], u: [], poly: { c: [], a: [], b: [], d: [] }, h: 0, style: 0 }, windows: 0, mid: 0, t0: 0, at: [], ok: false, gain: 0, big: 0 }
  pure val noOut: Out = { at: [], rem: 0 }
  action long = { nondet seed = oneOf(0.to(2^48)) all { e' = evo(seed), c' = noEvo.c, o' = noOut } }
  val longSafe = e.ok implies e.at.length() == e.windows + 1
}
module flow_vec { import flow(DENSE = false).* from "./flow" }
module flow_mat { import flow(DENSE = true).* from "./flow" }
