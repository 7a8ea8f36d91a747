// -*- mode: Bluespec; -*-
// Periodic grids, their wavenumbers, and spectral differentiation; mirrored radial grids.
module spectral {
  import fx.* from "./fx"
  import problem.* from "./problem"
  import fields.* from "./fields"

  // ---- grids ---------------------------------------------------------
  // form of the argument n: 0 int, 1 float, 2 text, 3 none
  // the grid as seen at sampled positions: at[i] -> x[at[i]], kat[i] -> kx[kat[i]]
  type Grid = { real: bool, n: int, form: int, dflt: int, a: int, b: int, exc: str, at: List[int], x: List[int], kat: List[int], kx: List[int] }
  pure def positions(seed: int, i: int, n: int): List[int] =
    if (n <= 32) range(0, n).foldl([], (l, j) => l.append(j)) else range(0, 16).foldl([], (l, j) => l.append(if (j == 0) 0 else if (j == 1) n - 1 else if (j == 2) n / 2 else if (j == 3) n / 2 - 1 else if (j == 4) n - n / 2 else below(seed, i + j, n)))
  pure def endpoint(seed: int, i: int, unit: int): int =
    if (unit == 0) rin(seed, i, -64, 64) * P / 16 else if (unit == 1) rin(seed, i, -16, 16) * PI / 4 else if (unit == 2) rin(seed, i, -10^6, 10^6) * P else rin(seed, i, -99, 99) * P / 10
  pure def span(seed: int, i: int, unit: int): int =
    if (unit == 0) rin(seed, i, 1, 640) * P / 16 else if (unit == 1) rin(seed, i, 1, 64) * PI / 4 else if (unit == 2) rin(seed, i, 1, 10^6) * P else rin(seed, i, 1, 999) * P / 1000
  pure def grid(seed: int): Grid = {
    val real = below(seed, 1, 2) == 0
    val bad = below(seed, 2, 5)
    val n0 = [4, 6, 8, 10, 14, 16, 22, 30, 32, 64, 100, 126, 256, 1000, 1024, 4096, 2050][below(seed, 3, 17)]
    val n = if (bad == 0) [0, 1, 2, 3, 5, 7, 33, 1001, -2, -4, -8, -1][below(seed, 4, 12)] else n0
    val form = if (bad == 1) 1 + below(seed, 5, 3) else 0
    val unit = below(seed, 6, 4)
    // defaults: 2 none given, [0, 2 pi); 1 only a given, [a, 2 pi); 0 both
    val dflt = below(seed, 7, 4)
    val a0 = if (dflt == 2) 0 else if (dflt == 1) -abs(endpoint(seed, 8, unit)) else endpoint(seed, 8, unit)
    val b0 = if (dflt == 1 or dflt == 2) 2 * PI else a0 + span(seed, 9, unit)
    val exc = if (form > 0) "TypeError" else if (n <= 2 or n % 2 != 0) "ValueError" else ""
    if (exc != "") { real: real, n: n, form: form, dflt: dflt, a: a0, b: b0, exc: exc, at: [], x: [], kat: [], kx: [] }
    else {
      val at = positions(seed, 20, n)
      val kat = positions(seed, 40, count(real, n))
      { real: real, n: n, form: form, dflt: dflt, a: a0, b: b0, exc: exc, at: at, x: range(0, at.length()).foldl([], (l, i) => l.append(a0 + (b0 - a0) * at[i] / n)),
        kat: kat, kx: range(0, kat.length()).foldl([], (l, i) => l.append(2 * PI * index(real, n, kat[i]) * P / (b0 - a0))) }
    }
  }

  // ---- differentiation -----------------------------------------------
  // the p-th derivative of u_j = sum_m c_m exp(2 pi i m j/n) on a period of length len
  // err: 0 none, 1 order 1.0, 2 order text, 3 negative order, 4 complex data in the real transform, 5 kx too short, 6 kx too long
  // intk: the wavenumbers are integers, given as such; sym: the data are real (also in the complex transform); ints: they are integers; amp: their magnitude; form: how the arrays lie in memory
  type Der = { real: bool, sym: bool, ints: bool, intk: bool, amp: int, form: int, n: int, p: int, lib: bool, a: int, len: int, err: int, exc: str, kx: List[int], u: Vec, du: Vec, scale: int }
  pure def der(seed: int): Der = {
    val real = below(seed, 1, 2) == 0
    val lib = below(seed, 2, 3) > 0                     // wavenumbers from the library's own grid (even n > 2)
    val large = below(seed, 15, 10) == 0
    val n = if (large) (if (lib) [64, 100, 128, 250, 256] else [31, 37, 97, 243, 255])[below(seed, 3, 5)]
            else if (lib) 2 * rin(seed, 3, 2, 11) else rin(seed, 3, 1, 19)
    val sym = real or below(seed, 14, 3) == 0
    val unit = [0, 1, 3][below(seed, 4, 3)]
    val len = span(seed, 5, unit)
    val intk = not(lib) and below(seed, 23, 3) == 0
    val p = if (intk and below(seed, 24, 2) == 0) [7, 8, 12, 16][below(seed, 6, 4)] else [1, 1, 2, 2, 3, 3, 4, 5, 6, 0][below(seed, 6, 10)]
    val e = below(seed, 7, 12)
    val err = if (e > 6 or (e == 4 and not(real)) or (p == 0 and e > 4)) 0 else e
    val full = range(0, n).foldl([], (l, j) => l.append(if (2 * j < n or (real and 2 * j == n)) j else j - n))
    // which modes are present: all, few, the highest only
    val which = if (large) 4 else below(seed, 8, 5)
    val ints = which == 3
    val amp = if (ints) P else [P, P, P, P, P * 2^30, P / 2^36][below(seed, 16, 6)]
    val thin = if (sym or ints) 0 else [0, 0, 2^28, 2^32, 2^36][below(seed, 26, 5)]
    val some = [below(seed, 18, n), below(seed, 19, n), [n / 2, 0, 1 % n][below(seed, 20, 3)]]
    val c = range(0, n).foldl([], (l, j) => l.append(
      if (which == 1 and below(seed, 50 + j, 3) > 0 or which == 2 and j != n / 2 or which == 4 and not(j == some[0] or j == some[1] or j == some[2])) C0
      else { val f = amp / (if (amp >= P and below(seed, 21, 3) == 0 and below(seed, 70 + j, 3) == 0) 2^32 else 1)
             (fmul(dy(seed, 100 + 2 * j, 64, 64), f), fmul(dy(seed, 101 + 2 * j, 64, 64), f)) }))
    val w1 = cexp((0, 2 * PI / n))
    val w = range(1, n).foldl([C1], (l, j) => l.append(if (j % 16 == 0) cexp((0, 2 * PI * j / n)) else cmul(l[j - 1], w1)))
    // any sequence of integers is a trigonometric polynomial, too
    val iu = range(0, n).foldl([], (l, j) => l.append((rin(seed, 400 + 2 * j, -9, 9) * P, if (sym) 0 else rin(seed, 401 + 2 * j, -9, 9) * P)))
    // conjugate symmetry of real data
    val cs = if (ints) range(0, n).foldl([], (l, m) => l.append(range(0, n).foldl(C0, (s, j) => cadd(s, cmul((iu[j]._1 / n, iu[j]._2 / n), w[mod(-m * j, n)])))))
      else {
        val even = range(0, n).foldl([], (l, j) => l.append(if (j == 0 or 2 * j == n) (c[j]._1, 0) else if (2 * j < n) c[j] else (c[n - j]._1, -c[n - j]._2)))
        // data that are nearly real, or nearly imaginary
        if (sym) even else if (thin == 0) c else range(0, n).foldl([], (l, j) => {
          val s = even[mod(j + 1, n)]
          val o = if (j == 0 or 2 * j == n) (s._1, 0) else if (2 * j < n) even[j] else (even[n - j]._1, -even[n - j]._2)
          val z = cadd(even[j], (-o._2 / thin, o._1 / thin))
          l.append(if (below(seed, 27, 2) == 0) z else (-z._2, z._1)) })
      }
    val k = range(0, n).foldl([], (l, j) => l.append(if (intk) full[j] * [1, 2, 5, 30, 200][below(seed, 25, 5)] * P else 2 * PI * full[j] * P / len))
    pure def synth(f: List[Cx]): List[Cx] = {
      val on = range(0, n).foldl([], (l, m) => if (f[m] == C0) l else l.append(m))
      range(0, n).foldl([], (l, j) => l.append(on.foldl(C0, (s, m) => cadd(s, cmul(f[m], w[(m * j) % n]))))) }
    // an odd derivative of the highest mode of an even grid is invisible in real data
    val d = range(0, n).foldl([], (l, j) => l.append(if (real and 2 * j == n and p % 2 == 1) C0 else cmul(cs[j], cpow((0, k[j]), p))))
    val u = synth(cs)
    val du = synth(d)
    val q = count(real, n)
    { real: real, sym: sym, ints: ints, intk: intk, amp: amp, form: below(seed, 22, 5), n: n, p: p, lib: lib, a: endpoint(seed, 9, unit), len: len, err: err,
      exc: if (err == 0) "" else if (err == 1 or err == 2 or err == 4) "TypeError" else "ValueError",
      kx: range(0, if (err == 5) q - 1 else if (err == 6) q + 1 else q).foldl([], (l, j) => l.append(if (j < n) k[j] else k[n - 1])),
      u: u, du: du, scale: range(0, n).foldl(0, (s, j) => imax(s, cpow((abs(k[j]), 0), p)._1)) }
  }

  // ---- mirroring -----------------------------------------------------
  // data u: rows x cols (rows == 0: none; one row and oned: a vector).  axis -1, 0, 1, or invalid
  type Mir = { r: List[int], oned: bool, none: bool, u: List[Vec], axis: int, given: bool, exc: str, rn: List[int], un: List[Vec], cx: bool, ints: bool, deep: bool, form: int }
  pure def rev(v: Vec): Vec = range(0, v.length()).foldl([], (l, i) => l.append(v[v.length() - 1 - i]))
  pure def mir(seed: int): Mir = {
    val n = rin(seed, 1, 1, 7)
    val r = range(0, n).foldl([], (l, i) => l.append((if (i == 0) 0 else l[i - 1]) + rin(seed, 10 + i, if (i == 0) 0 else 1, 32) * P / 16))
    val kind = below(seed, 2, 5)               // 0 none, 1 vector, 2 rows, 3 columns, 4 invalid axis
    val m = rin(seed, 3, 1, 5)
    val flat = kind <= 1 or (kind == 4 and m <= 2)          // a vector, which has no axis 2 either
    val rows = if (kind == 2) n else if (kind == 3 or not(flat)) m else 1
    val cols = if (kind == 2) m else n
    val ints = below(seed, 7, 4) == 0
    val cx = not(ints) and below(seed, 4, 2) == 0
    val u = range(0, rows).foldl([], (l, i) => l.append(rvec(seed, 100 + 40 * i, cols, 99, if (ints) 1 else 16, not(cx))))
    { ints: ints, deep: below(seed, 8, 4) == 0, form: below(seed, 9, 5), r: r, oned: flat, none: kind == 0, u: u, cx: cx, axis: if (kind == 2) 0 else if (kind == 3) 1 else if (kind == 4) [2, -2, 3, 7][below(seed, 5, 4)] else -1,
      given: kind != 1 or below(seed, 6, 2) == 0, exc: if (kind == 4) "ValueError" else "",
      rn: range(0, 2 * n).foldl([], (l, i) => l.append(if (i < n) -r[n - 1 - i] else r[i - n])),
      un: if (kind == 2) range(0, 2 * n).foldl([], (l, i) => l.append(if (i < n) u[n - 1 - i] else u[i - n]))
          else range(0, rows).foldl([], (l, i) => l.append(rev(u[i]).concat(u[i]))) }
  }

  var g: Grid
  var d: Der
  var m: Mir
  action pick = { nondet s = oneOf(0.to(2^48)) all { g' = grid(s), d' = der(s), m' = mir(s) } }
  action init = pick
  action step = pick
  // grids: spacing times highest wavenumber is pi; derivatives of real data are real, and have no mean;
  // mirrored data are symmetric
  val safe = and {
    g.exc == "" implies abs(fmul((g.b - g.a) / g.n, 2 * PI * (g.n / 2) * P / (g.b - g.a)) - PI) < P / 2^60,
    d.real implies d.du.indices().forall(j => abs(d.du[j]._2) <= P / 2^60 * (d.scale / P + 1)),
    d.p > 0 implies cinf(d.du.foldl(C0, (s, x) => cadd(s, x))) <= P / 2^60 * (d.scale / P + 1),
    m.rn.indices().forall(i => m.rn[i] == -m.rn[m.rn.length() - 1 - i]),
    m.rn.indices().forall(i => i == 0 or m.rn[i - 1] <= m.rn[i]) }
}
