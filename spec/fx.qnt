// -*- mode: Bluespec; -*-
// Fixed-point real and complex arithmetic on unbounded integers.
// A real x is represented by the integer x*P (rounded toward zero), P = 2^128.
// A complex number is a pair (re, im) of such integers.
module fx {
  pure val P: int = 2^128
  pure val ONE: int = P
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def imin(a: int, b: int): int = if (a < b) a else b
  // num/den as a fixed-point real
  pure def rat(num: int, den: int): int = num * P / den
  pure def fmul(a: int, b: int): int = a * b / P
  pure def fdiv(a: int, b: int): int = a * P / b
  // Euclidean-style remainder in [0, m)
  pure def mod(a: int, m: int): int = { val r = a % m  if (r < 0) r + m else r }

  // ---- integer roots -------------------------------------------------
  // number of bits of n >= 0, up to 2^8191
  pure def bitlen(n: int): int =
    [4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl((n, 0), (acc, k) =>
      if (acc._1 >= 2^k) (acc._1 / 2^k, acc._2 + k) else acc)._2 + (if (n > 0) 1 else 0)
  // floor of the k-th root of n (k >= 2), by Newton's iteration from above
  pure def iroot(n: int, k: int): int =
    if (n <= 0) 0 else {
      val x0 = 2^((bitlen(n) + k - 1) / k)
      range(0, 40).foldl((x0, false), (acc, _i) =>
        if (acc._2) acc else {
          val x = acc._1
          val y = ((k - 1) * x + n / x^(k - 1)) / k
          if (y >= x) (x, true) else (y, false)
        })._1
    }
  // fixed-point k-th root of a fixed-point number
  pure def froot(a: int, k: int): int = iroot(a * P^(k - 1), k)
  pure def fsqrt(a: int): int = froot(a, 2)

  // ---- complex -------------------------------------------------------
  type Cx = (int, int)
  pure val C0: Cx = (0, 0)
  pure val C1: Cx = (P, 0)
  pure def cadd(a: Cx, b: Cx): Cx = (a._1 + b._1, a._2 + b._2)
  pure def csub(a: Cx, b: Cx): Cx = (a._1 - b._1, a._2 - b._2)
  pure def cneg(a: Cx): Cx = (-a._1, -a._2)
  pure def cmul(a: Cx, b: Cx): Cx =
    ((a._1 * b._1 - a._2 * b._2) / P, (a._1 * b._2 + a._2 * b._1) / P)
  pure def csqr(a: Cx): Cx =
    ((a._1 * a._1 - a._2 * a._2) / P, 2 * a._1 * a._2 / P)
  // times / divided by a plain integer
  pure def cscale(a: Cx, n: int): Cx = (a._1 * n, a._2 * n)
  pure def crat(a: Cx, n: int, d: int): Cx = (a._1 * n / d, a._2 * n / d)
  // times a fixed-point real
  pure def cfmul(a: Cx, s: int): Cx = (a._1 * s / P, a._2 * s / P)
  pure def cnorm2(a: Cx): int = (a._1 * a._1 + a._2 * a._2) / P      // |a|^2, fixed point
  pure def cabs(a: Cx): int = iroot(a._1 * a._1 + a._2 * a._2, 2)
  pure def cdiv(a: Cx, b: Cx): Cx = {
    val n = b._1 * b._1 + b._2 * b._2
    ((a._1 * b._1 + a._2 * b._2) * P / n, (a._2 * b._1 - a._1 * b._2) * P / n)
  }
  // max(|re|,|im|)
  pure def cinf(a: Cx): int = imax(abs(a._1), abs(a._2))

  // e^z by scaling and squaring
  pure def cexp(z: Cx): Cx = {
    val k = imax(0, bitlen(cinf(z)) - 128 + 4)       // |z|/2^k < 2^-3 or so
    val w = (z._1 / 2^k, z._2 / 2^k)
    val t = range(1, 32).foldl((C1, C1), (acc, n) => {
      val term = crat(cmul(acc._2, w), 1, n)
      (cadd(acc._1, term), term)
    })._1
    range(0, k).foldl(t, (acc, _i) => csqr(acc))
  }

  // psi_r(z) = r! * phi_r(z), r = 0..3 ; psi_0 = exp, psi_r(0) = 1
  // returns [e^z, psi1, psi2, psi3]
  pure def psis(z: Cx): List[Cx] =
    if (cinf(z) < P / 2) {
      // phi_r(z) = sum_k z^k / (k+r)!
      val s = range(0, 36).foldl({ t: C1, e: C0, p1: C0, p2: C0, p3: C0 }, (a, k) => {
        // a.t = z^k / k!
        { t: crat(cmul(a.t, z), 1, k + 1),
          e: cadd(a.e, a.t),
          p1: cadd(a.p1, crat(a.t, 1, k + 1)),
          p2: cadd(a.p2, crat(a.t, 2, (k + 1) * (k + 2))),
          p3: cadd(a.p3, crat(a.t, 6, (k + 1) * (k + 2) * (k + 3))) }
      })
      [s.e, s.p1, s.p2, s.p3]
    } else {
      val e = cexp(z)
      val p1 = cdiv(csub(e, C1), z)
      val p2 = cdiv(cscale(csub(p1, C1), 2), z)
      val p3 = cdiv(cscale(csub(p2, C1), 3), z)
      [e, p1, p2, p3]
    }

  // ---- vectors -------------------------------------------------------
  type Vec = List[Cx]
  pure def vmap(v: Vec, f: (Cx) => Cx): Vec = range(0, v.length()).foldl([], (acc, i) => acc.append(f(v[i])))
  pure def vadd(a: Vec, b: Vec): Vec = range(0, a.length()).foldl([], (acc, i) => acc.append(cadd(a[i], b[i])))
  pure def vsub(a: Vec, b: Vec): Vec = range(0, a.length()).foldl([], (acc, i) => acc.append(csub(a[i], b[i])))
  pure def vmul(a: Vec, b: Vec): Vec = range(0, a.length()).foldl([], (acc, i) => acc.append(cmul(a[i], b[i])))
  pure def vnorm2(a: Vec): int = range(0, a.length()).foldl(0, (acc, i) => acc + a[i]._1 * a[i]._1 + a[i]._2 * a[i]._2)  // scale P^2
  pure def vnorm(a: Vec): int = iroot(vnorm2(a), 2)

  // ---- matrices (lists of rows) --------------------------------------
  type Mat = List[Vec]
  pure def dot(a: Vec, b: Vec): Cx = {
    val s = range(0, a.length()).foldl((0, 0), (acc, i) =>
      (acc._1 + a[i]._1 * b[i]._1 - a[i]._2 * b[i]._2, acc._2 + a[i]._1 * b[i]._2 + a[i]._2 * b[i]._1))
    (s._1 / P, s._2 / P)
  }
  pure def mv(m: Mat, v: Vec): Vec = range(0, m.length()).foldl([], (acc, i) => acc.append(dot(m[i], v)))
  pure def transpose(m: Mat): Mat = range(0, m.length()).foldl([], (acc, i) =>
    acc.append(range(0, m.length()).foldl([], (row, j) => row.append(m[j][i]))))
  pure def mm(a: Mat, b: Mat): Mat = {
    val bt = transpose(b)
    range(0, a.length()).foldl([], (acc, i) => acc.append(mv(bt, a[i])))
  }
  pure def madd(a: Mat, b: Mat): Mat = range(0, a.length()).foldl([], (acc, i) => acc.append(vadd(a[i], b[i])))
  pure def mrat(a: Mat, n: int, d: int): Mat = range(0, a.length()).foldl([], (acc, i) => acc.append(vmap(a[i], x => crat(x, n, d))))
  pure def meye(n: int): Mat = range(0, n).foldl([], (acc, i) =>
    acc.append(range(0, n).foldl([], (row, j) => row.append(if (i == j) C1 else C0))))
  pure def mdiag(v: Vec): Mat = range(0, v.length()).foldl([], (acc, i) =>
    acc.append(range(0, v.length()).foldl([], (row, j) => row.append(if (i == j) v[i] else C0))))

  // ---- checks of the arithmetic itself -------------------------------
  run arithTest = all {
    assert(iroot(1000000007 * 1000000007, 2) == 1000000007),
    assert(iroot(3^50, 5) == 3^10),
    assert(iroot(3^50 - 1, 5) == 3^10 - 1),
    assert(bitlen(0) == 0 and bitlen(1) == 1 and bitlen(255) == 8 and bitlen(256) == 9),
    // e = 2.71828182845904523536028747135266...
    assert(abs(cexp(C1)._1 - 271828182845904523536028747135266 * P / 10^32) < P / 10^30),
    // e^{i pi} = -1
    assert(cinf(cadd(cexp((0, 314159265358979323846264338327950288 * P / 10^35)), C1)) < P / 10^30),
    assert(cinf(csub(cmul(cexp((5 * P, 3 * P)), cexp((-5 * P, -3 * P))), C1)) < P / 10^30),
    // psi recursion and series agree across the switch
    assert({ val a = psis((P / 2, 0))  val b = psis((P / 2 - 1, 0))
             range(0, 4).indices().forall(i => cinf(csub(a[i], b[i])) < P / 10^28) })
  }
}
