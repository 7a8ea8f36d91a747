// -*- mode: Bluespec; -*-
// Problems u' = L u + N(u) with dyadic data (so that the implementation gets
// bit-for-bit the same inputs), derived from a seed by a linear congruential
// generator.  N is a holomorphic polynomial field
//    N_i(u) = c_i + a_i u_{i+1} + b_i u_i u_{i+1} + d_i u_i^3      (indices mod n)
module problem {
  import fx.* from "./fx"

  // i-th pseudo-random natural of a seed (splitmix64-like)
  pure def rnd(seed: int, i: int): int = {
    val a = mod((seed + i * 11400714819323198485 + 1442695040888963407) * 6364136223846793005, 2^64)
    val b = mod((a / 2^29 + a) * 13787848793156543929, 2^64)
    mod((b / 2^31 + b) * 10723151780598845931, 2^64) / 2^13
  }
  pure def below(seed: int, i: int, n: int): int = mod(rnd(seed, i), n)
  // an integer in [lo, hi]
  pure def rin(seed: int, i: int, lo: int, hi: int): int = lo + mod(rnd(seed, i), hi - lo + 1)
  // dyadic fixed point: integer in [-m, m] divided by den
  pure def dy(seed: int, i: int, m: int, den: int): int = rin(seed, i, -m, m) * P / den

  type Poly = { c: Vec, a: Vec, b: Vec, d: Vec }
  pure def nlPoly(p: Poly, u: Vec): Vec = {
    val n = u.length()
    range(0, n).foldl([], (acc, i) => {
      val v = u[mod(i + 1, n)]
      val w = u[i]
      acc.append(cadd(cadd(p.c[i], cmul(p.a[i], v)), cadd(cmul(p.b[i], cmul(w, v)), cmul(p.d[i], cmul(csqr(w), w)))))
    })
  }
  // one vector with entries in [-m,m]/den (+ i same unless real)
  pure def rvec(seed: int, base: int, n: int, m: int, den: int, real: bool): Vec =
    range(0, n).foldl([], (acc, i) => acc.append((dy(seed, base + 2 * i, m, den), if (real) 0 else dy(seed, base + 2 * i + 1, m, den))))
  pure def zvec(n: int): Vec = range(0, n).foldl([], (acc, i) => acc.append(C0))
  // kind: 0 full polynomial, 1 none (N = 0), 2 constant, 3 linear coupling, 4 quadratic
  pure def rpoly(seed: int, n: int, kind: int, real: bool): Poly = {
    c: if (kind == 0 or kind == 2 or kind == 4) rvec(seed, 100, n, 24, 32, real) else zvec(n),
    a: if (kind == 0 or kind == 3) rvec(seed, 120, n, 24, 32, real) else zvec(n),
    b: if (kind == 0 or kind == 4) rvec(seed, 140, n, 16, 32, real) else zvec(n),
    d: if (kind == 0) rvec(seed, 160, n, 8, 32, real) else zvec(n) }
  // step size m/1024 in several ranges
  pure def rstep(seed: int, i: int): int = {
    val k = below(seed, i, 4)
    if (k == 0) rin(seed, i + 1, 1, 31) * P / 1024
    else if (k == 1) rin(seed, i + 1, 32, 255) * P / 1024
    else if (k == 2) rin(seed, i + 1, 256, 1024) * P / 1024
    else P / 2^(rin(seed, i + 1, 0, 8))
  }
  // one eigenvalue.  regimes by `reg`
  //  0 zero  1 O(1) complex, left half plane  2 tiny  3 around 1e-2..1e-1  4 stiff real  5 stiff imaginary
  //  6 very stiff  7 mildly unstable  8 O(1) imaginary
  pure def reig(seed: int, i: int, reg: int, real: bool): Cx = {
    val a = rin(seed, i, 1, 1023)
    val b = rin(seed, i + 1, -1023, 1023)
    val im = if (real) 0 else b
    if (reg == 0) C0
    else if (reg == 1) (-a * P / 256, im * P / 256)
    else if (reg == 2) (-a * P / 2^22, im * P / 2^22)
    else if (reg == 3) ((if (b > 0) a else -a) * P / 2^13, im * P / 2^13)
    else if (reg == 4) (-a * P / 4, im * P / 64)
    else if (reg == 5) (if (real) -a * P / 8 else 0, im * P / 4)
    else if (reg == 6) (-a * P * 64, im * P * 16)
    else if (reg == 7) (a * P / 1024, im * P / 512)
    else (if (real) -a * P / 512 else 0, im * P / 256)
  }
}
