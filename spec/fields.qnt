// -*- mode: Bluespec; -*-
// Pure functions shared by the specifications of grids, derivatives and models: wavenumbers, Chebyshev nodes and matrices, solitons.
module fields {
  import fx.* from "./fx"
  pure val PI: int = 314159265358979323846264338327950288419716939937510582097494459 * P / 10^62
  // ---- periodic grids
  // the wavenumber index of position j: 0 1 .. n/2-1, then -n/2 .. -1 (full transform); 0 .. n/2 (real transform)
  pure def index(real: bool, n: int, j: int): int = if (real or 2 * j < n) j else j - n
  pure def count(real: bool, n: int): int = if (real) n / 2 + 1 else n
  pure def cpow(z: Cx, p: int): Cx = range(0, p).foldl(C1, (acc, _i) => cmul(acc, z))
  // ---- Chebyshev grids
  // nodes of degree n on [a, b], from a to b:  a + (b - a) (1 - cos(pi j / n)) / 2
  pure def nodes(n: int, a: int, b: int): List[int] =
    range(0, n + 1).foldl([], (l, j) => l.append(if (j == n) b else a + (b - a) * (P - cexp((0, PI * j / n))._1) / (2 * P)))
  // the differentiation matrix: derivatives of the Lagrange polynomials at the nodes
  pure def weight(n: int, j: int): int = (if (j == 0 or j == n) 2 else 1) * (if (j % 2 == 0) 1 else -1)
  pure def diffmat(n: int, x: List[int]): List[List[int]] = range(0, n + 1).foldl([], (rows, i) => {
    val off = range(0, n + 1).foldl([], (r, j) => r.append(if (i == j) 0 else P * P * weight(n, i) / (weight(n, j) * (x[i] - x[j]))))
    val sum = off.foldl(0, (s, v) => s + v)
    rows.append(off.replaceAt(i, -sum))
  })
  pure def rdot(a: List[int], b: List[int]): int = range(0, a.length()).foldl(0, (s, i) => s + a[i] * b[i]) / P
  pure def rapply(m: List[List[int]], v: List[int]): List[int] = range(0, m.length()).foldl([], (l, i) => l.append(rdot(m[i], v)))
  pure def rpow(x: int, p: int): int = range(0, p).foldl(P, (f, _i) => fmul(f, x))
  pure def rmax(m: List[List[int]]): int = m.foldl(0, (s, r) => imax(s, r.foldl(0, (t, v) => t + abs(v))))
  // ---- solitons
  // profile and time derivative of a soliton of amplitude parameter a at x0 + a^2 t
  pure def soliton(a: int, x0: int, t: int, x: int): { u: int, ut: int, ux: int, uxxx: int } = {
    val th = fmul(a, x - x0 - fmul(fmul(a, a), t)) / 2
    val y = imin(abs(th), 60 * P)                       // beyond 60 nothing is left at this resolution
    val e = cexp((-2 * y, 0))._1                         // e^(-2|th|)
    val s = 4 * fdiv(e, fmul(P + e, P + e))              // sech^2
    val tanh = (if (th < 0) -1 else 1) * fdiv(P - e, P + e)
    val a2 = fmul(a, a)
    val a5 = fmul(fmul(a2, a2), a)
    val st = fmul(s, tanh)
    { u: fmul(a2, s) / 2, ut: fmul(a5, st) / 2, ux: -fmul(fmul(a2, a), st) / 2, uxxx: fmul(fmul(a5, 6 * s - 2 * P), st) / 4 }
  }
}
