// -*- mode: Bluespec; -*-
// The step factor of a trial with new state u and error estimate e:
//     s = safety * (epsilon * |u'| / |e'|)^(1/q)
// u', e' being the components whose size relative to the largest one exceeds adapt_cutoff.
module factor {
  import fx.* from "./fx"
  const FNEAR: int      // relative resolution below which two numbers need not be told apart
  pure def n2(a: Cx): int = a._1 * a._1 + a._2 * a._2
  pure def imax2(a: int, b: int): int = if (a > b) a else b
  pure def indistinct(a: int, b: int): bool = a != b and abs(a - b) * FNEAR < abs(a) + abs(b)
  // amb: which components count, or how large s is, cannot be told at this resolution
  pure def stepFactor(eps: int, safety: int, cut: int, q: int, u: Vec, e: Vec): { s: int, amb: bool } = {
      val m2 = u.indices().fold(0, (m, i) => imax2(m, n2(u[i])))
      // |u_i| > cut |u|max, compared as squares
      val lim = cut * cut * m2
      val keep = range(0, u.length()).foldl([], (l, i) => if (m2 == 0 or n2(u[i]) * P * P > lim) l.append(i) else l)
      val edge = lim > 0 and (u.indices().exists(i => m2 != 0 and indistinct(n2(u[i]) * P * P, lim)) or (m2 != 0 and u.indices().exists(i => n2(u[i]) * P * P == lim)))
      val uu = keep.foldl(0, (a, i) => a + n2(u[i]))
      val ee = keep.foldl(0, (a, i) => a + n2(e[i]))
      if (ee == 0) { s: 4 * P, amb: edge }
      else {
        // (eps^2 uu / ee) at scale P, then its 2q-th root
        val x = eps * eps * uu / ee / P
        val r = froot(x, 2 * q)
        val s = safety * r / P
        // exact when a single component decides and q = 1
        val s1 = if (keep.length() == 1 and q == 1 and u[keep[0]]._2 == 0 and e[keep[0]]._2 == 0)
                   safety * (eps * abs(u[keep[0]]._1) / abs(e[keep[0]]._1)) / P else s
        { s: s1, amb: edge or (uu > 0 and x < 2^40) }
      }
  }
}
