// -*- mode: Bluespec; -*-
// Constant-step evolution: the grid t0 + k h, how many steps reach the end time, what is recorded, when it is refused.
// Times are exact rationals num / den; the implementation gets the nearest floats, so neither t0, tf nor h need be
// representable and sums of h need not meet tf.
module gridcs {
  import fx.* from "./fx"
  import problem.* from "./problem"
  pure def SC = 10^18
  type Case = { t0: int, tf: int, h: int, den: int, store: bool, freq: int, kind: int }
  type St = { k: int, rec: List[int], done: bool, refused: bool }    // rec: recorded step numbers
  // steps needed so that t0 + n h reaches tf up to rounding (a millionth of a step): least n with tf - t0 - n h <= h/10^6
  pure def reached(c: Case, n: int): bool = (c.tf - c.t0 - n * c.h) * 1000000 <= c.h
  pure def refuses(c: Case): bool = (c.h - (c.tf - c.t0)) * 1000000 > c.h
  // the decision is clear of the rounding threshold on either side
  pure def clear(c: Case): bool = {
    val r = mod(c.tf - c.t0, c.h)            // remainder of the last, partial step
    r == 0 or (r * 10000 > c.h and (c.h - r) * 10000 > c.h)
  }
  pure def gen(seed: int): Case = {
    val den = [64, 1000, 3, 7, 10, 49, 1024, 30, 360, 10^6, 9, 11][below(seed, 1, 12)]
    val h = if (den >= 1000) rin(seed, 2, 1, den / 5) else rin(seed, 2, 1, 4)
    val kind = below(seed, 3, 8)
    val steps = [1, 1, 2, 3, 7, 10, 33, 100, 128, 130, 257, 1000, 3000][below(seed, 4, 13)]
    val t0 = [0, 0, den, -den, 5 * den, -7 * h, 3 * h, 1000 * den, -steps * h, 1000003 * h][below(seed, 5, 10)]
    // 0..5: a whole number of steps; 6: ends in the middle of a step; 7: h exceeds the interval
    val m = 1000
    val tf = if (kind <= 5) t0 * m + steps * h * m
             else if (kind == 6) t0 * m + steps * h * m - h * rin(seed, 6, 1, m - 1)
             else t0 * m + h * rin(seed, 7, -100, m - 1)
    { t0: t0 * m, tf: tf, h: h * m, den: den * m, store: below(seed, 8, 5) > 0, freq: [1, 1, 2, 3, 5, 10, 1000][below(seed, 9, 7)], kind: kind }
  }
  var c: Case
  var st: St
  action init = { nondet seed = oneOf(0.to(2^48)) val cc = gen(seed)
    all { c' = cc, st' = { k: 0, rec: if (cc.store) [0] else [], refused: refuses(cc), done: refuses(cc) or reached(cc, 0) } } }
  action advance = { val k = st.k + 1
    all { not(st.done), c' = c,
          st' = { ...st, k: k, rec: if (c.store and k % c.freq == 0) st.rec.append(k) else st.rec, done: reached(c, k) } } }
  // jump over the uneventful middle of long evolutions
  action finish = all { not(st.done), c' = c, {
    val k = range(0, 13).foldl((0, 4096), (b, _i) => { val mid = (b._1 + b._2) / 2  if (reached(c, mid)) (b._1, mid) else (mid, b._2) })._2
    st' = { ...st, k: k, rec: if (c.store) range(st.k + 1, k + 1).foldl(st.rec, (l, i) => if (i % c.freq == 0) l.append(i) else l) else st.rec, done: true } } }
  action again = all { st.done, nondet seed = oneOf(0.to(2^48)) val cc = gen(seed)
    all { c' = cc, st' = { k: 0, rec: if (cc.store) [0] else [], refused: refuses(cc), done: refuses(cc) or reached(cc, 0) } } }
  action step = any { advance, finish, again }
  // the grid reaches tf, at most one (partial) step beyond it, and never stops early
  val safe = and {
    st.k > 0 implies not(reached(c, st.k - 1)),
    (st.done and not(st.refused)) implies (reached(c, st.k) and (c.t0 + st.k * c.h - c.tf < c.h or st.k <= 1)),
    st.refused implies st.k == 0,
    c.store implies st.rec.length() == 1 + st.k / c.freq,
    not(c.store) implies st.rec.length() == 0,
  }
}
