// -*- mode: Bluespec; -*-
// A workbench: several grids, differentiation matrices and model operators alive at once.  Their owner edits them in place
// (filtered or rescaled wavenumbers, boundary rows of a matrix, shifted points), replaces and drops them and overwrites results.
// Every construction depends on its arguments alone, and every derivative or right-hand side on the present contents of its arguments.
module bench {
  import fx.* from "./fx"
  import problem.* from "./problem"
  import fields.* from "./fields"
  // kind 0 empty, 1 periodic (real), 2 periodic (complex), 3 Chebyshev
  type Obj = { kind: int, n: int, a: int, b: int, x: List[int], k: List[int], d: List[List[int]] }
  // kind 0 none, 1 KdV, 2 Burgers, 3 Allen-Cahn: a model keeps the contents its grid had when it was constructed
  type Model = { kind: int, n: int, x: List[int], k: List[int], d: List[List[int]], par: int, factor: int }
  type Op = { name: str, slot: int, kind: int, n: int, a: int, b: int, p: int, j: int, c: int, par: int, u: Vec, want: Vec, scale: int }
  pure val none: Obj = { kind: 0, n: 0, a: 0, b: 0, x: [], k: [], d: [] }
  pure val noModel: Model = { kind: 0, n: 0, x: [], k: [], d: [], par: 0, factor: 1 }
  pure val noOp: Op = { name: "init", slot: 0, kind: 0, n: 0, a: 0, b: 0, p: 0, j: 0, c: 0, par: 0, u: [], want: [], scale: 0 }
  pure def construct(kind: int, n: int, a: int, b: int): Obj =
    if (kind == 3) { val x = nodes(n, a, b)  { ...none, kind: kind, n: n, a: a, b: b, x: x, d: diffmat(n, x) } }
    else { ...none, kind: kind, n: n, a: a, b: b, x: range(0, n).foldl([], (l1, j) => l1.append(a + (b - a) * j / n)),
           k: range(0, count(kind == 1, n)).foldl([], (l2, j) => l2.append(2 * PI * index(kind == 1, n, j) * P / (b - a))) }
  // ---- data
  pure def roots(n: int): Vec = range(0, n).foldl([], (l3, j) => l3.append(cexp((0, 2 * PI * j / n))))
  // real data from a half spectrum (the imaginary parts of its first and last modes do not show), complex data from a full one
  pure def half(f: Vec, n: int): List[int] = { val w = roots(n)  val q = n / 2
    range(0, n).foldl([], (l4, j) => l4.append(f[0]._1 + (if (j % 2 == 0) f[q]._1 else -f[q]._1) + range(1, q).foldl(0, (s, m) => s + 2 * cmul(f[m], w[(m * j) % n])._1))) }
  pure def full(f: Vec, n: int): Vec = { val w = roots(n)  range(0, n).foldl([], (l5, j) => l5.append(range(0, n).foldl(C0, (s, m) => cadd(s, cmul(f[m], w[(m * j) % n]))))) }
  pure def modes(seed: int, n: int, real: bool): Vec =
    range(0, count(real, n)).foldl([], (l6, j) => l6.append((dy(seed, 100 + 2 * j, 64, 64), if (real and (j == 0 or 2 * j == n)) 0 else dy(seed, 101 + 2 * j, 64, 64))))
  pure def cx(v: List[int]): Vec = range(0, v.length()).foldl([], (l7, i) => l7.append((v[i], 0)))
  pure def synth(f: Vec, o: Obj): Vec = if (o.kind == 1) cx(half(f, o.n)) else full(f, o.n)
  pure def derivative(f: Vec, o: Obj, p: int): Vec = synth(range(0, f.length()).foldl([], (l8, j) => l8.append(cmul(f[j], cpow((0, o.k[j]), p)))), o)
  pure def dtimes(d: List[List[int]], v: List[int], p: int): List[int] = range(0, p).foldl(v, (w, _i) => rapply(d, w))
  // ---- models
  pure def linear(m: Model): Vec = if (m.kind == 3) [] else range(0, m.k.length()).foldl([], (l9, j) => l9.append(if (m.kind == 1) (0, m.factor * rpow(m.k[j], 3)) else (-m.factor * fmul(m.par, rpow(m.k[j], 2)), 0)))
  pure def nonlinear(m: Model, f: Vec): Vec =
    if (m.kind == 3) range(0, m.n - 1).foldl([], (l10, i) => l10.append((m.x[i + 1] - rpow(f[i]._1 + m.x[i + 1], 3), 0)))
    else {
      val w = roots(m.n)
      val u = half(f, m.n)
      val ux = half(range(0, f.length()).foldl([], (l11, j) => l11.append(cmul((0, m.k[j]), f[j]))), m.n)
      val prod = range(0, m.n).foldl([], (l12, j) => l12.append(fmul(u[j], ux[j]) * (if (m.kind == 1) -6 else -1) / m.n / m.n))
      range(0, f.length()).foldl([], (l13, q) => l13.append(range(0, m.n).foldl(C0, (s, j) => cadd(s, cfmul(w[mod(-q * j, m.n)], prod[j])))))
    }
  pure def acLinear(m: Model, u: Vec): Vec = {
    val dd = dtimes(m.d, [0].concat(range(0, m.n - 1).foldl([], (l14, i) => l14.append(u[i]._1))).append(0), 2)
    range(0, m.n - 1).foldl([], (l15, i) => l15.append((m.factor * (fmul(m.par, dd[i + 1]) + u[i]._1), 0)))
  }
  // ---- edits in place
  pure def edit(o: Obj, e: int, j: int, c: int): Obj =
    if (e == 0) { ...o, k: range(0, o.k.length()).foldl([], (l16, i) => l16.append(fmul(o.k[i], c))), d: o.d.foldl([], (l, r) => l.append(range(0, r.length()).foldl([], (l17, i) => l17.append(fmul(r[i], c))))) }
    else if (e == 1) { ...o, k: range(0, o.k.length()).foldl([], (l18, i) => l18.append(if (i >= j) 0 else o.k[i])), d: lstOf(o.d, j, true) }
    else if (e == 2) { ...o, k: range(0, o.k.length()).foldl([], (l19, i) => l19.append(if (i == j) 0 else o.k[i])), d: lstOf(o.d, j, false) }
    else { ...o, x: range(0, o.x.length()).foldl([], (l20, i) => l20.append(o.x[i] + c)) }
  // row j, or column j, replaced by zeros
  pure def lstOf(d: List[List[int]], j: int, row: bool): List[List[int]] =
    range(0, d.length()).foldl([], (l, i) => l.append(range(0, d.length()).foldl([], (l21, q) => l21.append(if ((if (row) i else q) == j) 0 else d[i][q]))))
  pure val FACTORS = [2 * P, P / 2, -P, 4 * P]

  type Bench = { slots: List[Obj], models: List[Model] }
  type Pool = { ns: List[int], ends: List[(int, int)], data: int }
  pure def pool(seed: int): Pool = {
    val a = dy(seed, 1, 64, 16)
    val len = if (below(seed, 2, 2) == 0) rin(seed, 3, 1, 160) * P / 16 else rin(seed, 3, 1, 8) * PI / 2
    val n = 2 * rin(seed, 4, 2, 4)
    val m = 2 * rin(seed, 5, 2, 4)
    // the same interval, twice as long, nearly the same, and another place
    { ns: [n, m], ends: [(a, a + len), (a, a + 2 * len), (a, a + len + len / 2^33), (a + P, a + P + len)], data: below(seed, 6, 2^40) }
  }
  // data recur: one of three sets
  pure def data(q: Pool, seed: int, i: int): int = q.data + below(seed, i, 3)
  pure def advance(w: Bench, q: Pool, seed: int): { w: Bench, op: Op } = {
    val k = below(seed, 1, 20)
    val s = below(seed, 2, 3)
    val o = w.slots[s]
    val m = w.models[s]
    val idle = { w: w, op: { ...noOp, name: "idle" } }
    if (k < 4) {
      val kind = rin(seed, 3, 1, 3)
      val n = q.ns[below(seed, 4, 2)]
      val e = q.ends[below(seed, 5, 4)]
      val c = construct(kind, n, e._1, e._2)
      { w: { ...w, slots: w.slots.replaceAt(s, c) }, op: { ...noOp, name: "grid", slot: s, kind: kind, n: n, a: e._1, b: e._2 } }
    } else if (k < 8) {
      if (o.kind == 0) idle else {
        val e = below(seed, 3, 4)
        val j = rin(seed, 4, 1, if (o.kind == 3) o.n - 1 else o.k.length() - 1)
        val c = if (e == 3) dy(seed, 5, 64, 16) else FACTORS[below(seed, 5, 4)]
        { w: { ...w, slots: w.slots.replaceAt(s, edit(o, e, j, c)) }, op: { ...noOp, name: "edit", slot: s, kind: e, j: j, c: c } }
      }
    } else if (k < 13) {
      if (o.kind == 0) idle else {
        val p = [1, 1, 2, 2, 3, 4][below(seed, 3, 6)]
        if (o.kind == 3) {
          val u = range(0, o.n + 1).foldl([], (l22, i) => l22.append(dy(data(q, seed, 4), 60 + i, 64, 64)))
          { w: w, op: { ...noOp, name: "derivative", slot: s, kind: 3, n: o.n, p: p, u: cx(u), want: cx(dtimes(o.d, u, p)), scale: range(0, p).foldl(P, (f, _i) => fmul(f, rmax(o.d))) } }
        } else {
          val f = modes(data(q, seed, 4), o.n, o.kind == 1)
          { w: w, op: { ...noOp, name: "derivative", slot: s, kind: o.kind, n: o.n, p: p, u: synth(f, o), want: derivative(f, o, p),
                        scale: range(0, p).foldl(P, (g, _i) => fmul(g, o.k.foldl(0, (t, v) => imax(t, abs(v))))) } }
        }
      }
    } else if (k == 13 or k == 14) {
      if (o.kind != 1 and o.kind != 3) idle else {
        val kind = if (o.kind == 3) 3 else rin(seed, 3, 1, 2)
        val par = rin(seed, 4, 1, 3) * P / 4
        val t = below(seed, 5, 3)
        val c = { kind: kind, n: o.n, x: o.x, k: o.k, d: o.d, par: par, factor: 1 }
        { w: { ...w, models: w.models.replaceAt(t, c) }, op: { ...noOp, name: "model", slot: t, kind: kind, n: o.n, j: s, par: par, want: linear(c) } }
      }
    } else if (k == 15 or k == 16) {
      if (m.kind == 0) idle else {
        val f = if (m.kind == 3) range(0, m.n - 1).foldl([], (l23, i) => l23.append((dy(data(q, seed, 4), 60 + i, 32, 64), 0))) else range(0, m.k.length()).foldl([], (l24, j) => l24.append(cscale(modes(data(q, seed, 4), m.n, true)[j], m.n)))
        { w: w, op: { ...noOp, name: "apply", slot: s, kind: m.kind, n: m.n, par: m.par, j: if (m.kind == 3) 1 else 0, u: f, want: if (m.kind == 3) nonlinear(m, f).concat(acLinear(m, f)) else nonlinear(m, f),
                      scale: if (m.kind == 3) rmax(m.d) else m.k.foldl(0, (t, v) => imax(t, abs(v))) } }
      }
    } else if (k == 17) {
      // what a constructor returned as linear operator belongs to its caller
      if (m.kind == 0) idle else { w: { ...w, models: w.models.replaceAt(s, { ...m, factor: imin(m.factor * 2, 1024) }) }, op: { ...noOp, name: "double", slot: s, j: if (m.factor < 1024) 1 else 0 } }
    } else if (k == 18) {
      if (o.kind == 0) idle else {
        val amp = rin(seed, 3, 1, 8) * P / 4
        val t = dy(seed, 4, 16, 16)
        { w: w, op: { ...noOp, name: "soliton", slot: s, a: amp, c: t, want: cx(range(0, o.x.length()).foldl([], (l25, i) => l25.append(soliton(amp, o.a, t, o.x[i]).u))) } }
      }
    } else { w: { ...w, slots: w.slots.replaceAt(s, none) }, op: { ...noOp, name: "drop", slot: s, j: below(seed, 3, 2) } }
  }
  var w: Bench
  var q: Pool
  var op: Op
  action init = { nondet s = oneOf(0.to(2^48)) all { w' = { slots: [none, none, none], models: [noModel, noModel, noModel] }, q' = pool(s), op' = noOp } }
  action step = { nondet s = oneOf(0.to(2^48)) { val r = advance(w, q, s)  all { w' = r.w, q' = q, op' = r.op } } }
  // whatever was done to a grid: derivatives have no mean, the models conserve mass
  val safe = and {
    w.slots.indices().forall(i => { val o = w.slots[i]
      o.kind == 0 or (o.kind < 3 and o.x.length() == o.n and o.k.length() == count(o.kind == 1, o.n) and o.k[0] == 0) or (o.kind == 3 and o.d.length() == o.n + 1) }),
    (op.name == "derivative" and op.kind < 3) implies cinf(op.want.foldl(C0, (t, v) => cadd(t, v))) <= P / 2^80 * (op.scale / P + 1),
    (op.name == "apply" and op.kind < 3) implies cinf(op.want[0]) <= P / 2^80 * (op.scale / P + 1) * op.n * op.n }
}
