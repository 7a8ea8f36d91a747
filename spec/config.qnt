// -*- mode: Bluespec; -*-
// Configuration objects: which values are accepted, what a refused assignment leaves behind.
// Values are points of an ordered scale (the harness knows the floats behind them) and special ones beside it.
module config {
  import fx.* from "./fx"
  import problem.* from "./problem"
  // scale: 0 -inf, 1 -1e300, 2 -1, 3 -1e-3, 4 -5e-324, 5 zero, 6 5e-324, 7 1e-16, 8 1e-3, 9 1/4, 10 0.85, 11 pred 1, 12 one,
  // 13 succ 1, 14 1.25, 15 two, 16 four, 17 32, 18 1e300, 19 inf; 20 nan; 21 a string, 22 None, 23 complex, 24 a list
  pure val ZERO = 5
  pure val UNIT = 12
  pure val NAN = 20
  pure def number(v: int): bool = v < NAN
  pure def comparable(v: int): bool = v <= NAN
  pure def isInteger(v: int): bool = [2, 5, 12, 15, 16, 17].indices().exists(i => [2, 5, 12, 15, 16, 17][i] == v)
  // how a value is written: 0 float, 1 int, 2 numpy float64, 3 numpy int
  type Arg = { v: int, form: int }
  // parameters: 0 epsilon, 1 incr_f, 2 decr_f, 3 safety_f, 4 adapt_cutoff, 5 minh; 6 modecutoff, 7 contour_points, 8 contour_radius
  pure def accepts(par: int, a: Arg): bool =
    if (par == 7) number(a.v) and isInteger(a.v) and a.form == 1 and a.v > UNIT
    else number(a.v) and {
      if (par == 0 or par == 5 or par == 8) a.v > ZERO
      else if (par == 1) a.v > UNIT
      else if (par == 2 or par == 4) a.v < UNIT
      else if (par == 3) a.v <= UNIT
      else a.v > ZERO and a.v <= UNIT
    }
  // the kinds of exception a refusal may be
  pure def refusal(par: int, a: Arg): str = if (par == 7 and (not(number(a.v)) or a.form != 1)) "TypeError" else if (not(comparable(a.v))) "TypeError" else "ValueError"
  pure val DEFAULTS = [30, 31, 32, 33, 34, 35, 36, 37, 38]      // the documented defaults
  pure def first(kind: int): int = if (kind == 0) 0 else 6
  pure def count(kind: int): int = if (kind == 0) 6 else 3
  type Obj = { kind: int, vals: List[int] }                     // kind 0: SolverConfig, 1: ETDConfig; vals by parameter
  // op: construct with arguments for some parameters (positional ones first), or set one parameter
  type Op = { name: str, i: int, kind: int, pos: int, par: List[int], args: List[Arg], ok: bool, exc: List[str] }
  pure val noOp: Op = { name: "init", i: 0, kind: 0, pos: 0, par: [], args: [], ok: true, exc: [] }
  pure def fresh(kind: int): Obj = { kind: kind, vals: range(first(kind), first(kind) + count(kind)).foldl([], (l, p) => l.append(DEFAULTS[p])) }
  pure def put1(o: Obj, par: int, a: Arg): Obj = { ...o, vals: o.vals.replaceAt(par - first(o.kind), a.v) }

  // unlimited values are not generated where the documentation does not exclude them
  pure def tame(par: int, v: int): int = if (v == 0 and (par == 2 or par == 3 or par == 4)) 1 else if (v == 19 and (par == 0 or par == 1 or par == 5 or par == 8)) 18 else v
  pure def arg(seed: int, k: int, par: int): Arg = {
    val r = below(seed, k, 8)
    val v0 = if (r < 4) rin(seed, k + 1, 0, 20) else if (r == 4) rin(seed, k + 1, 20, 24) else
             // near the limits
             if (par == 0 or par == 5 or par == 8) [4, 5, 6, 7, 8, 12][below(seed, k + 1, 6)] else [5, 6, 8, 10, 11, 12, 13, 14, 15][below(seed, k + 1, 9)]
    val v1 = if (par == 7 and below(seed, k + 2, 3) > 0) [2, 5, 12, 15, 16, 17][below(seed, k + 3, 6)] else v0
    val v = tame(par, v1)
    { v: v, form: if (isInteger(v)) (if (par == 7) [1, 1, 1, 0, 2][below(seed, k + 4, 5)] else below(seed, k + 4, 4)) else if (number(v) and below(seed, k + 4, 3) == 0) 2 else 0 }
  }
  pure def good(seed: int, k: int, par: int): Arg = {
    val c = range(0, 12).foldl({ v: DEFAULTS[par], form: 0 }, (a, j) => { val b = arg(seed, k + 5 * j, par)  if (a.v < 30) a else if (accepts(par, b)) b else a })
    if (c.v >= 30 and par == 7) { v: 17, form: 1 } else if (c.v >= 30) (if (par == 1) { v: 15, form: 0 } else { v: 9, form: 0 }) else c
  }
  var objs: List[Obj]
  var op: Op
  pure def construct(l: List[Obj], seed: int): { l: List[Obj], op: Op } = {
    val kind = below(seed, 2, 2)
    val i = below(seed, 3, l.length())
    val mask = rin(seed, 4, 0, 2^count(kind) - 1)
    val pos = if (below(seed, 5, 3) == 0) below(seed, 6, count(kind) + 1) else 0       // leading positional arguments
    val bad = below(seed, 7, 3) == 0
    val pars = range(0, count(kind)).foldl([], (p, k) => if (k < pos or mask / 2^k % 2 == 1) p.append(first(kind) + k) else p)
    val args = range(0, pars.length()).foldl([], (a, k) => a.append(if (bad) arg(seed, 20 + 70 * k, pars[k]) else good(seed, 20 + 70 * k, pars[k])))
    val wrong = range(0, pars.length()).foldl([], (w, k) => if (accepts(pars[k], args[k])) w else w.append(refusal(pars[k], args[k])))
    val ok = wrong.length() == 0
    { l: if (ok) l.replaceAt(i, range(0, pars.length()).foldl(fresh(kind), (o, k) => put1(o, pars[k], args[k]))) else l,
      op: { name: "new", i: i, kind: kind, pos: pos, par: pars, args: args, ok: ok, exc: wrong } }
  }
  pure def set1(l: List[Obj], seed: int): { l: List[Obj], op: Op } = {
    val i = below(seed, 3, l.length())
    val o = l[i]
    val par = first(o.kind) + below(seed, 4, count(o.kind))
    val a = arg(seed, 20, par)
    val ok = accepts(par, a)
    { l: if (ok) l.replaceAt(i, put1(o, par, a)) else l,
      op: { name: "set", i: i, kind: o.kind, pos: 0, par: [par], args: [a], ok: ok, exc: if (ok) [] else [refusal(par, a)] } }
  }
  action init = all { objs' = [fresh(0), fresh(1), fresh(0)], op' = noOp }
  action step = { nondet s = oneOf(0.to(2^48))  val n = if (below(s, 1, 3) == 0) construct(objs, s) else set1(objs, s)
    all { objs' = n.l, op' = n.op } }
  // every live object satisfies the documented constraints, whatever was tried
  val safe = objs.indices().forall(i => objs[i].vals.indices().forall(k => val v = objs[i].vals[k]
    v >= 30 or accepts(first(objs[i].kind) + k, { v: v, form: 1 })))
}
