// The routines that exist in the Fortran interface only.  All others are specified by cases.qnt,
// models.qnt and session.qnt: a step of those specifications may be taken through either interface.
module fortran {
  import fixed.* from "./fixed"
  import integrals.* from "./integrals"
  import ops.* from "./ops"
  import gen.* from "./gen"

  // norm: factor that normalizes the contraction of the first shell
  // ovc: overlap of component i of the first with component j of the second shell
  type Entry = { f: str, a: Shell, b: Shell, i: int, j: int, v: int }
  var e: Entry
  action init = e' = { f: "none", a: shellOf(0, 1, NOV, false, 1), b: shellOf(0, 1, NOV, false, 1), i: 0, j: 0, v: 0 }

  pure def positive(s: Shell): Shell = { ...s, c: s.c.foldl(List(), (l, x) => l.append(abs(x) + S / 16)) }
  pure def doubleFact(n: int): int = if (n <= 0) 1 else upto(n).foldl(1, (p, k) => if (k % 2 == 0) p * (n - k) else p)
  pure def normOf(s: Shell): int = {
    val o = { ...s, o: NOV }
    sqrt(div(doubleFact(2 * s.L - 1) * S, overlapF(o, 0, o, 0, List((0, 0)))[0]))
  }
  action doNorm = {
    nondet la = 0.to(10).oneOf()
    nondet na = 1.to(5).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val s = positive(shellOf(la, na, NOV, false, seed))
    e' = { f: "norm", a: s, b: s, i: 0, j: 0, v: normOf(s) }
  }
  action doComponent = {
    nondet la = 0.to(10).oneOf()
    nondet lb = 0.to(10).oneOf()
    nondet g = 0.to(9).oneOf()
    nondet na = 1.to(3).oneOf()
    nondet nb = 1.to(3).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val sh = mkShells(la, lb, na, nb, pl, false, seed)
    val i = rnd(seed, 900) % ncart(la)
    val j = rnd(seed, 901) % ncart(lb)
    e' = { f: "ovc", a: sh._1, b: sh._2, i: i, j: j, v: overlapF(sh._1, 0, sh._2, 0, List((i, j)))[0] }
  }
  action step = any { doNorm, doComponent, doComponent }

  // the normalized contraction has unit self-overlap in every component order x^L (up to the (2L-1)!! of the convention)
  pure def normalized(x: Entry): bool =
    if (x.f != "norm") true else {
      val s = { ...x.a, o: NOV, c: x.a.c.foldl(List(), (l, t) => l.append(mul(t, x.v))) }
      abs(overlapF(s, 0, s, 0, List((0, 0)))[0] - doubleFact(2 * s.L - 1) * S) < S / 10^30
    }
  val unit = normalized(e)
}
