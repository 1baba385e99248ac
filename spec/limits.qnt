// Calls at the limits of the documented domain: angular momenta up to the maxima, long contractions and
// many-term potentials, extreme exponents and distances, coincident and nearly coincident centres,
// containers with many parts.  No value is specified here; what each step promises is that the call
// returns finite matrices, touches nothing but its outputs and reads nothing that was not written.
module limits {
  import fixed.* from "./fixed"
  import ops.* from "./ops"
  import gen.* from "./gen"

  type Sh = { L: int, ord: int, rot: int, c: List[int], al: List[int], norm: int, o: Vec }
  type Pt = { L: int, J: int, t: List[PotTerm] }
  type Gr = { loc: List[Pt], ar: List[Pt], so: List[Pt], ocp: List[Pt], ocs: List[Sh] }
  type Call = { op: str, a: Sh, b: Sh, C: Vec, P: Vec, p: List[Pt], s: List[Sh], g: Gr, par: List[int], tol: List[int], cost: int }
  var k: Call

  pure val MAXL: int = 10          // of shells
  pure val MAXP: int = 10          // of potentials

  // exponents in units of 2^-20: 1e-3 .. 1e7
  pure val ALPHA: List[int] = List(1024, 16384, 262144, 700001, 1048576, 3932161, 31457280, 104857600, 1048576000, 10485760000000)
  pure val DIST: List[int] = List(1, 1024, 1048576, 2621440, 10485760, 62914560)
  pure def farther(v: Vec, seed: int): Vec = {
    val d = fromQ(pick(DIST, seed, 15))
    val q = rnd(seed, 16) % 4
    if (q == 0) (v._1 + d, v._2, v._3) else if (q == 1) (v._1, v._2 - d, v._3) else if (q == 2) (v._1, v._2, v._3 + d) else (v._1 + d, v._2 + d / 2, v._3 - d)
  }
  pure def places(g: int, seed: int): { A: Vec, B: Vec, C: Vec } =
    if (g < 10) place(g, seed) else {
      val p = place(g - 10, seed)
      if (g % 2 == 0) p.with("A", farther(p.A, seed)) else p.with("C", farther(p.C, seed))
    }
  pure def sh(L: int, n: int, o: Vec, seed: int): Sh =
    { L: L, ord: rnd(seed, 17) % 3, rot: 0, norm: 0, o: o,
      c: upto(n).foldl(List(), (l, i) => l.append(fromQ(pick(COEF, seed, 1000 + i)))),
      al: upto(n).foldl(List(), (l, i) => l.append(fromQ(pick(ALPHA, seed, 2000 + i)))) }
  pure def pt(L: int, J: int, n: int, seed: int): Pt =
    { L: L, J: J, t: upto(n).foldl(List(), (l, i) => l.append({
        n: rnd(seed, 3000 + i) % 3, c: fromQ(pick(COEF, seed, 4000 + i)), z: fromQ(pick(ALPHA, seed, 5000 + i)) })) }
  pure val NOGR: Gr = { loc: List(), ar: List(), so: List(), ocp: List(), ocs: List() }
  pure val NOSH: Sh = { L: 0, ord: 0, rot: 0, norm: 0, o: NOV, c: List(), al: List() }

  // ---- work of a call (rough, in units of about 1/100 second), to keep behaviours affordable ----------
  pure def binom5(L: int): int = (L + 1) * (L + 2) * (L + 3) * (L + 4) * (L + 5) / 120
  pure def half(s: Sh, C: Vec, d: int): int = if (s.o == C) ncart(s.L + d) / 3 + 1 else binom5(s.L + d)
  pure def semiCost(a: Sh, b: Sh, C: Vec, l: int, d: int): int =
    if (a.o == C and b.o == C) ncart(a.L + d) * ncart(b.L + d) * a.c.length() * b.c.length() / 400 + 1
    else half(a, C, d) * half(b, C, d) * (2 * l + 1) * (1 + l * l) / 2000 +
      a.c.length() * b.c.length() * (a.L + l + 1) * (b.L + l + 1) / 40
  pure def costOf(x: Call): int = {
    val grad = x.op.in(Set("gov", "gt1", "gt2", "gso", "goc", "gfull"))
    val d = if (grad) 1 else 0
    val f = if (grad) 4 else 1
    val sl = (x.g.ar.concat(x.g.so)).foldl(0, (s, p) => s + semiCost(x.a, x.b, x.C, p.L, d))
    if (x.op.in(Set("t2", "gt2"))) f * semiCost(x.a, x.b, x.C, x.p[0].L, d)
    else if (x.op.in(Set("so", "gso"))) 3 * f * semiCost(x.a, x.b, x.C, x.p[0].L, d)
    else if (x.op.in(Set("full", "gfull"))) 4 * f * sl
    // models with a numerical radial part
    else if (x.op.in(Set("nuc", "nucs")) and x.par[1] != 0) half(x.a, x.C, 0) * half(x.b, x.C, 0) * x.a.c.length() * x.b.c.length() / 40
    else 0
  }

  pure val OPS: List[str] = List("ov", "kin", "mom", "gov", "nuc", "nucs", "t1", "t2", "t2", "so", "so", "gt1", "gt2", "gso", "oc", "goc", "full", "gfull")
  pure def lim(op: str): int = if (op.in(Set("gov", "gt1", "gt2", "gso", "goc", "gfull"))) MAXL - 1 else MAXL
  // biased to the limits
  pure def ang(m: int, seed: int, q: int): int = {
    val x = rnd(seed, q) % 8
    if (x < 3) m else if (x == 3) m - 1 else if (x == 4) 0 else rnd(seed, q + 1) % (m + 1)
  }
  pure val LENGTHS: List[int] = List(1, 1, 2, 3, 9, 20, 33)

  pure def callOf(op: str, g: int, seed: int): Call = {
    val pl = places(g, seed)
    val la = ang(lim(op), seed, 500)
    val lb = ang(lim(op), seed, 502)
    val l = ang(MAXP, seed, 504)
    val semi = op.in(Set("t2", "so", "gt2", "gso", "full", "gfull"))
    val na = if (semi) 1 + rnd(seed, 506) % 2 else pick(LENGTHS, seed, 507)
    val nb = if (na > 9) 1 + rnd(seed, 508) % 3 else pick(LENGTHS, seed, 509)
    val nt = if (na * nb > 20) 1 + rnd(seed, 515) % 2 else pick(LENGTHS, seed, 510)
    val a = sh(la, na, pl.A, seed)
    val b = sh(lb, if (semi) 1 else nb, pl.B, seed + 7)
    val P = pointOf(pl, rnd(seed, 511) % 4)
    val noc = 1 + rnd(seed, 512) % 3
    val ps = if (op.in(Set("t1", "gt1"))) List(pt(0, 0, nt, seed))
             else if (op.in(Set("t2", "so", "gt2", "gso"))) List(pt(l, 2 * l, if (nt > 3) 3 else nt, seed))
             else if (op.in(Set("oc", "goc"))) upto(noc).foldl(List(), (acc, i) => {
               val li = if (rnd(seed, 513 + i) % 2 == 0) l else ang(MAXP, seed, 520 + i)
               acc.append(pt(li, if (li == 0 or rnd(seed, 530 + i) % 2 == 0) 2 * li + 1 else 2 * li - 1, 1 + rnd(seed, 540 + i) % 3, seed + i))
             })
             else List()
    val ss = if (op.in(Set("oc", "goc"))) upto(noc).foldl(List(), (acc, i) => acc.append(sh(ps[i].L, 1 + rnd(seed, 550 + i) % 3, pl.C, seed + 11 + i))) else List()
    val nar = rnd(seed, 560) % 3
    val gr = if (not(op.in(Set("full", "gfull")))) NOGR else {
      val ocs = upto(rnd(seed, 561) % 3).foldl(List(), (acc, i) => acc.append(sh(ang(MAXP, seed, 570 + i), 1, pl.C, seed + 13 + i)))
      { loc: if (rnd(seed, 562) % 2 == 0) List(pt(0, 0, 3, seed + 1)) else List(),
        ar: upto(nar).foldl(List(), (acc, i) => acc.append(pt(ang(MAXP, seed, 580 + i), 0, 2, seed + 20 + i))),
        so: upto(nar).foldl(List(), (acc, i) => acc.append(pt(1 + ang(MAXP - 1, seed, 590 + i), 0, 1, seed + 30 + i))),
        ocp: ocs.foldl(List(), (acc, s) => acc.append(pt(s.L, 2 * s.L + 1, 2, seed + 40 + s.L))), ocs: ocs } }
    val x = { op: op, a: a, b: b, C: pl.C, P: P, p: ps, s: ss, g: gr, tol: List(0, 0, 0), cost: 0,
      par: if (op.in(Set("nuc", "nucs"))) nucParams(rnd(seed, 514) % 6, seed) else List() }
    x.with("cost", costOf(x))
  }

  action init = k' = { op: "none", a: NOSH, b: NOSH, C: NOV, P: NOV, p: List(), s: List(), g: NOGR, par: List(), tol: List(), cost: 0 }
  action stepWithin(budget: int): bool = {
    nondet op = OPS.indices().oneOf()
    nondet g = 0.to(19).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    val x = callOf(OPS[op], g, seed)
    // a call that is too expensive is taken with the shells on the potential, or not at all
    val y = if (x.cost <= budget) x else callOf(OPS[op], 0, seed)
    k' = if (y.cost <= budget) y else callOf("t1", g, seed)
  }
  action step = stepWithin(100)
  action stepDeep = stepWithin(3000)

  // every call is in the documented domain
  pure def inDomain(x: Call): bool =
    (x.op == "none") or and {
      x.a.L <= lim(x.op), x.b.L <= lim(x.op), x.a.L >= 0, x.b.L >= 0,
      x.p.concat(x.g.ar).concat(x.g.so).concat(x.g.ocp).foldl(true, (t, p) => t and p.L >= 0 and p.L <= MAXP),
      x.p.concat(x.g.loc).concat(x.g.ar).concat(x.g.so).concat(x.g.ocp).foldl(true, (t, p) => t and p.t.foldl(true, (t2, u) => t2 and u.n >= 0 and u.n <= 2 and u.z > 0)),
      x.a.al.concat(x.b.al).foldl(true, (t, z) => t and z > 0)
    }
  val domain = inDomain(k)
}
