// State machine of library calls with exact expected results.
//
// Each action is one call of a public routine on freshly chosen arguments: the discrete
// structure (angular momenta, relative placement of the centres, kind of potential) and a
// seed are chosen nondeterministically, the remaining numbers are drawn from the seed.
// The state variable `c` holds the arguments and the exact values (times 10^80, truncated
// to `out` digits) of the matrix elements listed in `elems`.  Replaying a behaviour means
// performing the call and comparing these elements.
module cases {
  import fixed.* from "./fixed"
  import ops.* from "./ops"
  import nuclear.* from "./nuclear"
  import gen.* from "./gen"

  var c: Case

  action init = c' = { op: "none", a: shellOf(0, 1, NOV, false, 1), b: shellOf(0, 1, NOV, false, 1), C: NOV, P: NOV, p: List(), s: List(),
                       par: List(), nm: 0, elems: List(), exp: List(), scale: List() }

  // ---- actions ----------------------------------------------------------------
  action doPlain(op: str, lmax: int, n: int): bool = {
    nondet la = 0.to(lmax).oneOf()
    nondet lb = 0.to(lmax).oneOf()
    nondet g = 0.to(13).oneOf()
    nondet na = 1.to(3).oneOf()
    nondet nb = 1.to(2).oneOf()
    nondet steep = Set(true, false).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val sh = tied(g, mkShells(la, lb, na, nb, pl, steep, seed))
    c' = mk(op, sh._1, sh._2, pl.C, NOV, List(), List(), List(), n, seed)
  }
  action stepOverlap = doPlain("ov", 10, 40)
  action stepKinetic = doPlain("kin", 10, 40)
  action stepMomentum = doPlain("mom", 10, 40)
  action stepKinMom = any { stepKinetic, stepMomentum }

  // one-operator calls: local (type 1), semi-local, spin-orbit
  action doPot(op: str, la: int, lb: int, lp: Set[int], ns: List[int], nt: Set[int], n: int): bool =
    doPotAt(op, 0.to(13), la, lb, lp, ns, nt, n)
  action doPotAt(op: str, gs: Set[int], la: int, lb: int, lp: Set[int], ns: List[int], nt: Set[int], n: int): bool = {
    nondet g = gs.oneOf()
    nondet l = lp.oneOf()
    nondet na = 1.to(2).oneOf()
    nondet nb = 1.to(2).oneOf()
    nondet np = nt.oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val sh = tied(g, mkShells(la, lb, na, nb, pl, rnd(seed, 19) % 5 == 0, seed))
    c' = mk(op, sh._1, sh._2, pl.C, NOV, List({ L: l, J: 2 * l, t: termsOf(np, ns, seed) }), List(), List(), n, seed)
  }
  action stepLocal = {
    nondet la = 0.to(10).oneOf()
    nondet lb = 0.to(10).oneOf()
    doPot("t1", la, lb, Set(0), List(0, 1, 2), 1.to(4), 30)
  }
  // low angular momenta densely, higher ones more rarely (cost)
  action stepSemi = {
    nondet la = 0.to(4).oneOf()
    nondet lb = 0.to(4).oneOf()
    doPot("t2", la, lb, 0.to(4), List(0, 2), 1.to(3), 30)
  }
  action stepSemiOdd = {
    nondet la = 0.to(3).oneOf()
    nondet lb = 0.to(3).oneOf()
    doPot("t2", la, lb, 0.to(3), List(1), Set(1), 20)
  }
  action stepSO = {
    nondet la = 0.to(4).oneOf()
    nondet lb = 0.to(4).oneOf()
    doPot("so", la, lb, 0.to(4), List(0, 2), 1.to(2), 12)
  }
  action stepSOOdd = {
    nondet la = 0.to(3).oneOf()
    nondet lb = 0.to(3).oneOf()
    doPot("so", la, lb, 1.to(3), List(1), Set(1), 9)
  }
  // high angular momenta (of the shells or of the projector)
  action stepSemiHigh = {
    nondet la = 5.to(10).oneOf()
    nondet lb = 0.to(1).oneOf()
    nondet sw = Set(true, false).oneOf()
    doPot("t2", if (sw) la else lb, if (sw) lb else la, Set(0, 1, 2), List(0, 2), Set(1, 2), 8)
  }
  action stepSemiHighProj = {
    nondet la = 0.to(2).oneOf()
    nondet lb = 0.to(1).oneOf()
    doPot("t2", la, lb, 5.to(10), List(0, 2), Set(1, 2), 9)
  }
  action stepSOHigh = {
    nondet la = 4.to(7).oneOf()
    nondet lb = 0.to(1).oneOf()
    nondet sw = Set(true, false).oneOf()
    doPot("so", if (sw) la else lb, if (sw) lb else la, Set(1, 2), List(0, 2), Set(1), 5)
  }
  action stepSOHighProj = {
    nondet la = 0.to(1).oneOf()
    nondet lb = 0.to(1).oneOf()
    doPot("so", la, lb, 5.to(9), List(0, 2), Set(1), 9)
  }
  // shells of any angular momenta centred on the potential
  action stepSemiConc = {
    nondet la = 0.to(8).oneOf()
    nondet lb = 0.to(8).oneOf()
    doPotAt("t2", Set(0), la, lb, 0.to(8), List(0, 2), 1.to(3), 24)
  }
  action stepSOConc = {
    nondet la = 0.to(7).oneOf()
    nondet lb = 0.to(7).oneOf()
    doPotAt("so", Set(0), la, lb, 1.to(6), List(0, 2), 1.to(2), 24)
  }
  action stepSemiHalf = {
    nondet la = 0.to(8).oneOf()
    nondet lb = 0.to(2).oneOf()
    nondet sw = Set(true, false).oneOf()
    doPotAt("t2", if (sw) Set(1) else Set(2), if (sw) la else lb, if (sw) lb else la, 0.to(4), List(0, 2), 1.to(2), 12)
  }
  action stepSOHalf = {
    nondet la = 0.to(8).oneOf()
    nondet lb = 0.to(2).oneOf()
    nondet sw = Set(true, false).oneOf()
    doPotAt("so", if (sw) Set(1) else Set(2), if (sw) la else lb, if (sw) lb else la, 1.to(4), List(0, 2), 1.to(2), 8)
  }
  action stepT1 = stepLocal
  action stepT2 = any { stepSemi, stepSemi, stepSemiOdd, stepSemiHigh, stepSemiHighProj }
  action stepSOAny = any { stepSO, stepSO, stepSOOdd, stepSOHigh, stepSOHighProj }
  action stepGPP = any { stepGT1, stepGT2, stepGSO, stepGOC }

  action doOC(op: str, lmax: int, grad: bool, n: int): bool = {
    nondet la = 0.to(lmax).oneOf()
    nondet lb = 0.to(lmax).oneOf()
    nondet g = 0.to(13).oneOf()
    nondet noc = 1.to(3).oneOf()
    nondet q = 0.to(3).oneOf()
    nondet l = 0.to(3).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val sh = tied(g, mkShells(la, lb, 1, if (grad) 1 else 2, pl, false, seed))
    // pairs: mostly the same l (so that the cross terms act), j = l-1/2 or l+1/2
    val ps = upto(noc).foldl(List(), (acc, i) => {
      val li = if (rnd(seed, 300 + i) % 3 == 0) (l + 1) % 4 else l
      val up = li == 0 or rnd(seed, 310 + i) % 2 == 0
      val t = termsOf(1 + rnd(seed, 320 + i) % 2, if (grad) List(2, 0) else List(0, 1, 2), seed + 31 * i)
      // now and then one of the potentials vanishes, the shells' projectors remain
      val z = if (noc > 1 and rnd(seed, 340 + i) % 6 == 0) t.foldl(List(), (l2, x) => l2.append({ n: x.n, c: 0, z: x.z })) else t
      acc.append({ L: li, J: 2 * li + (if (up) 1 else -1), t: z })
    })
    val ss = upto(noc).foldl(List(), (acc, i) => acc.append(shellOf(ps[i].L, 1 + rnd(seed, 330 + i) % 2, pl.C, false, seed + 17 * i + 3)))
    c' = mk(op, sh._1, sh._2, pl.C, if (grad) pointOf(pl, q) else NOV, ps, ss, List(), n, seed)
  }
  action stepOC = doOC("oc", 4, false, 20)
  action stepGOC = doOC("goc", 2, true, 9)

  action stepGradOverlap = {
    nondet la = 0.to(9).oneOf()
    nondet lb = 0.to(10).oneOf()
    nondet g = 0.to(13).oneOf()
    nondet q = 0.to(3).oneOf()
    nondet na = 1.to(4).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val sh = tied(g, mkShells(la, lb, na, 2, pl, rnd(seed, 19) % 3 == 0, seed))
    c' = mk("gov", sh._1, sh._2, pl.C, pointOf(pl, q), List(), List(), List(), 24, seed)
  }
  action doGrad(op: str, la: int, lb: int, lp: Set[int], n: int): bool = {
    nondet g = 0.to(13).oneOf()
    nondet q = 0.to(3).oneOf()
    nondet l = lp.oneOf()
    nondet na = 1.to(2).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val sh = tied(g, mkShells(la, lb, na, 1, pl, false, seed))
    c' = mk(op, sh._1, sh._2, pl.C, pointOf(pl, q), List({ L: l, J: 2 * l, t: termsOf(1, List(0, 2), seed) }), List(), List(), n, seed)
  }
  action stepGT1 = {
    nondet la = 0.to(6).oneOf()
    nondet lb = 0.to(6).oneOf()
    doGrad("gt1", la, lb, Set(0), 16)
  }
  action stepGT2 = {
    nondet la = 0.to(3).oneOf()
    nondet lb = 0.to(3).oneOf()
    doGrad("gt2", la, lb, 0.to(3), 9)
  }
  action stepGSO = {
    nondet la = 0.to(2).oneOf()
    nondet lb = 0.to(2).oneOf()
    doGrad("gso", la, lb, 1.to(2), 6)
  }

  // ---- long contractions and many terms -----------------------------------------
  action doWide(op: str, lmax: int, lp: int, ns: List[int], n: int): bool = {
    nondet la = 0.to(lmax).oneOf()
    nondet lb = 0.to(lmax).oneOf()
    nondet g = 0.to(13).oneOf()
    nondet l = 0.to(lp).oneOf()
    nondet which = 0.to(2).oneOf()
    nondet len = 3.to(16).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val hasPot = op.in(Set("t1", "t2", "so"))
    val sh = tied(g, mkShells(la, lb, if (which == 0 or not(hasPot) and which == 2) len else 1, if (which == 1) len else 1, pl, rnd(seed, 19) % 3 == 0, seed))
    val ps = if (hasPot) List({ L: l, J: 2 * l, t: termsOf(if (which == 2) len else 1, ns, seed) }) else List()
    c' = mk(op, sh._1, sh._2, pl.C, NOV, ps, List(), List(), n, seed)
  }
  action stepWideOv = doWide("ov", 6, 0, List(2), 12)
  action stepWideKin = doWide("kin", 6, 0, List(2), 12)
  action stepWideMom = doWide("mom", 6, 0, List(2), 12)
  action stepWideKinMom = any { stepWideKin, stepWideMom }
  action stepWideT1 = doWide("t1", 4, 0, List(0, 1, 2), 10)
  action stepWideT2 = doWide("t2", 3, 3, List(0, 2), 6)
  action stepWideSO = doWide("so", 2, 3, List(0, 2), 4)
  // outercore projectors with contracted shells and several terms, bra and ket primitive
  action stepWideOC = {
    nondet la = 0.to(2).oneOf()
    nondet lb = 0.to(2).oneOf()
    nondet g = 0.to(13).oneOf()
    nondet noc = 1.to(2).oneOf()
    nondet l = 0.to(3).oneOf()
    nondet np = 1.to(6).oneOf()
    nondet ns = 1.to(6).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val sh = tied(g, mkShells(la, lb, 1, 1, pl, false, seed))
    val ps = upto(noc).foldl(List(), (acc, i) =>
      acc.append({ L: l, J: 2 * l + (if (l == 0 or rnd(seed, 310 + i) % 2 == 0) 1 else -1), t: termsOf(np, List(2, 1), seed + 31 * i) }))
    val ss = upto(noc).foldl(List(), (acc, i) => acc.append(shellOf(l, ns, pl.C, rnd(seed, 312 + i) % 2 == 0, seed + 17 * i + 3)))
    c' = mk("oc", sh._1, sh._2, pl.C, NOV, ps, ss, List(), 6, seed)
  }

  // nuclear attraction: par = (charge, model, p0, p1, p2)
  action stepNuc = {
    nondet la = 0.to(5).oneOf()
    nondet lb = 0.to(5).oneOf()
    nondet g = 0.to(13).oneOf()
    nondet na = 1.to(2).oneOf()
    nondet model = 0.to(5).oneOf()
    nondet seed = 1.to(2^40).oneOf()
    val pl = place(g, seed)
    val par = nucParams(model, seed)
    // the expansion about the nucleus converges for functions that vary slowly inside it
    val steep = rnd(seed, 19) % 3 == 0 and (model.in(Set(0, 2, 5)) or par[2] < S / 2000)
    val sh = tied(g, mkShells(la, lb, na, 1, pl, steep, seed))
    c' = mk("nuc", sh._1, sh._2, pl.C, NOV, List(), List(), par, 24, seed)
  }
}
