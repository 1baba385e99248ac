// Relations between results of different calls.
//
// A transition of this machine chooses a call and a transformation of its arguments whose effect on
// the exact result is known from the definitions: the state holds the calls and the relation
//     calls[0].M[q][i][j] = sum_t w_t * rs[i] cs[j] * calls[k_t].M[q_t][ri[i]][ci[j]]
// (transposed if tr).  The replayer performs the calls and checks the relation between the
// library's matrices.  The invariant relationHolds checks it on the exact values of the
// specification itself, so a wrong relation is an error of the model, found in the model.
module relations {
  import fixed.* from "./fixed"
  import ops.* from "./ops"
  import nuclear.* from "./nuclear"
  import gen.* from "./gen"

  // order codes: 0 default, 1 alternative, 2 user generator, 10+k: list rotated by hand by k places
  type Call = { op: str, a: Shell, b: Shell, C: Vec, P: Vec, p: List[Pot], s: List[Shell], par: List[int],
                loc: List[Pot], ar: List[Pot], so: List[Pot], oa: int, ob: int, os: List[int] }
  type Link = { k: int, q: int, w: int }
  type Rel = { kind: str, calls: List[Call], target: List[List[Link]], tr: bool,
               ri: List[int], rs: List[int], ci: List[int], cs: List[int] }
  var r: Rel

  // ---- component lists ----------------------------------------------------------
  pure def userList(L: int): List[Cart] =
    upto(L + 1).foldl(List(), (l, t) => upto(L - t + 1).foldl(l, (l2, s) => l2.append((L - s - t, s, t))))
  pure def rotated(x: List[Cart], k: int): List[Cart] =
    upto(x.length()).foldl(List(), (l, i) => l.append(x[(i + k) % x.length()]))
  pure def listOf(o: int, L: int): List[Cart] =
    if (o == 2) userList(L) else if (o >= 10) rotated(carts(L), o - 10) else carts(L)
  pure def indexOf(x: List[Cart], e: Cart): int =
    upto(x.length()).foldl(-1, (f, i) => if (x[i] == e) i else f)

  // ---- operators ----------------------------------------------------------------
  pure def nmat(op: str): int =
    if (op.in(Set("ov", "kin", "t1", "t2", "nuc", "nucs"))) 1
    else if (op.in(Set("mom", "so", "gov", "gt1", "gt2"))) 3
    else if (op.in(Set("oc", "full"))) 4
    else if (op == "gso") 9 else 12
  pure def isGrad(op: str): bool = op.in(Set("gov", "gt1", "gt2", "gso", "goc", "gfull"))
  // character of matrix q: 0 scalar, 1..3 component of a polar vector, 4..6 of an axial vector
  // (spin-orbit) and, for gradients, the direction
  pure def soComp(op: str, q: int): int =   // -1: not a spin-orbit matrix
    if (op == "so") q
    else if (op == "gso") q / 3
    else if (op.in(Set("oc", "full"))) q - 1
    else if (op.in(Set("goc", "gfull"))) q / 3 - 1
    else -1
  pure def dirOf(op: str, q: int): int =    // direction of a derivative, -1: none
    if (op == "mom") q else if (isGrad(op)) q % 3 else -1
  // matrix with given spin-orbit component and direction
  pure def matOf(op: str, c: int, d: int): int =
    if (op == "so") c
    else if (op == "gso") 3 * c + d
    else if (op.in(Set("oc", "full"))) c + 1
    else if (op.in(Set("goc", "gfull"))) 3 * (c + 1) + d
    else if (d >= 0) d else 0
  pure def antisym(op: str, q: int): int =  // sign under exchange of bra and ket
    if (op == "mom") -1 else if (soComp(op, q) >= 0) -1 else 1

  // ---- identity maps ------------------------------------------------------------
  pure def iota(n: int): List[int] = upto(n)
  pure def ones(n: int): List[int] = upto(n).foldl(List(), (l, i) => l.append(1))
  pure def same(op: str): List[List[Link]] =
    upto(nmat(op)).foldl(List(), (l, q) => l.append(List({ k: 1, q: q, w: S })))
  pure def none(op: str): List[List[Link]] = upto(nmat(op)).foldl(List(), (l, q) => l.append(List()))
  pure def plainRel(kind: str, calls: List[Call], target: List[List[Link]]): Rel = {
    val na = ncart(calls[0].a.L)
    val nb = ncart(calls[0].b.L)
    { kind: kind, calls: calls, target: target, tr: false, ri: iota(na), rs: ones(na), ci: iota(nb), cs: ones(nb) }
  }
  // sum over calls 1..n with weights
  pure def sumRel(kind: str, c0: Call, cs: List[Call], ws: List[int]): Rel =
    plainRel(kind, List(c0).concat(cs), upto(nmat(c0.op)).foldl(List(), (l, q) =>
      l.append(upto(cs.length()).foldl(List(), (m, k) => m.append({ k: k + 1, q: q, w: ws[k] })))))

  // ---- transformations ----------------------------------------------------------
  pure def moveShell(s: Shell, f: Vec => Vec): Shell = { L: s.L, c: s.c, al: s.al, o: f(s.o) }
  pure def moved(c: Call, f: Vec => Vec): Call = {
    op: c.op, a: moveShell(c.a, f), b: moveShell(c.b, f), C: f(c.C), P: f(c.P), p: c.p,
    s: c.s.foldl(List(), (l, x) => l.append(moveShell(x, f))), par: c.par, loc: c.loc, ar: c.ar, so: c.so,
    oa: c.oa, ob: c.ob, os: c.os }
  pure def translation(c: Call, v: Vec): Rel =
    plainRel("translate", List(moved(c, x => vadd(x, v)), c), same(c.op))

  // x'_k = s_k x_{p_k}
  type Turn = { p: List[int], s: List[int] }
  pure val PERMS: List[List[int]] = List(List(0, 1, 2), List(1, 2, 0), List(2, 0, 1), List(1, 0, 2), List(0, 2, 1), List(2, 1, 0))
  pure def det(t: Turn, ip: int): int = (if (ip < 3) 1 else -1) * t.s[0] * t.s[1] * t.s[2]
  pure def turnV(t: Turn, v: Vec): Vec = (t.s[0] * vget(v, t.p[0]), t.s[1] * vget(v, t.p[1]), t.s[2] * vget(v, t.p[2]))
  pure def turnE(t: Turn, e: Cart): Cart =    // e' -> e with e_{p_k} = e'_k
    D3.foldl((0, 0, 0), (x, k) => inc(x, t.p[k], cget(e, k)))
  pure def signE(t: Turn, e: Cart): int = D3.foldl(1, (x, k) => if (cget(e, k) % 2 == 1) x * t.s[k] else x)
  pure def turned(c: Call, ip: int, signs: int): Rel = {
    val t = { p: PERMS[ip], s: List(if (signs % 2 == 1) -1 else 1, if ((signs / 2) % 2 == 1) -1 else 1, if ((signs / 4) % 2 == 1) -1 else 1) }
    val c1 = moved(c, x => turnV(t, x))
    val d = det(t, ip)
    val la = listOf(c.oa, c.a.L)
    val lb = listOf(c.ob, c.b.L)
    {
      kind: "turn", calls: List(c1, c), tr: false,
      target: upto(nmat(c.op)).foldl(List(), (l, q) => {
        val sc = soComp(c.op, q)
        val dd = dirOf(c.op, q)
        val w = (if (sc >= 0) d * t.s[sc] else 1) * (if (dd >= 0) t.s[dd] else 1)
        l.append(List({ k: 1, q: matOf(c.op, if (sc >= 0) t.p[sc] else sc, if (dd >= 0) t.p[dd] else dd), w: w * S }))
      }),
      ri: la.foldl(List(), (l, e) => l.append(indexOf(la, turnE(t, e)))),
      rs: la.foldl(List(), (l, e) => l.append(signE(t, e))),
      ci: lb.foldl(List(), (l, e) => l.append(indexOf(lb, turnE(t, e)))),
      cs: lb.foldl(List(), (l, e) => l.append(signE(t, e)))
    }
  }
  pure def exchanged(c: Call): Rel = {
    val c1 = c.with("a", c.b).with("b", c.a).with("oa", c.ob).with("ob", c.oa)
    {
      kind: "exchange", calls: List(c1, c), tr: true,
      target: upto(nmat(c.op)).foldl(List(), (l, q) => l.append(List({ k: 1, q: q, w: antisym(c.op, q) * S }))),
      ri: iota(ncart(c.b.L)), rs: ones(ncart(c.b.L)), ci: iota(ncart(c.a.L)), cs: ones(ncart(c.a.L))
    }
  }
  pure def prim(s: Shell, i: int): Shell = { L: s.L, o: s.o, c: List(S), al: List(s.al[i]) }
  pure def splitBra(c: Call): Rel =
    sumRel("split-bra", c, upto(c.a.c.length()).foldl(List(), (l, i) => l.append(c.with("a", prim(c.a, i)))), c.a.c)
  pure def splitKet(c: Call): Rel =
    sumRel("split-ket", c, upto(c.b.c.length()).foldl(List(), (l, i) => l.append(c.with("b", prim(c.b, i)))), c.b.c)
  pure def onlyTerm(p: Pot, i: int): Pot = { L: p.L, J: p.J, t: List({ n: p.t[i].n, c: S, z: p.t[i].z }) }
  pure def splitPot(c: Call): Rel =
    sumRel("split-potential", c, upto(c.p[0].t.length()).foldl(List(), (l, i) => l.append(c.with("p", List(onlyTerm(c.p[0], i))))),
      c.p[0].t.foldl(List(), (l, t) => l.append(t.c)))
  // reverse the primitives and terms and add some with zero coefficient
  pure def padShell(s: Shell, seed: int): Shell = {
    L: s.L, o: s.o,
    c: rev(s.c).append(0).concat(List()), al: rev(s.al).append(fromQ(pick(EXPO, seed, 500))) }
  pure def rev(x: List[int]): List[int] = upto(x.length()).foldl(List(), (l, i) => l.append(x[x.length() - 1 - i]))
  pure def padPot(p: Pot, seed: int): Pot = {
    L: p.L, J: p.J,
    t: upto(p.t.length()).foldl(List({ n: 2, c: 0, z: fromQ(pick(EXPO, seed, 501)) }), (l, i) => l.append(p.t[p.t.length() - 1 - i])) }
  pure def padPots(p: List[Pot], seed: int): List[Pot] = p.foldl(List(), (l, x) => l.append(padPot(x, seed)))
  pure def padded(c: Call, seed: int): Rel =
    plainRel("pad", List(c.with("a", padShell(c.a, seed)).with("b", padShell(c.b, seed + 1)).with("p", padPots(c.p, seed))
                          .with("loc", padPots(c.loc, seed)).with("ar", padPots(c.ar, seed)).with("so", padPots(c.so, seed)), c), same(c.op))
  // bra and ket with 2^-k of their coefficients, the potential (or the weight of the result) with 2^2k of it
  pure def scaledShell(s: Shell, m: int): Shell = { L: s.L, o: s.o, c: s.c.foldl(List(), (l, x) => l.append(x / m)), al: s.al }
  pure def scaledPots(p: List[Pot], w: int): List[Pot] = p.foldl(List(), (l, x) => l.append({
    L: x.L, J: x.J, t: x.t.foldl(List(), (m, t) => m.append({ n: t.n, c: t.c * w, z: t.z })) }))
  pure def scaled(c: Call, k: int): Rel = {
    val m = 2^k
    val weigh = c.op.in(Set("ov", "kin", "mom", "nuc", "gov"))
    val c1 = c.with("a", scaledShell(c.a, m)).with("b", scaledShell(c.b, m))
    plainRel("scale",
      List(c, c1.with("p", scaledPots(c.p, m * m)).with("loc", scaledPots(c.loc, m * m)).with("ar", scaledPots(c.ar, m * m)).with("so", scaledPots(c.so, m * m))),
      upto(nmat(c.op)).foldl(List(), (l, q) => l.append(List({ k: 1, q: q, w: if (weigh) m * m * S else S }))))
  }
  // zero potential
  pure def zeroPot(c: Call): Rel =
    plainRel("zero-potential", List(c.with("p", c.p.foldl(List(), (l, x) => l.append({ L: x.L, J: x.J, t: x.t.foldl(List(), (m, t) => m.append({ n: t.n, c: 0, z: t.z })) })))), none(c.op))
  pure def ordered(c: Call, oa: int, ob: int, os: List[int]): Rel = {
    val la = listOf(oa, c.a.L)
    val lb = listOf(ob, c.b.L)
    val sa = listOf(c.oa, c.a.L)
    val sb = listOf(c.ob, c.b.L)
    {
      kind: "order", calls: List(c.with("oa", oa).with("ob", ob).with("os", os), c), tr: false, target: same(c.op),
      ri: la.foldl(List(), (l, e) => l.append(indexOf(sa, e))), rs: ones(la.length()),
      ci: lb.foldl(List(), (l, e) => l.append(indexOf(sb, e))), cs: ones(lb.length())
    }
  }
  // the gradients over the distinct centres add up to zero
  pure def centreSum(c: Call): Rel = {
    val pts = List(c.b.o).concat(if (c.op == "gov") List() else List(c.C)).foldl(List(c.a.o), (l, x) =>
      if (l.foldl(false, (f, y) => f or y == x)) l else l.append(x))
    val rest = pts.slice(1, pts.length())
    sumRel("centre-sum", c.with("P", pts[0]), rest.foldl(List(), (l, x) => l.append(c.with("P", x))),
           rest.foldl(List(), (l, x) => l.append(-S)))
  }
  pure def elsewhere(c: Call): Rel = plainRel("no-centre", List(c.with("P", (fromQ(-11111), fromQ(78), fromQ(5)))), none(c.op))
  pure def partsRel(c: Call): Rel = {
    val g = c.op == "gfull"
    val nd = if (g) 3 else 1
    val base = c.with("loc", List()).with("ar", List()).with("so", List())
    pure def nop(x: str, ps: List[Pot]): Call = base.with("op", x).with("p", ps).with("s", List()).with("os", List())
    val loc = c.loc.foldl(List(), (l, x) => l.append(nop(if (g) "gt1" else "t1", List(x))))
    val ar = c.ar.foldl(List(), (l, x) => l.append(nop(if (g) "gt2" else "t2", List(x))))
    val so = c.so.foldl(List(), (l, x) => l.append(nop(if (g) "gso" else "so", List(x))))
    val oc = if (c.p.length() > 0) List(base.with("op", if (g) "goc" else "oc")) else List()
    val ns = loc.length() + ar.length()
    plainRel("parts", List(c).concat(loc).concat(ar).concat(so).concat(oc),
      upto(nmat(c.op)).foldl(List(), (l, q) => {
        val comp = q / nd         // 0 scalar, 1..3 spin-orbit
        val d = q % nd
        val scalar = upto(if (comp == 0) ns else 0).foldl(List(), (m, i) => m.append({ k: 1 + i, q: d, w: S }))
        val spin = upto(if (comp > 0) so.length() else 0).foldl(List(), (m, i) =>
          m.append({ k: 1 + ns + i, q: nd * (comp - 1) + d, w: 2 * S / (2 * c.so[i].L + 1) }))
        val outer = upto(oc.length()).foldl(List(), (m, i) => m.append({ k: 1 + ns + so.length(), q: q, w: S }))
        l.append(scalar.concat(spin).concat(outer))
      }))
  }
  pure def revPairs(c: Call): Rel = {
    val n = c.p.length()
    plainRel("pairs", List(c.with("p", upto(n).foldl(List(), (l, i) => l.append(c.p[n - 1 - i])))
                            .with("s", upto(n).foldl(List(), (l, i) => l.append(c.s[n - 1 - i]))), c), same(c.op))
  }
  // the outercore shell is taken at the potential's centre whatever its own origin
  pure def ocOrigin(c: Call): Rel =
    plainRel("oc-origin", List(c.with("s", c.s.foldl(List(), (l, x) => l.append(moveShell(x, v => vadd(v, (S, -S, fromQ(300000))))))), c), same(c.op))
  pure def charge(c: Call, z1: int): Rel =
    sumRel("charge", c, List(c.with("par", List(z1).concat(c.par.slice(1, 5))), c.with("par", List(c.par[0] - z1).concat(c.par.slice(1, 5)))), List(S, S))
  pure def specific(c: Call): Rel = plainRel("specific", List(c.with("op", "nucs"), c), same(c.op))
  pure def numericPoint(c: Call): Rel =
    plainRel("numeric-point", List(c.with("par", List(c.par[0], 5, 0, 0, 0)), c.with("par", List(c.par[0], 0, 0, 0, 0))), same(c.op))
  // a part of the object that contributes nothing
  pure def emptyGrpp(c: Call): Rel =
    plainRel("empty", List(c.with("loc", List()).with("ar", List()).with("so", List()).with("p", List()).with("s", List()).with("os", List())), none(c.op))

  // ---- base calls -----------------------------------------------------------------
  pure def lim(op: str): (int, int) =    // largest single L, largest sum
    if (op.in(Set("ov", "kin", "mom"))) (10, 20)
    else if (op == "gov") (9, 18)
    else if (op == "t1") (10, 14)
    else if (op == "nuc" or op == "nucs") (6, 8)
    else if (op == "t2") (10, 6)
    else if (op == "so") (10, 5)
    else if (op == "gt1") (7, 9)
    else if (op == "gt2") (5, 5)
    else if (op.in(Set("oc", "full"))) (4, 6)
    else if (op == "gso") (3, 4)
    else (3, 3)
  pure def baseCall(op: str, g: int, np: int, seed: int): Call = callWith(op, g, np, rnd(seed, 19) % 5 == 0, seed)
  pure def callWith(op: str, g: int, np: int, steep: bool, seed: int): Call = {
    val lm = lim(op)
    val la = rnd(seed, 600) % (min2(lm._1, lm._2) + 1)
    val lb = rnd(seed, 601) % (min2(lm._1, lm._2 - la) + 1)
    val sw = rnd(seed, 602) % 2 == 0
    val pl = place(g, seed)
    val na = 1 + rnd(seed, 603) % np
    val nb = 1 + rnd(seed, 604) % np
    val sh = tied(g, mkShells(if (sw) la else lb, if (sw) lb else la, na, nb, pl, steep, seed))
    val l = if (op.in(Set("t1", "gt1"))) 0 else rnd(seed, 605) % (if (op == "t2") 6 else 4)
    val full = op.in(Set("full", "gfull"))
    val outer = op.in(Set("oc", "goc", "full", "gfull"))
    val one = op.in(Set("t1", "t2", "so", "gt1", "gt2", "gso"))
    val noc = if (outer) (if (full) rnd(seed, 606) % 3 else 1 + rnd(seed, 606) % 3) else 0
    val ps = upto(noc).foldl(List(), (acc, i) => {
      val li = if (rnd(seed, 300 + i) % 3 == 0) (l + 1) % 4 else l
      val up = li == 0 or rnd(seed, 310 + i) % 2 == 0
      acc.append({ L: li, J: 2 * li + (if (up) 1 else -1), t: termsOf(1 + rnd(seed, 320 + i) % 2, List(1, 2), seed + 31 * i) })
    })
    val ss = upto(noc).foldl(List(), (acc, i) => acc.append(shellOf(ps[i].L, 1 + rnd(seed, 330 + i) % 2, pl.C, false, seed + 17 * i + 3)))
    pure def mkp(i: int, lo: int): Pot = {
      val li = lo + rnd(seed, 340 + i) % 3
      { L: li, J: 2 * li, t: termsOf(1 + rnd(seed, 350 + i) % 2, List(0, 1, 2), seed + 41 * i) }
    }
    {
      op: op, a: sh._1, b: sh._2, C: pl.C, P: if (isGrad(op)) pointOf(pl, rnd(seed, 607) % 3) else NOV,
      p: if (one) List({ L: l, J: 2 * l, t: termsOf(1 + rnd(seed, 608) % np, List(0, 1, 2), seed) }) else ps,
      s: ss, par: if (op.in(Set("nuc", "nucs"))) nucParams(rnd(seed, 609) % 6, seed) else List(),
      loc: if (full and rnd(seed, 610) % 3 > 0) List({ L: 0, J: 0, t: termsOf(1 + rnd(seed, 611) % 3, List(1, 2), seed + 5) }) else List(),
      ar: if (full) upto(rnd(seed, 612) % 4).foldl(List(), (acc, i) => acc.append(mkp(i, 0))) else List(),
      so: if (full) upto(rnd(seed, 613) % 3).foldl(List(), (acc, i) => acc.append(mkp(10 + i, 1))) else List(),
      oa: 0, ob: 0, os: ss.foldl(List(), (acc, x) => acc.append(0))
    }
  }
  pure val ALLOPS: List[str] = List("ov", "kin", "mom", "t1", "t2", "so", "oc", "full", "nuc", "gov", "gt1", "gt2", "gso", "goc", "gfull")
  pure val FAROPS: List[str] = List("ov", "ov", "kin", "mom", "gov", "t1", "t2", "nuc")
  pure val GRADOPS: List[str] = List("gov", "gt1", "gt2", "gso", "goc", "gfull")
  pure val POTOPS: List[str] = List("t1", "t2", "so", "gt1", "gt2", "gso")
  pure def orderOf(seed: int, k: int, L: int): int = {
    val x = rnd(seed, k) % 4
    if (x == 3) 10 + rnd(seed, k + 50) % ncart(L) else x
  }

  action init = r' = plainRel("none", List(baseCall("ov", 4, 1, 1)), none("ov"))

  // placement without the far class: the comparison is between rounded results
  pure val PLACES: List[int] = List(0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13)
  pure val LENGTHS: List[int] = List(3, 7, 7, 14)
  pure def relOf(kind: str, seed: int): Rel = {
    val g = pick(PLACES, seed, 700)
    val i = rnd(seed, 701)
    val op = ALLOPS[i % 15]
    if (kind == "translate") {
      // up to hundreds of bohr: exact in the coordinates, which are multiples of 2^-20
      val far = pick(List(1, 1, 16, 128), seed, 708)
      translation(baseCall(op, g, 2, seed), (fromQ(pick(POS, seed, 702) * far), fromQ(pick(POS, seed, 703) * 3), fromQ(pick(POS, seed, 704) * far)))
    }
    else if (kind == "far") {
      val far = pick(List(96, 128), seed, 708)
      translation(callWith(FAROPS[rnd(seed, 713) % 8], g, 3, rnd(seed, 714) % 3 > 0, seed),
        (fromQ(pick(POS, seed, 702) * far), fromQ(pick(POS, seed, 703) * far), fromQ(pick(POS, seed, 704) * far)))
    }
    else if (kind == "turn") turned(baseCall(op, g, 2, seed), rnd(seed, 705) % 6, rnd(seed, 706) % 8)
    else if (kind == "exchange") exchanged(baseCall(op, g, 2, seed))
    else if (kind == "split-bra") splitBra(baseCall(op, g, pick(LENGTHS, seed, 709), seed))
    else if (kind == "split-ket") splitKet(baseCall(op, g, pick(LENGTHS, seed, 709), seed))
    else if (kind == "split-potential") splitPot(baseCall(POTOPS[i % 6], g, pick(LENGTHS, seed, 709), seed))
    else if (kind == "scale") scaled(baseCall(op, g, pick(LENGTHS, seed, 709), seed), 4 + 4 * (rnd(seed, 712) % 4))
    else if (kind == "pad") padded(baseCall(op, g, 3, seed), seed)
    else if (kind == "zero-potential") zeroPot(baseCall(POTOPS[i % 6], g, 2, seed))
    else if (kind == "order") {
      val b = baseCall(op, g, 2, seed)
      ordered(b, orderOf(seed, 710, b.a.L), orderOf(seed, 711, b.b.L),
        upto(b.s.length()).foldl(List(), (l, k) => l.append(orderOf(seed, 720 + k, b.s[k].L))))
    }
    else if (kind == "centre-sum") centreSum(baseCall(GRADOPS[i % 6], g, 2, seed))
    else if (kind == "no-centre") elsewhere(baseCall(GRADOPS[i % 6], g, 2, seed))
    else if (kind == "parts") partsRel(baseCall(if (i % 3 == 0) "gfull" else "full", g, 2, seed))
    else if (kind == "empty") emptyGrpp(baseCall(if (i % 2 == 0) "gfull" else "full", g, 2, seed))
    else if (kind == "pairs") revPairs(baseCall(if (i % 3 == 0) "goc" else "oc", g, 2, seed))
    else if (kind == "oc-origin") ocOrigin(baseCall(if (i % 3 == 0) "goc" else "oc", g, 2, seed))
    else if (kind == "charge") { val b = baseCall("nuc", g, 2, seed)
      charge(b.with("par", List(b.par[0] + 1).concat(b.par.slice(1, 5))), 1 + rnd(seed, 707) % b.par[0]) }
    else if (kind == "specific") specific(baseCall("nuc", g, 2, seed))
    else numericPoint(baseCall("nuc", g, 2, seed))
  }
  action stepKind(kinds: Set[str]): bool = {
    nondet kind = kinds.oneOf()
    nondet seed = 1.to(2^40).oneOf()
    r' = relOf(kind, seed)
  }
  pure val SYMMETRY: Set[str] = Set("translate", "far", "turn", "exchange")
  pure val LINEAR: Set[str] = Set("split-bra", "split-ket", "split-potential", "pad", "zero-potential", "scale")
  action stepSymmetry = stepKind(SYMMETRY)
  action stepLinear = stepKind(LINEAR)
  action stepOrder = stepKind(Set("order"))
  action stepParts = stepKind(Set("parts", "parts", "parts", "empty"))
  action stepCentres = stepKind(Set("centre-sum", "no-centre"))
  action stepPairs = stepKind(Set("pairs", "oc-origin"))
  action stepNucRel = stepKind(Set("charge", "specific", "numeric-point"))

  // ---- the relations hold for the exact values (small calls) -------------------------
  pure def natural(c: Call, el: List[(int, int)]): List[(int, int)] = el.foldl(List(), (l, ij) =>
    l.append((indexOf(carts(c.a.L), listOf(c.oa, c.a.L)[ij._1]), indexOf(carts(c.b.L), listOf(c.ob, c.b.L)[ij._2]))))
  pure def evalCall(c: Call, el: List[(int, int)]): List[List[int]] = {
    val e = natural(c, el)
    val ss = c.s.foldl(List(), (l, x) => l.append(moveShell(x, v => c.C)))
    if (c.op == "nucs") evalOp("nuc", c.a, c.b, c.C, c.P, c.p, ss, c.par, e)
    else if (c.op.in(Set("full", "gfull"))) {
      val g = c.op == "gfull"
      val nd = if (g) 3 else 1
      val z = upto(4 * nd).foldl(List(), (l, q) => l.append(zeros(e.length())))
      pure def ev(op: str, ps: List[Pot], sh: List[Shell]): List[List[int]] = evalOp(op, c.a, c.b, c.C, c.P, ps, sh, c.par, e)
      val x1 = c.loc.foldl(z, (m, p) => addAt(m, 0, S, ev(if (g) "gt1" else "t1", List(p), List())))
      val x2 = c.ar.foldl(x1, (m, p) => addAt(m, 0, S, ev(if (g) "gt2" else "t2", List(p), List())))
      val x3 = c.so.foldl(x2, (m, p) => addAt(m, nd, 2 * S / (2 * p.L + 1), ev(if (g) "gso" else "so", List(p), List())))
      if (c.p.length() == 0) x3 else addAt(x3, 0, S, ev(if (g) "goc" else "oc", c.p, ss))
    }
    else evalOp(c.op, c.a, c.b, c.C, c.P, c.p, ss, c.par, e)
  }
  pure def addAt(m: List[List[int]], q0: int, w: int, x: List[List[int]]): List[List[int]] =
    upto(m.length()).foldl(List(), (l, q) =>
      l.append(if (q >= q0 and q < q0 + x.length()) padd(m[q], pscale(x[q - q0], w)) else m[q]))
  pure def holdsAt(x: Rel, ij: (int, int)): bool = {
    val lhs = evalCall(x.calls[0], List(ij))
    val src = if (x.tr) (x.ci[ij._2], x.ri[ij._1]) else (x.ri[ij._1], x.ci[ij._2])
    val rhs = upto(x.calls.length()).foldl(List(), (l, k) => l.append(if (k == 0) List() else evalCall(x.calls[k], List(src))))
    upto(lhs.length()).foldl(true, (ok, q) => {
      val s = x.target[q].foldl(0, (acc, t) => acc + mul(t.w, rhs[t.k][t.q][0]))
      ok and abs(lhs[q][0] - x.rs[ij._1] * x.cs[ij._2] * s) < 10^55 + abs(lhs[q][0]) / 10^20
    })
  }
  val relationHolds: bool = {
    val c = r.calls[0]
    val pots = c.p.concat(c.loc).concat(c.ar).concat(c.so)
    val small = c.a.L + c.b.L + pots.foldl(0, (x, p) => x + p.L) <= 4 and
                c.a.c.length() * c.b.c.length() * (1 + pots.foldl(0, (x, p) => x + p.t.length())) * r.calls.length() <= (if (isGrad(c.op)) 4 else 12)
    r.kind == "none" or not(small) or holdsAt(r, (ncart(r.calls[0].a.L) - 1, ncart(r.calls[0].b.L) / 2))
  }
}
