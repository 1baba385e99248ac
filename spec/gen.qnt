// Arguments of calls drawn from a seed, and the exact result of a call.
module gen {
  import fixed.* from "./fixed"
  import ops.* from "./ops"
  import nuclear.* from "./nuclear"

  type Case = { op: str, a: Shell, b: Shell, C: Vec, P: Vec, p: List[Pot], s: List[Shell],
                par: List[int], nm: int, elems: List[(int, int)], exp: List[List[int]], scale: List[int] }
  // ---- pseudo-random stream -------------------------------------------------
  pure def rnd(seed: int, k: int): int = {
    val x = ((seed + 1) * 2862933555777941757 + (k + 1) * 3202034522624059733) % 18446744073709551616
    val y = ((x + x / 4294967296) * 6364136223846793005 + 1442695040888963407) % 18446744073709551616
    val z = ((y + y / 4294967296) * 2862933555777941757 + 7046029254386353087) % 18446744073709551616
    z / 4294967296
  }
  pure def pick(l: List[int], seed: int, k: int): int = l[rnd(seed, k) % l.length()]

  // exponents, in units of 2^-20: from very diffuse to steep
  pure val EXPO: List[int] = List(16384, 65536, 137011, 262144, 524288, 700001, 1048576, 1500003, 2097152, 3932161, 7340032, 12582917, 31457280)
  pure val STEEP: List[int] = List(104857600, 531628032, 4294967296, 52428800000)
  pure val STEEPU: List[int] = List(104857600, 524288001, 2097152)
  pure val COEF: List[int] = List(1048576, -1048576, 524288, -349525, 262144, 917503, -73403, 1258291, 104857, 2097152, 10485, 0)
  // coordinates
  pure val POS: List[int] = List(0, 1048576, -1048576, 524288, -786432, 262145, 1677721, -1992294, 2621440, -104857, 3145729, 52428)
  pure val FAR: List[int] = List(8388608, -6291456, 5242880)

  pure def vecOf(seed: int, k: int): Vec = (fromQ(pick(POS, seed, k)), fromQ(pick(POS, seed, k + 1)), fromQ(pick(POS, seed, k + 2)))

  pure val TINY: List[int] = List(1, -10, 105, -1049, 10486, -52429)
  pure val D3L: List[int] = List(0, 1, 2)
  pure def along(u: Vec, x: int, k: int): Vec = if (k == 0) (u._1 + x, u._2, u._3) else if (k == 1) (u._1, u._2 + x, u._3) else (u._1, u._2, u._3 + x)

  // g: placement class of (A, B, C)
  //  0 all equal, 1 A=C, 2 B=C, 3 A=B, 4,5 general, 6 on the z axis, 7 one centre far away,
  //  8 nearly coincident, 9 A and B on opposite sides of C, 10 the same with equal exponents (C is
  //  the centre of the product), 11 two distant shells, 12 one shell almost on C, 13 C on the line of
  //  the shells, along a coordinate axis
  pure def place(g: int, seed: int): { A: Vec, B: Vec, C: Vec } = {
    val u = vecOf(seed, 1)
    val v = vecOf(seed, 5)
    val w = vecOf(seed, 9)
    val d = fromQ(pick(List(1, 16, 105, 1024, 65536), seed, 13))
    if (g == 0) { A: u, B: u, C: u }
    else if (g == 1) { A: u, B: v, C: u }
    else if (g == 2) { A: u, B: v, C: v }
    else if (g == 3) { A: u, B: u, C: w }
    else if (g == 6) { A: (0, 0, u._3), B: (0, 0, v._1), C: (0, 0, w._2) }
    else if (g == 7) { A: u, B: v, C: (w._1, fromQ(pick(FAR, seed, 14)), w._3) }
    else if (g == 8) { A: vadd(u, (d, 0, -d)), B: vadd(u, (0, 2 * d, d)), C: u }
    else if (g == 9 or g == 10) { A: vadd(w, u), B: vsub(w, u), C: w }
    else if (g == 11) { A: u, B: vadd(v, (fromQ(pick(FAR, seed, 14)), 0, fromQ(pick(FAR, seed, 15)))), C: w }
    else if (g == 12) {
      val t = along(u, fromQ(pick(TINY, seed, 16)), pick(D3L, seed, 17))
      if (rnd(seed, 18) % 2 == 0) { A: t, B: v, C: u } else { A: v, B: t, C: u }
    }
    else if (g == 13) {
      val k = pick(D3L, seed, 17)
      { A: along(u, v._1, k), B: along(u, v._2, k), C: u }
    }
    else { A: u, B: v, C: w }
  }
  // small coefficients of steep primitives
  pure val SMALLC: List[int] = List(1049, -33, 7, 2)
  pure def isSteep(steep: bool, seed: int, i: int): bool = steep and rnd(seed, 60 + i) % 3 == 0
  // n primitives; steep: some very steep exponents, with coefficients of any size
  pure def shellOf(L: int, n: int, o: Vec, steep: bool, seed: int): Shell = {
    L: L, o: o,
    c: upto(n).foldl(List(), (l, i) => l.append(fromQ(
      if (isSteep(steep, seed, i) and rnd(seed, 95 + i) % 3 == 0) pick(SMALLC, seed, 20 + i) else pick(COEF, seed, 20 + i)))),
    al: upto(n).foldl(List(), (l, i) => l.append(fromQ(
      if (isSteep(steep, seed, i)) pick(STEEP, seed, 80 + i) else pick(EXPO, seed, 40 + i))))
  }
  // potential with n terms of powers chosen among ns
  pure def termsOf(n: int, ns: List[int], seed: int): List[PotTerm] =
    upto(n).foldl(List(), (l, i) => l.append({
      n: pick(ns, seed, 100 + i), c: fromQ(pick(COEF, seed, 110 + i)), z: fromQ(if (rnd(seed, 130 + i) % 8 == 0) pick(STEEPU, seed, 140 + i) else pick(EXPO, seed, 120 + i)) }))

  // all elements of a small matrix, a sample of a large one (first and last always included)
  pure def sampleElems(na: int, nb: int, n: int, seed: int): List[(int, int)] =
    if (na * nb <= n) allElems(na, nb) else
    upto(n - 2).foldl(List((0, 0), (na - 1, nb - 1)), (l, i) =>
      l.append((rnd(seed, 200 + 2 * i) % na, rnd(seed, 201 + 2 * i) % nb)))

  // keep 30 decimal digits of the results
  pure val OUT: int = 10^50
  pure def trunc(m: List[List[int]]): List[List[int]] =
    m.foldl(List(), (l, x) => l.append(x.foldl(List(), (l2, y) => l2.append(y / OUT))))

  // ---- operations ------------------------------------------------------------
  pure def negm(a: List[int]): List[int] = a.foldl(List(), (l, x) => l.append(-x))
  pure def sumPots(a: Shell, fa: int, b: Shell, fb: int, C: Vec, ps: List[Pot], el: List[(int, int)]): List[int] =
    ps.foldl(zeros(el.length()), (acc, p) => padd(acc, semiF(a, fa, b, fb, C, p.L, p.t, el)))
  // derivative with respect to the point P of F(fa, fb) where fa/fb = 11+d differentiate bra/ket
  // centre: the sum over everything that sits at P
  pure def gradOf(a: Shell, b: Shell, C: Vec, P: Vec, dA: List[int], dB: List[int]): List[int] = {
    val n = dA.length()
    val zA = if (a.o == P) dA else zeros(n)
    val zB = if (b.o == P) dB else zeros(n)
    val zC = if (C == P) negm(padd(dA, dB)) else zeros(n)
    padd(padd(zA, zB), zC)
  }
  pure val D3: List[int] = List(0, 1, 2)

  pure def evalOp(op: str, a: Shell, b: Shell, C: Vec, P: Vec, ps: List[Pot], ss: List[Shell], par: List[int], el: List[(int, int)]): List[List[int]] = {
    val z = zeros(el.length())
    if (op == "ov") List(overlapF(a, 0, b, 0, el))
    else if (op == "kin") List(overlapF(a, 0, b, 4, el))
    else if (op == "mom") D3.foldl(List(), (l, d) => l.append(negm(overlapF(a, 0, b, 1 + d, el))))
    else if (op == "t1") List(localF(a, 0, b, 0, C, ps[0].t, el))
    else if (op == "t2") List(semiF(a, 0, b, 0, C, ps[0].L, ps[0].t, el))
    else if (op == "so") D3.foldl(List(), (l, d) => l.append(negm(semiF(a, 0, b, 5 + d, C, ps[0].L, ps[0].t, el))))
    else if (op == "oc") {
      val m = outercoreF(a, 0, b, 0, C, ps, ss, el)
      List(m[0], negm(m[1]), negm(m[2]), negm(m[3]))
    }
    else if (op == "nuc") List(nuclearF(a, b, C, par, el))
    else if (op == "gov") D3.foldl(List(), (l, d) => l.append(
        padd(if (a.o == P) overlapF(a, 11 + d, b, 0, el) else z, if (b.o == P) overlapF(a, 0, b, 11 + d, el) else z)))
    else if (op == "gt1") D3.foldl(List(), (l, d) => l.append(
        gradOf(a, b, C, P, localF(a, 11 + d, b, 0, C, ps[0].t, el), localF(a, 0, b, 11 + d, C, ps[0].t, el))))
    else if (op == "gt2") D3.foldl(List(), (l, d) => l.append(
        gradOf(a, b, C, P, semiF(a, 11 + d, b, 0, C, ps[0].L, ps[0].t, el), semiF(a, 0, b, 11 + d, C, ps[0].L, ps[0].t, el))))
    else if (op == "gso") D3.foldl(List(), (l, k) => D3.foldl(l, (l2, d) => l2.append(
        negm(gradOf(a, b, C, P, semiF(a, 11 + d, b, 5 + k, C, ps[0].L, ps[0].t, el),
                                semiF(a, 0, b, 20 + 10 * k + d, C, ps[0].L, ps[0].t, el))))))
    else if (op == "goc") {
      // per direction: four matrices of bra- and ket-differentiated functions
      val g = D3.foldl(List(), (l, d) => l.append((outercoreF(a, 11 + d, b, 0, C, ps, ss, el), outercoreF(a, 0, b, 11 + d, C, ps, ss, el))))
      upto(4).foldl(List(), (l, q) => D3.foldl(l, (l2, d) => l2.append({
        val m = gradOf(a, b, C, P, g[d]._1[q], g[d]._2[q])
        if (q == 0) m else negm(m)
      })))
    }
    else List()
  }
  // size of the quantities that cancel in a result: the same elements over |coefficients|,
  // used by the comparison to scale the admitted rounding error
  pure def absShell(s: Shell): Shell = { L: s.L, o: s.o, al: s.al, c: s.c.foldl(List(), (l, x) => l.append(abs(x))) }

  pure def mk(op: str, a: Shell, b: Shell, C: Vec, P: Vec, ps: List[Pot], ss: List[Shell], par: List[int], n: int, seed: int): Case = {
    val el = sampleElems(ncart(a.L), ncart(b.L), n, seed)
    val e = evalOp(op, a, b, C, P, ps, ss, par, el)
    { op: op, a: a, b: b, C: C, P: P, p: ps, s: ss, par: par, nm: e.length(), elems: el, exp: trunc(e), scale: List() }
  }
  pure val NOV: Vec = (0, 0, 0)
  pure def pointOf(g: { A: Vec, B: Vec, C: Vec }, q: int): Vec =
    if (q == 0) g.A else if (q == 1) g.B else if (q == 2) g.C else (fromQ(11111), fromQ(77), fromQ(-5))

  pure def mkShells(la: int, lb: int, na: int, nb: int, g: { A: Vec, B: Vec, C: Vec }, steep: bool, seed: int): (Shell, Shell) =
    (shellOf(la, na, g.A, steep, seed), shellOf(lb, nb, g.B, steep, seed + 7))

  // placement 10: the same exponents on both shells
  pure def tied(g: int, sh: (Shell, Shell)): (Shell, Shell) = {
    val m = sh._1.al.length()
    if (g != 10) sh
    else (sh._1, { L: sh._2.L, o: sh._2.o, c: sh._2.c, al: upto(sh._2.al.length()).foldl(List(), (l, i) => l.append(sh._1.al[if (i < m) i else m - 1])) })
  }

  pure def nucParams(model: int, seed: int): List[int] = {
    val Z = 1 + rnd(seed, 400) % 118
    // lengths in units of 2^-20 bohr
    // the moment series of the Fermi models needs a nucleus that is small on the scale of the shells
    val R = fromQ(pick(if (model >= 3) List(60, 99, 150, 1000) else List(60, 99, 150, 1000, 20000, 262144), seed, 401))
    val k = fromQ(pick(List(262144, -104857, 524288, 1048576), seed, 402))
    val a = mul(R, fromQ(pick(List(104857, 73400, 209715), seed, 403)))
    if (model == 1 or model == 2) List(Z, model, R, 0, 0)
    else if (model == 3) List(Z, model, R, a, 0)
    else if (model == 4) List(Z, model, R, a, k)
    else List(Z, model, 0, 0, 0)
  }
}
