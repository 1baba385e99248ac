// The public integral routines as exact functions of their arguments.
module ops {
  import fixed.* from "./fixed"
  import integrals.* from "./integrals"
  export integrals.*

  // all (i,j) index pairs of a matrix na x nb, row-major
  pure def allElems(na: int, nb: int): List[(int, int)] =
    upto(na).foldl(List(), (l, i) => upto(nb).foldl(l, (m, j) => m.append((i, j))))
  pure def ncart(L: int): int = (L + 1) * (L + 2) / 2
  pure def idents(L: int): List[Comb] = carts(L).foldl(List(), (l, e) => l.append(ident(e)))
  pure def mapc(L: int, f: Cart => Comb): List[Comb] = carts(L).foldl(List(), (l, e) => l.append(f(e)))
  pure def zeros(n: int): List[int] = upto(n).foldl(List(), (t1, i) => t1.append(0))
  pure def addm(a: List[List[int]], b: List[List[int]]): List[List[int]] =
    upto(a.length()).foldl(List(), (l, i) => l.append(padd(a[i], b[i])))
  pure def scalem(a: List[List[int]], c: int): List[List[int]] =
    a.foldl(List(), (l, x) => l.append(pscale(x, c)))

  // A bra or ket function family of a shell: which operator is applied to each primitive.
  //   0: the functions themselves; 1,2,3: d/dx_d; 4: -1/2 Laplacian;
  //   5,6,7: (r x nabla)_d about C; 11,12,13: derivative with respect to the shell's centre
  //   21..43: derivative w.r.t. the centre of (r x nabla)_d' : 20 + 10*d' + ... (see so gradient)
  pure def family(k: int, L: int, al: int, A: Vec): List[Comb] =
    if (k == 0) idents(L)
    else if (k <= 3) mapc(L, e => ddx(al, e, k - 1))
    else if (k == 4) mapc(L, e => kin(al, e))
    else if (k <= 7) mapc(L, e => lang(al, A, e, k - 5))
    else if (k <= 13) mapc(L, e => ddA(al, e, k - 11))
    // operator (r x nabla)_d' applied to the centre derivative
    else mapc(L, e => onComb(f => lang(al, A, f, k / 10 - 2), ddA(al, e, k % 10)))

  pure def overlapF(a: Shell, fa: int, b: Shell, fb: int, elems: List[(int, int)]): List[int] =
    contract(a, b, elems.length(), (al, be) =>
      overlapPrim(al, a.o, family(fa, a.L, al, a.o), be, b.o, family(fb, b.L, be, b.o), elems))
  pure def localF(a: Shell, fa: int, b: Shell, fb: int, C: Vec, t: List[PotTerm], elems: List[(int, int)]): List[int] = {
    val A = vsub(a.o, C)
    val B = vsub(b.o, C)
    contract(a, b, elems.length(), (al, be) =>
      localPrim(al, A, family(fa, a.L, al, A), be, B, family(fb, b.L, be, B), t, elems))
  }
  pure def semiF(a: Shell, fa: int, b: Shell, fb: int, C: Vec, L: int, t: List[PotTerm], elems: List[(int, int)]): List[int] = {
    val A = vsub(a.o, C)
    val B = vsub(b.o, C)
    contract(a, b, elems.length(), (al, be) =>
      semiPrim(al, A, family(fa, a.L, al, A), be, B, family(fb, b.L, be, B), L, t, elems))
  }

  // ---- outercore ----------------------------------------------------------
  // kernel of P_l times (r r')^l as sum_k p_k sum_u mult(u) X_{k,u}(r) X_{k,u}(r'),
  // X_{k,u} = x^u (r^2)^k: combination of monomials of degree l
  type KU = { c: int, x: Comb }
  pure def zonal(l: int): List[KU] =
    upto(l / 2 + 1).foldl(List(), (acc, k) =>
      carts(l - 2 * k).foldl(acc, (acc2, u) => acc2.append({
        c: div((2 * l + 1) * mul(legendre(l, l - 2 * k), multinom(u) * S), 4 * PI),
        x: carts(k).foldl(List(), (cb, w) => cb.append({ c: multinom(w) * S, e: (u._1 + 2 * w._1, u._2 + 2 * w._2, u._3 + 2 * w._3) }))
      })))
  // the outercore shell as a family of functions at the origin; radially normalized primitives
  // <x_i | U | X_ku R> for all i, ku; as list over ku of list over i
  pure def ocBra(a: Shell, fa: int, C: Vec, oc: Shell, ku: List[KU], t: List[PotTerm], local: bool): List[List[int]] = {
    val A = vsub(a.o, C)
    val n = ncart(a.L)
    val el = allElems(n, ku.length())
    val y = ku.foldl(List(), (l, q) => l.append(q.x))
    val flat = upto(a.c.length()).foldl(zeros(el.length()), (acc, i) => {
      val ci = if (a.c[i] == 0) 0 else mul(a.c[i], normFactor(a.al[i], a.L))
      if (ci == 0) acc else
      upto(oc.c.length()).foldl(acc, (acc2, j) =>
        if (oc.c[j] == 0) acc2 else {
        val cj = mul(oc.c[j], radialNorm(oc.al[j], oc.L))
        val x = family(fa, a.L, a.al[i], A)
        val v = if (local) localPrim(a.al[i], A, x, oc.al[j], (0, 0, 0), y, t, el)
                else overlapPrim(a.al[i], A, x, oc.al[j], (0, 0, 0), y, el)
        padd(acc2, pscale(v, mul(ci, cj)))
      })
    })
    upto(ku.length()).foldl(List(), (l, q) => l.append(upto(n).foldl(List(), (t2, i) => t2.append(flat[i * ku.length() + q]))))
  }
  // <R_1| (U1+U2)/2 |R_2>
  pure def ocDelta(p1: Pot, s1: Shell, p2: Pot, s2: Shell): int =
    upto(s1.c.length()).foldl(0, (acc, i) => upto(s2.c.length()).foldl(acc, (acc2, j) => {
      val w = mul(mul(s1.c[i], radialNorm(s1.al[i], s1.L)), mul(s2.c[j], radialNorm(s2.al[j], s2.L)))
      acc2 + mul(w, p1.t.concat(p2.t).foldl(0, (s, t) =>
        s + mul(t.c, radialMoment(2 * s1.L + t.n, s1.al[i] + s2.al[j] + t.z)) / 2))
    }))
  pure def outer(bra: List[List[int]], ket: List[List[int]], ku: List[KU], elems: List[(int, int)]): List[int] =
    elems.foldl(List(), (l, ij) => l.append(upto(ku.length()).foldl(0, (s, q) =>
      s + mul(ku[q].c, mul(bra[q][ij._1], ket[q][ij._2])))))
  // arep, so_x, so_y, so_z; fa / gradient family of bra (0 or 11..13), fb likewise
  pure def outercoreF(a: Shell, fa: int, b: Shell, fb: int, C: Vec, ps: List[Pot], ss: List[Shell], elems: List[(int, int)]): List[List[int]] = {
    val n = elems.length()
    val fams = List(fb, if (fb == 0) 5 else 20 + (fb - 11), if (fb == 0) 6 else 30 + (fb - 11), if (fb == 0) 7 else 40 + (fb - 11))
    // vectors of every pair: bra overlap, bra U, and ket overlap/U for the four ket families
    val kus = ps.foldl(List(), (l, p) => l.append(zonal(p.L)))
    val braS = upto(ps.length()).foldl(List(), (l, i) => l.append(ocBra(a, fa, C, ss[i], kus[i], List(), false)))
    val braU = upto(ps.length()).foldl(List(), (l, i) => l.append(ocBra(a, fa, C, ss[i], kus[i], ps[i].t, true)))
    upto(4).foldl(List(), (res, q) => {
      val ketS = upto(ps.length()).foldl(List(), (l, i) => l.append(ocBra(b, fams[q], C, ss[i], kus[i], List(), false)))
      val ketU = upto(ps.length()).foldl(List(), (l, i) => l.append(ocBra(b, fams[q], C, ss[i], kus[i], ps[i].t, true)))
      val m = upto(ps.length()).foldl(zeros(n), (acc, i) => {
        val l = ps[i].L
        val w = if (q == 0) (if (ps[i].J > 2 * l) (l + 1) * S / (2 * l + 1) else l * S / (2 * l + 1))
                else (if (ps[i].J > 2 * l) 2 * S / (2 * l + 1) else -2 * S / (2 * l + 1))
        val part1 = padd(outer(braS[i], ketU[i], kus[i], elems), outer(braU[i], ketS[i], kus[i], elems))
        val part2 = upto(ps.length()).foldl(part1, (acc2, j) =>
          if (ps[j].L != l or ps[j].J != ps[i].J) acc2 else
            padd(acc2, pscale(outer(braS[i], ketS[j], kus[i], elems), -ocDelta(ps[i], ss[i], ps[j], ss[j]))))
        padd(acc, pscale(part2, w))
      })
      res.append(m)
    })
  }
}
