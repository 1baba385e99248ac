// Nuclear charge distributions: densities, moments, electrostatic potentials and the
// attraction integrals of two shells with them, all exact.
//
// A spherical density changes the point-charge integral by
//   4 pi Z sum_k f_2k <r^(2k+2)> / ((2k+2)(2k+3)),
// f_2k the Taylor coefficients of the spherical average (about the nucleus) of the product
// of the two functions.  Moments of the Fermi densities are complete Fermi-Dirac integrals,
// their potentials are the same integrals at eta = (c-r)/a.
module nuclear {
  import fixed.* from "./fixed"
  import ops.* from "./ops"

  // sum_{k>=0} (-1)^k a_k for a totally monotone sequence given as a list of n values
  // (Cohen, Rodriguez Villegas, Zagier)
  pure def altsum(a: List[int]): int = {
    val n = a.length()
    // d = T_n(3)
    val d = upto(n).foldl((1, 3), (st, i) => (st._2, 6 * st._2 - st._1))._1
    upto(n).foldl({ b: -1, c: -d, s: 0 }, (st, k) => {
      val cc = st.b - st.c
      { b: st.b * 2 * (k + n) * (k - n) / ((2 * k + 1) * (k + 1)), c: cc, s: st.s + cc * a[k] }
    }).s / d
  }
  pure val NALT: int = 60
  // sum_{n>=1} (-1)^(n+1) exp(-n x)/n^s, x >= 0
  pure def polyAlt(s: int, x: int): int = {
    val e = exp(-x)
    altsum(upto(NALT).foldl((List(), e), (st, i) => (st._1.append(st._2 / (i + 1)^s), mul(st._2, e)))._1)
  }
  pure val NETA: int = 64
  // Dirichlet eta(2j), j = 0..NETA
  pure val ETA: List[int] = upto(NETA + 1).foldl(List(), (l, j) =>
    l.append(if (j == 0) S / 2 else altsum(upto(NALT).foldl(List(), (t, i) => t.append(S / (i + 1)^(2 * j))))))
  // Fermi-Dirac integral int_0^inf x^k/(1+exp(x-eta)) dx
  pure def fd(k: int, eta: int): int =
    if (eta <= 0) fact(k) * polyAlt(k + 1, -eta)
    else {
      val pw = powers(eta, k + 1)
      val poly = upto((k + 1) / 2 + 1).foldl(0, (s, j) =>
        s + 2 * mul(ETA[j], pw[k + 1 - 2 * j]) * fact(k) / fact(k + 1 - 2 * j))
      poly + (if (k % 2 == 0) 1 else -1) * fact(k) * polyAlt(k + 1, eta)
    }
  // int_0^inf r^k / (1+exp((r-c)/a)) dr
  pure def fermiMoment(k: int, c: int, a: int): int = mul(powi(a, k + 1), fd(k, div(c, a)))

  // <r^m>, m even, of a unit charge
  pure def ballMoment(m: int, R: int): int = 3 * powi(5 * sq(R) / 3, m / 2) / (m + 3)
  pure def fermiR(m: int, c: int, a: int): int = div(fermiMoment(m + 2, c, a), fermiMoment(2, c, a))
  pure def bubbleR(m: int, c: int, a: int, k: int): int = {
    val kc = div(k, sq(c))
    div(fermiMoment(m + 2, c, a) + mul(kc, fermiMoment(m + 4, c, a)),
        fermiMoment(2, c, a) + mul(kc, fermiMoment(4, c, a)))
  }

  // ---- densities and potentials -------------------------------------------------
  pure def rhoBall(r: int, Z: int, R: int): int =
    if (3 * sq(r) > 5 * sq(R)) 0 else {
      val R0 = sqrt(5 * sq(R) / 3)
      div(3 * mul(Z, S), mul(4 * PI, powi(R0, 3)))
    }
  pure def xiOf(R: int): int = div(3 * S, 2 * sq(R))
  pure def rhoGauss(r: int, Z: int, R: int): int = {
    val q = div(xiOf(R), PI)
    mul(mul(Z, mul(q, sqrt(q))), exp(-mul(xiOf(R), sq(r))))
  }
  pure def fermiShape(r: int, c: int, a: int): int =
    if (r > c) { val e = exp(-div(r - c, a)) div(e, S + e) }
    else div(S, S + exp(-div(c - r, a)))
  pure def rhoFermi(r: int, Z: int, c: int, a: int): int =
    mul(div(Z, mul(4 * PI, fermiMoment(2, c, a))), fermiShape(r, c, a))
  pure def rhoBubble(r: int, Z: int, c: int, a: int, k: int): int = {
    val n = fermiMoment(2, c, a) + mul(div(k, sq(c)), fermiMoment(4, c, a))
    mul(mul(div(Z, mul(4 * PI, n)), fermiShape(r, c, a)), S + mul(k, sq(div(r, c))))
  }
  pure def vPoint(r: int, Z: int): int = -div(Z, r)
  pure def vBall(r: int, Z: int, R: int): int =
    if (3 * sq(r) > 5 * sq(R)) -div(Z, r) else {
      val R02 = 5 * sq(R) / 3
      mul(div(-Z, 2 * sqrt(R02)), 3 * S - div(sq(r), R02))
    }
  pure def erfOf(x: int): int = {     // erf(x), x >= 0
    if (x > 13 * S) S else 2 * mul(div(x, SQRTPI), boysU(0, sq(x), S)[0])
  }
  pure def vGauss(r: int, Z: int, R: int): int = -mul(div(Z, r), erfOf(mul(sqrt(xiOf(R)), r)))
  // charge outside: V = -Z/r + (4 pi/r) int_r^inf r'(r'-r) rho(r') dr'
  pure def tail2(r: int, c: int, a: int): int = {
    val eta = div(c - r, a)
    mul(mul(sq(a), r), fd(1, eta)) + mul(powi(a, 3), fd(2, eta))
  }
  pure def tail4(r: int, c: int, a: int): int = {
    val eta = div(c - r, a)
    mul(mul(powi(r, 3), sq(a)), fd(1, eta)) + 3 * mul(mul(sq(r), powi(a, 3)), fd(2, eta))
      + 3 * mul(mul(r, powi(a, 4)), fd(3, eta)) + mul(powi(a, 5), fd(4, eta))
  }
  pure def vFermi(r: int, Z: int, c: int, a: int): int =
    mul(div(-Z, r), S - div(tail2(r, c, a), fermiMoment(2, c, a)))
  pure def vBubble(r: int, Z: int, c: int, a: int, k: int): int = {
    val kc = div(k, sq(c))
    mul(div(-Z, r), S - div(tail2(r, c, a) + mul(kc, tail4(r, c, a)),
                            fermiMoment(2, c, a) + mul(kc, fermiMoment(4, c, a))))
  }
  pure def cbrt(a: int): int =        // real cube root of a >= 1, fixed point
    upto(400).foldl((a + S, false), (st, i) =>
      if (st._2) st else {
        val y = (2 * st._1 + div(a, sq(st._1))) / 3
        if (y >= st._1) (st._1, true) else (y, false)
      })._1
  pure def rmsJohnson(A: int): int = 836 * cbrt(A * S) / 1000 + 570 * S / 1000
  pure def rmsGolovko(A: int): int = 77 * cbrt(A * S) / 100 + 98 * S / 100
  pure val LN3: int = upto(140).foldl(0, (s, i) => s + 2 * S / ((2 * i + 1) * 2^(2 * i + 1)))
  // (found, c, a) for the radius R
  pure def fermiParams(R: int): { ok: bool, c: int, a: int } = {
    val a = 23 * div(S, 40 * LN3)
    val c2 = 5 * sq(R) / 3 - 7 * mul(sq(PI), sq(a)) / 3
    { ok: c2 >= 0, c: if (c2 >= 0) sqrt(c2) else 0, a: a }
  }

  // ---- attraction integrals --------------------------------------------------------
  // Taylor coefficients (degree 0..n) of (x-A)^i (x-B)^j exp(-p x^2 + 2 X x), table [i][j]
  pure def taylor1(A: int, B: int, p: int, X: int, la: int, lb: int, n: int): List[List[List[int]]] = {
    val e = upto(n).foldl(List(S), (l, k) =>
      l.append((2 * mul(X, l[k]) - (if (k > 0) 2 * mul(p, l[k - 1]) else 0)) / (k + 1)))
    val row0 = upto(lb).foldl(List(e), (r, j) => r.append(shiftMul(r[j], B, n)))
    upto(la).foldl(List(row0), (t, i) =>
      t.append(t[i].foldl(List(), (r, f) => r.append(shiftMul(f, A, n)))))
  }
  pure def shiftMul(f: List[int], A: int, n: int): List[int] =
    upto(n + 1).foldl(List(), (l, k) => l.append((if (k > 0) f[k - 1] else 0) - mul(A, f[k])))
  // coefficients of x^(2k), times (2k-1)!!
  pure def evens(f: List[int], kmax: int): List[int] =
    upto(kmax + 1).foldl(List(), (l, k) => l.append(f[2 * k] * oddfact(k)))

  pure def sphericalCorrection(al: int, A: Vec, x: List[Comb], be: int, B: Vec, y: List[Comb],
                               w: List[int], elems: List[(int, int)]): List[int] = {
    val kmax = w.length() - 1
    val n = 2 * kmax
    val p = al + be
    val X = vadd(vscale(A, al), vscale(B, be))
    val pre = exp(-mul(al, norm2(A)) - mul(be, norm2(B)))
    val tx = taylor1(A._1, B._1, p, X._1, maxDeg(x, 0), maxDeg(y, 0), n)
    val ty = taylor1(A._2, B._2, p, X._2, maxDeg(x, 1), maxDeg(y, 1), n)
    val tz = taylor1(A._3, B._3, p, X._3, maxDeg(x, 2), maxDeg(y, 2), n)
    elems.foldl(List(), (l, ij) => l.append(mul(pre, {
      x[ij._1].foldl(0, (s, t) => y[ij._2].foldl(s, (s2, u) => {
        val f = pmul(pmul(evens(tx[t.e._1][u.e._1], kmax), evens(ty[t.e._2][u.e._2], kmax)), evens(tz[t.e._3][u.e._3], kmax))
        s2 + mul(mul(t.c, u.c), upto(kmax + 1).foldl(0, (s3, k) => s3 + mul(f[k], w[k]) / oddfact(k + 1)))
      }))
    })))
  }
  // par = (charge, model, p0, p1, p2); models 0 point, 1 ball, 2 Gaussian, 3 Fermi, 4 bubble, 5 point (numerical)
  pure def nuclearF(a: Shell, b: Shell, C: Vec, par: List[int], elems: List[(int, int)]): List[int] = {
    val Z = par[0] * S
    val model = par[1]
    val kmax = if (par[2] < S / 2000) 10 else 50
    if (model == 0 or model == 5) localF(a, 0, b, 0, C, List({ n: 1, c: -Z, z: 0 }), elems)
    else if (model == 2) localF(a, 0, b, 0, C, List({ n: 11, c: -Z, z: xiOf(par[2]) }), elems)
    else {
      val pt = localF(a, 0, b, 0, C, List({ n: 1, c: -Z, z: 0 }), elems)
      val w = upto(kmax + 1).foldl(List(), (l, k) => l.append({
        val m = if (model == 1) ballMoment(2 * k + 2, par[2])
                else if (model == 3) fermiR(2 * k + 2, par[2], par[3])
                else bubbleR(2 * k + 2, par[2], par[3], par[4])
        mul(4 * mul(PI, Z), m) / ((2 * k + 2) * (2 * k + 3))
      }))
      val A = vsub(a.o, C)
      val B = vsub(b.o, C)
      padd(pt, contract(a, b, elems.length(), (al, be) =>
        sphericalCorrection(al, A, idents(a.L), be, B, idents(b.L), w, elems)))
    }
  }
}
