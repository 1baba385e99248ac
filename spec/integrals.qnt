// Exact values of the one-electron integrals of libgrpp, from their definitions.
//
// A primitive is (x-Ax)^i (y-Ay)^j (z-Az)^k exp(-alpha |r-A|^2).  All operators are
// centred at the origin of the coordinate system used below (the caller subtracts
// the operator's centre).  None of the formulae is the one the library uses:
//  * local operators: the operator is a superposition of Gaussians exp(-s r^2)
//    (r^-1, r^-2: integral over s), hence a matrix element is an integral over
//    v = 1/(total exponent) of a polynomial in v;
//  * projector operators: the kernel of P_L is a polynomial in Omega.Omega',
//    expanded in monomials; no spherical harmonics, no partial waves of the basis
//    functions; the radial integral is a trapezoidal (double-exponential for odd
//    powers) sum, exponentially convergent;
//  * angular momentum, derivatives: act on the primitives analytically.
module integrals {
  import fixed.* from "./fixed"

  type Cart = (int, int, int)
  type Vec = (int, int, int)                  // fixed-point coordinates
  // linear combination of Cartesian powers with a common exponent and centre
  type Term = { c: int, e: Cart }
  type Comb = List[Term]
  type Shell = { L: int, c: List[int], al: List[int], o: Vec }
  // potential term c r^(n-2) exp(-z r^2)
  type PotTerm = { n: int, c: int, z: int }
  type Pot = { L: int, J: int, t: List[PotTerm] }

  pure def vsub(a: Vec, b: Vec): Vec = (a._1 - b._1, a._2 - b._2, a._3 - b._3)
  pure def vadd(a: Vec, b: Vec): Vec = (a._1 + b._1, a._2 + b._2, a._3 + b._3)
  pure def vscale(a: Vec, c: int): Vec = (mul(a._1, c), mul(a._2, c), mul(a._3, c))
  pure def norm2(a: Vec): int = sq(a._1) + sq(a._2) + sq(a._3)
  pure def vget(a: Vec, d: int): int = if (d == 0) a._1 else if (d == 1) a._2 else a._3
  pure def cget(a: Cart, d: int): int = if (d == 0) a._1 else if (d == 1) a._2 else a._3
  pure def deg(e: Cart): int = e._1 + e._2 + e._3
  pure def inc(e: Cart, d: int, k: int): Cart =
    (if (d == 0) e._1 + k else e._1, if (d == 1) e._2 + k else e._2, if (d == 2) e._3 + k else e._3)

  // documented default order: x power descending, then y power descending
  pure def carts(L: int): List[Cart] =
    upto(L + 1).foldl(List(), (l, i) =>
      upto(i + 1).foldl(l, (l2, j) => l2.append((L - i, i - j, j))))

  // normalization of the primitives: (2 a/pi)^(3/4) (4 a)^(L/2)
  pure def normFactor(a: int, L: int): int = {
    val b = div(2 * a, PI)
    val b34 = sqrt(sqrt(mul(sq(b), b)))
    val f = powi(4 * a, L / 2)
    if (L % 2 == 0) mul(b34, f) else mul(mul(b34, f), sqrt(4 * a))
  }
  // normalization of the radial part N r^L exp(-a r^2):
  // N^2 = 2 (2a)^(L+3/2) / Gamma(L+3/2)
  pure def radialNorm(a: int, L: int): int =
    sqrt(div(mul(2 * powi(2 * a, L + 1), sqrt(2 * a)), gammaHalf(2 * L + 3)))
  // Gamma(k/2), k >= 1
  pure def gammaHalf(k: int): int =
    if (k % 2 == 0) fact(k / 2 - 1) * S
    else SQRTPI * oddfact((k - 1) / 2) / 2^((k - 1) / 2)
  // int_0^inf r^k exp(-p r^2) dr
  pure def radialMoment(k: int, p: int): int = {
    val h = k + 1
    val pw = if (h % 2 == 0) powi(p, h / 2) else mul(powi(p, h / 2), sqrt(p))
    div(gammaHalf(h), pw) / 2
  }

  // ======================= action of operators on primitives ==================
  pure def term(c: int, e: Cart): Comb =
    if (c == 0 or e._1 < 0 or e._2 < 0 or e._3 < 0) List() else List({ c: c, e: e })
  pure def ident(e: Cart): Comb = List({ c: S, e: e })
  // d/dx_d of the primitive
  pure def ddx(a: int, e: Cart, d: int): Comb =
    term(cget(e, d) * S, inc(e, d, -1)).concat(term(-2 * a, inc(e, d, 1)))
  // derivative with respect to the centre of the primitive
  pure def ddA(a: int, e: Cart, d: int): Comb =
    term(-cget(e, d) * S, inc(e, d, -1)).concat(term(2 * a, inc(e, d, 1)))
  // -1/2 Laplacian
  pure def kin(a: int, e: Cart): Comb =
    upto(3).foldl(List(), (l, d) => {
      val n = cget(e, d)
      l.concat(term(-2 * sq(a), inc(e, d, 2)))
       .concat(term(a * (2 * n + 1), e))
       .concat(term(-(n * (n - 1)) * S / 2, inc(e, d, -2)))
    })
  // (r x nabla)_d, r measured from the origin of the operator; A = centre of the primitive
  pure def lang(a: int, A: Vec, e: Cart, d: int): Comb = {
    val d1 = (d + 1) % 3
    val d2 = (d + 2) % 3
    // x_{d1} d_{d2} - x_{d2} d_{d1}; the quadratic +1+1 terms cancel
    term(cget(e, d2) * S, inc(inc(e, d1, 1), d2, -1))
      .concat(term(cget(e, d2) * vget(A, d1), inc(e, d2, -1)))
      .concat(term(-2 * mul(a, vget(A, d1)), inc(e, d2, 1)))
      .concat(term(-cget(e, d1) * S, inc(inc(e, d2, 1), d1, -1)))
      .concat(term(-cget(e, d1) * vget(A, d2), inc(e, d1, -1)))
      .concat(term(2 * mul(a, vget(A, d2)), inc(e, d1, 1)))
  }
  // apply an operator (Cart => Comb) to a combination
  pure def onComb(f: Cart => Comb, x: Comb): Comb =
    x.foldl(List(), (l, t) => l.concat(f(t.e).foldl(List(), (m, s) => m.append({ c: mul(s.c, t.c), e: s.e }))))
  pure def maxDeg(x: List[Comb], d: int): int =
    x.foldl(0, (m, cb) => cb.foldl(m, (m2, t) => max2(m2, cget(t.e, d))))

  // ======================= overlap (no operator) ===============================
  // one-dimensional moments E[(X-A)^i (X-B)^j], X ~ N(P, 1/(2p)), table [i][j]
  pure def moments1(A: int, B: int, P: int, v: int, la: int, lb: int): List[List[int]] = {
    // row i = 0
    val row0 = upto(lb).foldl(List(S), (r, j) =>
      r.append(mul(P - B, r[j]) + (if (j > 0) mul(v, j * r[j - 1]) / 2 else 0)))
    upto(la).foldl(List(row0), (t, i) =>
      t.append(upto(lb + 1).foldl(List(), (t1, j) => t1.append(mul(P - A, t[i][j]) + mul(v, (if (i > 0) i * t[i - 1][j] else 0)
                                      + (if (j > 0) j * t[i][j - 1] else 0)) / 2))))
  }
  pure def overlapPrim(al: int, A: Vec, x: List[Comb], be: int, B: Vec, y: List[Comb], elems: List[(int, int)]): List[int] = {
    val p = al + be
    val v = div(S, p)
    val P = vscale(vadd(vscale(A, al), vscale(B, be)), v)
    val pre = mul(mul(mul(PI, v), sqrt(mul(PI, v))),
                  exp(-mul(mul(mul(al, be), v), norm2(vsub(A, B)))))
    val tx = moments1(A._1, B._1, P._1, v, maxDeg(x, 0), maxDeg(y, 0))
    val ty = moments1(A._2, B._2, P._2, v, maxDeg(x, 1), maxDeg(y, 1))
    val tz = moments1(A._3, B._3, P._3, v, maxDeg(x, 2), maxDeg(y, 2))
    elems.foldl(List(), (l, ij) => l.append(mul(pre,
      x[ij._1].foldl(0, (s, t) => y[ij._2].foldl(s, (s2, u) =>
        s2 + mul(mul(t.c, u.c), mul(mul(tx[t.e._1][u.e._1], ty[t.e._2][u.e._2]), tz[t.e._3][u.e._3])))))))
  }

  // ======================= local operators ====================================
  // The same moments as polynomials in v = 1/q; P = k v.
  pure def momentsV(A: int, B: int, k: int, la: int, lb: int): List[List[List[int]]] = {
    // (k v - A) f
    val lin = List(List(-A, k), List(-B, k))
    val row0 = upto(lb).foldl(List(List(S)), (r, j) =>
      r.append(padd(pmul(lin[1], r[j]), if (j > 0) pshift(phalf(r[j - 1], j)) else List())))
    upto(la).foldl(List(row0), (t, i) =>
      t.append(upto(lb + 1).foldl(List(), (t2, j) => t2.append(padd(pmul(lin[0], t[i][j]),
          pshift(padd(if (i > 0) phalf(t[i - 1][j], i) else List(),
                      if (j > 0) phalf(t[i][j - 1], j) else List())))))))
  }
  pure def phalf(a: List[int], k: int): List[int] = a.foldl(List(), (l, x) => l.append(x * k / 2))

  // int_0^U u^(2j) exp(-T u^2) du for j = 0..m   (U <= 1)
  pure def boysU(m: int, T: int, U: int): List[int] = {
    val U2 = sq(U)
    val e = exp(-mul(T, U2))
    val up = powers(U2, m)          // U^(2j)
    if (mul(T, U2) > 190 * S) {
      // upward from the complete integral; exp(-T U^2) = 0 at this precision
      val f0 = sqrt(div(PI, T)) / 2
      upto(m).foldl(List(f0), (l, j) => l.append(div((2 * j + 1) * l[j], 2 * T)))
    } else {
      val x = mul(2 * T, U2)
      val n = 60 + 4 * (mul(T, U2) / S) + m
      val series = upto(n).foldl((0, mul(up[m], U) / (2 * m + 1)), (st, i) =>
        if (st._2 == 0) st else (st._1 + st._2, mul(st._2, x) / (2 * m + 2 * i + 3)))._1
      // dividing keeps the relative precision where exp(-T U^2) is tiny
      val top = div(series, exp(mul(T, U2)))
      // downward recursion
      val rev = upto(m).foldl(List(top), (l, i) => {
        val j = m - 1 - i
        l.append((mul(2 * T, l[i]) + mul(mul(up[j], U), e)) / (2 * j + 1))
      })
      upto(m + 1).foldl(List(), (t3, j) => t3.append(rev[m - j]))
    }
  }
  // int_0^1 w^(2m) exp(T (w^2-1)) dw, m = 0..mm
  pure def gfun(mm: int, T: int): List[int] =
    if (T > 64 * S) {
      val g0 = upto(60).foldl((0, div(S, 2 * T)), (st, i) => {
        val nx = div((2 * i + 1) * st._2, 2 * T)
        if (nx > st._2 or st._2 == 0) (st._1, 0) else (st._1 + st._2, nx)
      })._1
      val i2T = div(S, 2 * T)
      upto(mm).foldl(List(g0), (l, j) => l.append(i2T - mul((2 * j + 1) * i2T, l[j])))
    } else {
      val e = exp(-T)
      val n = 60 + 4 * (T / S)
      val w = upto(n).foldl(List(e), (l, i) => l.append(mul(l[i], T) / (i + 1)))
      upto(mm + 1).foldl(List(), (t4, m) => t4.append(upto(w.length()).foldl(0, (s, i) => s + w[i] / (2 * m + 2 * i + 1))))
    }

  // kinds of local operator on top of exp(-z r^2)
  //   n = 2: 1,  n = 1: 1/r,  n = 0: 1/r^2,  n = 11: erf(sqrt(mu) r)/r with z = mu
  pure def localBasis(n: int, p: int, U: int, T: int, X: int, m: int): List[int] = {
    val ip = div(S, p)
    val ipm = powers(ip, m)
    if (n == 2) {
      val c = mul(X, mul(PI32, mul(ip, sqrt(ip))))
      upto(m + 1).foldl(List(), (t5, i) => t5.append(mul(c, ipm[i])))
    } else if (n == 0) {
      val g = gfun(m, T)
      val c = mul(X, mul(2 * PI32, sqrt(ip)))
      upto(m + 1).foldl(List(), (t6, i) => t6.append(mul(c, mul(ipm[i], g[i]))))
    } else {
      val f = boysU(m, T, U)
      val c = mul(X, 2 * mul(PI, ip))
      // int_0^U (1-u^2)^i exp(T(1-u^2)) du, exp(T) is in X
      upto(m + 1).foldl(List(), (t7, i) => t7.append(mul(mul(c, ipm[i]),
        upto(i + 1).foldl(0, (s, j) => s + (if (j % 2 == 0) 1 else -1) * binom(i, j) * f[j]))))
    }
  }

  // matrix elements <x_i| sum_k c_k r^(n_k-2) exp(-z_k r^2) |y_j> of one primitive pair
  // (n = 11: c erf(sqrt(z) r)/r)
  pure def localPrim(al: int, A: Vec, x: List[Comb], be: int, B: Vec, y: List[Comb],
                     pot: List[PotTerm], elems: List[(int, int)]): List[int] = {
    val k = vadd(vscale(A, al), vscale(B, be))
    val k2 = norm2(k)
    val a0 = mul(al, norm2(A)) + mul(be, norm2(B))
    val la = List(maxDeg(x, 0), maxDeg(x, 1), maxDeg(x, 2))
    val lb = List(maxDeg(y, 0), maxDeg(y, 1), maxDeg(y, 2))
    val tx = momentsV(A._1, B._1, k._1, la[0], lb[0])
    val ty = momentsV(A._2, B._2, k._2, la[1], lb[1])
    val tz = momentsV(A._3, B._3, k._3, la[2], lb[2])
    // highest power of v
    val m = elems.foldl(0, (m0, ij) => x[ij._1].foldl(m0, (m1, t) => y[ij._2].foldl(m1, (m2, u) =>
              max2(m2, deg(t.e) + deg(u.e)))))
    val I = pot.foldl(upto(m + 1).foldl(List(), (t8, i) => t8.append(0)), (acc, t) => {
      val p = if (t.n == 11) al + be else al + be + t.z
      val T = div(k2, p)
      val U = if (t.n == 11) sqrt(div(t.z, p + t.z)) else S
      padd(acc, pscale(localBasis(if (t.n == 11) 1 else t.n, p, U, T, exp(T - a0), m), t.c))
    })
    elems.foldl(List(), (l, ij) => l.append(
      x[ij._1].foldl(0, (s, t) => y[ij._2].foldl(s, (s2, u) =>
        s2 + mul(mul(t.c, u.c), dot(pmul(pmul(tx[t.e._1][u.e._1], ty[t.e._2][u.e._2]), tz[t.e._3][u.e._3]), I))))))
  }

  // ======================= projector operators =================================
  // exp(-x) i_l(x) / x^l for l = 0..m
  pure def besselScaled(m: int, x: int): List[int] =
    if (x < 3 * S) {
      val e = exp(-x)
      val h = sq(x) / 2
      upto(m + 1).foldl(List(), (t9, l) => t9.append(mul(e, upto(60).foldl((0, S / oddfact(l + 1)), (st, s) =>
        if (st._2 == 0) st else (st._1 + st._2, mul(st._2, h) / ((s + 1) * (2 * l + 2 * s + 3))))._1)))
    } else {
      val x2 = sq(x)
      val e2 = exp(-2 * x)
      val g0 = div(S - e2, 2 * x)
      val g1 = div((S + e2) / 2 - g0, x2)
      upto(max2(0, m - 1)).foldl(List(g0, g1), (l, i) =>
        l.append(div(l[i] - (2 * i + 3) * l[i + 1], x2)))
    }

  // 1-D factor: sum over s,j of binom(e,s) (-A)^(e-s) * u+s! /(j! (u+s-2j)! 2^j) (2 al A)^(u+s-2j),
  // collected by x = s - j + floor(u/2)
  pure def angTable(al: int, A: int, emax: int, umax: int): List[List[List[int]]] = {
    val mA = powers(-A, emax)
    val k = powers(2 * mul(al, A), umax + emax)
    upto(emax + 1).foldl(List(), (t, e) => t.append(
      upto(umax + 1).foldl(List(), (t2, u) => t2.append(
        upto(e + u / 2 + 1).foldl(List(), (t10, xi) => t10.append({
          val xx = xi - u / 2
          upto(e + 1).foldl(0, (sum, s) => {
            val j = s - xx
            val w = u + s
            if (j < 0 or 2 * j > w) sum
            else sum + mul(binom(e, s) * mA[e - s], fact(w) * k[w - 2 * j] / (fact(j) * fact(w - 2 * j) * 2^j))
          })
        }))))))
  }

  // monomials u of degree L, L-2, ... with weight (2L+1)/(4 pi) (4 pi)^2 p_|u| multinomial(u),
  // i.e. the kernel of P_L times the two factors 4 pi
  pure def legendre(L: int, j: int): int =     // coefficient of t^j in P_L, fixed point
    if ((L - j) % 2 != 0 or j > L or j < 0) 0 else {
      val k = (L - j) / 2
      (if (k % 2 == 0) 1 else -1) * binom(L, k) * binom(2 * L - 2 * k, L) * S / 2^L
    }
  pure def multinom(u: Cart): int = fact(deg(u)) / (fact(u._1) * fact(u._2) * fact(u._3))
  pure def kernel(L: int): List[Term] =
    upto(L / 2 + 1).foldl(List(), (l, k) =>
      carts(L - 2 * k).foldl(l, (l2, u) => l2.append({ c: mul((2 * L + 1) * 4 * PI, legendre(L, L - 2 * k) * multinom(u)), e: u })))

  pure def odds(u: Cart): int = u._1 % 2 + u._2 % 2 + u._3 % 2
  pure def ceils(u: Cart): int = (u._1 + 1) / 2 + (u._2 + 1) / 2 + (u._3 + 1) / 2

  // for each function of x, for each monomial u of the kernel: polynomial in x
  pure def angCoefs(al: int, A: Vec, x: List[Comb], L: int, ker: List[Term]): List[List[List[int]]] = {
    val tx = angTable(al, A._1, maxDeg(x, 0), L)
    val ty = angTable(al, A._2, maxDeg(x, 1), L)
    val tz = angTable(al, A._3, maxDeg(x, 2), L)
    x.foldl(List(), (l, cb) => l.append(
      ker.foldl(List(), (l2, k) => l2.append(
        cb.foldl(List(), (pp, t) =>
          padd(pp, pscale(pmul(pmul(tx[t.e._1][k.e._1], ty[t.e._2][k.e._2]), tz[t.e._3][k.e._3]), t.c)))))))
  }

  // quadrature nodes: list of (r, weight)
  pure def nodesEven(p: int, r0: int, half: bool): List[(int, int)] = {
    val h = div(PI, sqrt(90 * p))
    val rad = sqrt(div(110 * S, p))
    val k0 = max2(0, (r0 - rad) / h)
    val k1 = (r0 + rad) / h + 1
    range(k0, k1 + 1).foldl(List(), (l, k) => l.append((k * h, if (k == 0 and half) h / 2 else h)))
  }
  pure val DEH: int = 36              // nodes per unit of t
  pure val deNodes: List[(int, int)] = // (r, weight/h) for scale 1, t in [-3.7, 3.6]
    range(-DEH * 37 / 10, DEH * 36 / 10).foldl(List(), (l, k) => {
      val t = k * S / DEH
      val em = exp(-t)
      val r = mul(exp(max2(t, 0)), exp(min2(t, 0) - em))
      l.append((r, mul(r, S + em)))
    })
  pure def nodesOdd(p: int, r0: int): List[(int, int)] = {
    val s = div(S, sqrt(p))
    val rmax = r0 + sqrt(div(110 * S, p))
    deNodes.foldl(List(), (l, w) => {
      val r = mul(w._1, s)
      if (r > rmax) l else l.append((r, mul(w._2, s) / DEH))
    })
  }

  // <x_i| c r^(n-2) exp(-z r^2) P_L |y_j>, one potential term
  pure def semiTerm(al: int, A: Vec, x: List[Comb], be: int, B: Vec, y: List[Comb],
                    L: int, ker: List[Term], ca: List[List[List[int]]], cb: List[List[List[int]]],
                    t: PotTerm, elems: List[(int, int)]): List[int] = {
    val lenA = sqrt(norm2(A))
    val lenB = sqrt(norm2(B))
    val p = al + be + t.z
    val r0 = div(mul(al, lenA) + mul(be, lenB), p)
    val nodes = if (t.n % 2 == 0) nodesEven(p, r0, true)
                else if (mul(p, sq(r0)) > 70 * S) nodesEven(p, r0, false)
                else nodesOdd(p, r0)
    val da = maxDeg(x, 0) + maxDeg(x, 1) + maxDeg(x, 2)
    val db = maxDeg(y, 0) + maxDeg(y, 1) + maxDeg(y, 2)
    val ma = L + da
    val mb = L + db
    val nu = ker.length()
    val zero = upto(elems.length()).foldl(List(), (t11, i) => t11.append(0))
    nodes.foldl(zero, (acc, nd) => {
      val r = nd._1
      val f = mul(mul(nd._2, powi(r, t.n)),
                  exp(-mul(al, sq(r - lenA)) - mul(be, sq(r - lenB)) - mul(t.z, sq(r))))
      if (f == 0) acc else {
        val ga = besselScaled(ma, 2 * mul(mul(al, lenA), r))
        val gb = besselScaled(mb, 2 * mul(mul(be, lenB), r))
        val r2 = powers(sq(r), max2(ma, mb))
        val ua = ca.foldl(List(), (l, fu) => l.append(radialVals(r, r2, ga, fu, ker)))
        val ub = cb.foldl(List(), (l, fu) => l.append(radialVals(r, r2, gb, fu, ker)))
        upto(elems.length()).foldl(List(), (t12, q) => t12.append({
          val va = ua[elems[q]._1]
          val vb = ub[elems[q]._2]
          acc[q] + mul(f, upto(nu).foldl(0, (s, i) => s + mul(mul(va[i], vb[i]), ker[i].c)))
        }))
      }
    })
  }
  // values at r of the angular projections onto the kernel monomials
  pure def radialVals(r: int, r2: List[int], g: List[int], fu: List[List[int]], ker: List[Term]): List[int] =
    upto(ker.length()).foldl(List(), (t13, i) => t13.append({
      val u = ker[i].e
      val l0 = ceils(u)
      val s = upto(fu[i].length()).foldl(0, (s0, q) =>
        if (fu[i][q] == 0) s0 else s0 + mul(mul(fu[i][q], r2[q]), g[l0 + q]))
      mul(s, powi(r, odds(u)))
    }))
  pure def semiPrim(al: int, A: Vec, x: List[Comb], be: int, B: Vec, y: List[Comb],
                    L: int, pot: List[PotTerm], elems: List[(int, int)]): List[int] = {
    val ker = kernel(L)
    val ca = angCoefs(al, A, x, L, ker)
    val cb = angCoefs(be, B, y, L, ker)
    pot.foldl(upto(elems.length()).foldl(List(), (t14, i) => t14.append(0)), (acc, t) =>
      padd(acc, pscale(semiTerm(al, A, x, be, B, y, L, ker, ca, cb, t, elems), t.c)))
  }

  // ======================= contraction =========================================
  // sum over primitive pairs of c_i N_i c_j N_j * prim(al_i, be_j)
  pure def contract(a: Shell, b: Shell, n: int, prim: (int, int) => List[int]): List[int] =
    upto(a.c.length()).foldl(upto(n).foldl(List(), (t15, q) => t15.append(0)), (acc, i) => {
      val ci = if (a.c[i] == 0) 0 else mul(a.c[i], normFactor(a.al[i], a.L))
      if (ci == 0) acc else
      upto(b.c.length()).foldl(acc, (acc2, j) => {
        val cj = if (b.c[j] == 0) 0 else mul(b.c[j], normFactor(b.al[j], b.L))
        if (cj == 0) acc2 else padd(acc2, pscale(prim(a.al[i], b.al[j]), mul(ci, cj)))
      })
    })
}
