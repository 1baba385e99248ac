// Nuclear charge models as functions of their arguments: densities, electrostatic potentials,
// root-mean-square radii and the estimators.  A transition chooses one function of the public
// interface and arguments in its domain; `m` holds them with the exact value.
module models {
  import fixed.* from "./fixed"
  import ops.* from "./ops"
  import nuclear.* from "./nuclear"
  import gen.* from "./gen"

  // f: function; n: integer argument (charge or mass number); x: real arguments (r first if any), fixed point
  type Fun = { f: str, n: int, x: List[int], v: List[int], ok: bool }
  var m: Fun
  action init = m' = { f: "none", n: 0, x: List(), v: List(), ok: true }

  pure val Q40: int = 2^40
  // a/b rounded to the grid of 2^-40
  pure def onGrid(v: int): int = v * Q40 / S * (S / Q40)
  // sizes: in fm and in atomic units (1e-4 .. 1e-3)
  pure val SIZE: List[int] = List(3, 5, 7, 9)
  pure def sizeOf(seed: int): int = {
    val base = pick(SIZE, seed, 1) * S + (rnd(seed, 2) % 1048576) * QS
    if (rnd(seed, 3) % 2 == 0) onGrid(base) else onGrid(base * 189 / 10000000)
  }
  // c/a times 1000: all regimes of the series in exp(-c/a)
  pure val RATIO: List[int] = List(2500, 4003, 6500, 9990, 10000, 10010, 13999, 14001, 20500, 29950, 30050, 41000)
  pure def ratio(seed: int): int = pick(RATIO, seed, 4) + rnd(seed, 5) % 200
  // r/c times 10^6
  pure val REL: List[int] = List(1000, 20000, 100000, 333333, 500000, 750000, 900000, 990000, 999000, 999999, 1000000, 1000001, 1001000,
                                 1010000, 1100000, 1500000, 1999999, 2000001, 3000000, 10000000, 100000000)
  pure def radius(c: int, seed: int): int = {
    val t = pick(REL, seed, 6)
    if (rnd(seed, 7) % 3 == 0) onGrid(c * t / 1000000 * (900 + rnd(seed, 8) % 200) / 1000) else onGrid(c * t / 1000000)
  }
  pure val BUBBLE: List[int] = List(-300, 0, 1, 250, 500, 1000, 2500)
  pure def bub(seed: int): int = fromQ(pick(BUBBLE, seed, 9) * 1048)
  pure def charge(seed: int): int = 1 + rnd(seed, 10) % 120

  pure def funOf(f: str, seed: int): Fun = {
    val c = sizeOf(seed)
    val a = onGrid(c * 1000 / ratio(seed))
    // with k < 0 the density is negative in the tail: no rms radius exists for thick surfaces
    val k = if (ratio(seed) < 6500) abs(bub(seed)) else bub(seed)
    val Z = charge(seed)
    val r = radius(c, seed)
    // densities are defined at the origin too
    val r0 = if (rnd(seed, 14) % 20 == 0) 0 else r
    val rb = radius(onGrid(sqrt(5 * sq(c) / 3)), seed)
    if (f == "rho_ball") { f: f, n: Z, x: List(rb, c), v: List(rhoBall(rb, Z * S, c)), ok: true }
    else if (f == "rho_gauss") { f: f, n: Z, x: List(r0, c), v: List(rhoGauss(r0, Z * S, c)), ok: true }
    else if (f == "rho_fermi") { f: f, n: Z, x: List(r0, c, a), v: List(rhoFermi(r0, Z * S, c, a)), ok: true }
    else if (f == "rho_bubble") { f: f, n: Z, x: List(r0, c, a, k), v: List(rhoBubble(r0, Z * S, c, a, k)), ok: true }
    else if (f == "v_point") { f: f, n: Z, x: List(r), v: List(vPoint(r, Z * S)), ok: true }
    else if (f == "v_ball") { f: f, n: Z, x: List(rb, c), v: List(vBall(rb, Z * S, c)), ok: true }
    else if (f == "v_gauss") { f: f, n: Z, x: List(r, c), v: List(vGauss(r, Z * S, c)), ok: true }
    else if (f == "v_fermi") { f: f, n: Z, x: List(r, c, a), v: List(vFermi(r, Z * S, c, a)), ok: true }
    else if (f == "v_bubble") { f: f, n: Z, x: List(r, c, a, k), v: List(vBubble(r, Z * S, c, a, k)), ok: true }
    else if (f == "rms_fermi") { f: f, n: Z, x: List(c, a), v: List(sqrt(fermiR(2, c, a))), ok: true }
    else if (f == "rms_bubble") { f: f, n: Z, x: List(c, a, k), v: List(sqrt(bubbleR(2, c, a, k))), ok: true }
    else if (f == "johnson") { val A = 1 + rnd(seed, 11) % 300 { f: f, n: A, x: List(), v: List(rmsJohnson(A)), ok: true } }
    else if (f == "golovko") { val A = 1 + rnd(seed, 11) % 300 { f: f, n: A, x: List(), v: List(rmsGolovko(A)), ok: true } }
    else {
      // radii around the smallest one for which parameters exist (about 1.9437 fm), and physical ones
      val R = if (rnd(seed, 12) % 3 == 0) fromQ(2036000 + rnd(seed, 13) % 4096)
              else onGrid(S / 2 + (rnd(seed, 13) % 1048576) * 8 * QS)
      val p = fermiParams(R)
      { f: f, n: 0, x: List(R), v: List(p.c, p.a), ok: p.ok }
    }
  }
  pure val FUNS: List[str] = List("rho_ball", "rho_gauss", "rho_fermi", "rho_bubble", "v_point", "v_ball", "v_gauss", "v_fermi", "v_bubble",
                                  "rms_fermi", "rms_bubble", "johnson", "golovko", "est_fermi")
  action step = {
    nondet f = FUNS.indices().oneOf()
    nondet seed = 0.to(2^40).oneOf()
    m' = funOf(FUNS[f], seed)
  }

  // ---- properties of the specification itself ---------------------------------
  // each density is non-negative (a bubble with negative k: inside its node), each potential attractive and
  // not deeper than the point charge's
  pure def signOK(x: Fun): bool =
    if (List("rho_ball", "rho_gauss", "rho_fermi").foldl(false, (b, f) => b or f == x.f)) x.v[0] >= 0
    else if (List("v_ball", "v_gauss", "v_fermi").foldl(false, (b, f) => b or f == x.f))
      x.v[0] < 0 and x.v[0] >= vPoint(x.x[0], x.n * S) - 1000
    else true
  val signs = signOK(m)
  // Poisson equation, by fourth-order differences: (r V)'' = 4 pi r rho (potential energy of the electron: minus)
  pure def poissonGap(v: int => int, rho: int => int, r: int, h: int): int = {
    val u = List(-2, -1, 0, 1, 2).foldl(List(), (l, j) => l.append(mul(r + j * h, v(r + j * h))))
    val d2 = div((-u[0] + 16 * u[1] - 30 * u[2] + 16 * u[3] - u[4]) / 12, sq(h))
    abs(d2 - 4 * mul(mul(PI, r), rho(r)))
  }
  pure def near(x: int, y: int, tol: int): bool = abs(x - y) <= tol
  run poissonTest = {
    val c = 5 * S
    val a = S * 52 / 100
    val k = S / 2
    val h = S / 100000
    val rs = List(S / 2, 2 * S, 49 * S / 10, 51 * S / 10, 8 * S)
    val tol = S / 10^12
    init.then(all {
      assert(rs.foldl(true, (b, r) => b and poissonGap(t => vFermi(t, S, c, a), t => rhoFermi(t, S, c, a), r, h) < tol)),
      assert(rs.foldl(true, (b, r) => b and poissonGap(t => vBubble(t, S, c, a, k), t => rhoBubble(t, S, c, a, k), r, h) < tol)),
      assert(rs.foldl(true, (b, r) => b and poissonGap(t => vGauss(t, S, c), t => rhoGauss(t, S, c), r, h) < tol)),
      assert(rs.foldl(true, (b, r) => b and poissonGap(t => vBall(t, S, c), t => rhoBall(t, S, c), r, h) < tol)),
      m' = m
    })
  }
  // normalization and rms radius by trapezoidal sums of the densities (analytic, decaying: exponentially convergent)
  pure def momentSum(rho: int => int, k: int, h: int, n: int): int =
    upto(n).foldl(0, (s, i) => s + mul(mul(4 * PI, powi(h * (i + 1), k)), rho(h * (i + 1)))) * h / S
  run normTest = {
    val R = 2 * S
    init.then(all {
      assert(near(momentSum(t => rhoGauss(t, S, R), 2, S / 10, 400), S, S / 10^20)),
      assert(near(momentSum(t => rhoGauss(t, S, R), 4, S / 10, 400), 4 * S, S / 10^20)),
      m' = m
    })
  }
}
