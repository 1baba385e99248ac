// Exact / fixed-point arithmetic used by the libgrpp specification.
// A real number x is represented by the integer x * S (S = 10^80).  All inputs
// of the library used in behaviours are dyadic rationals n / 2^20, which this
// representation holds exactly.
module fixed {
  pure val S: int = 10^80
  // denominators of the dyadic input values
  pure val Q: int = 1048576
  pure val QS: int = S / Q
  pure def fromQ(n: int): int = n * QS
  pure def mul(a: int, b: int): int = a * b / S
  pure def div(a: int, b: int): int = a * S / b
  pure def sq(a: int): int = a * a / S
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def min2(a: int, b: int): int = if (a < b) a else b

  // ---- list helpers -------------------------------------------------------
  // 0, 1, ..., n-1 as a list (empty for n <= 0)
  pure def upto(n: int): List[int] = if (n <= 0) List() else range(0, n)
  pure def isum(l: List[int]): int = l.foldl(0, (a, b) => a + b)

  // ---- integer combinatorics ----------------------------------------------
  pure def fact(n: int): int = range(1, max2(n, 0) + 1).foldl(1, (a, i) => a * i)
  // (2n-1)!!, n >= 0
  pure def oddfact(n: int): int = range(1, max2(n, 0) + 1).foldl(1, (a, i) => a * (2 * i - 1))
  pure def binom(n: int, k: int): int =
    if (k < 0 or k > n) 0 else fact(n) / (fact(k) * fact(n - k))

  // ---- elementary functions -----------------------------------------------
  // integer square root, Newton from above
  pure def bitlen(n: int): int =
    // upper bound on log2(n), by repeated squaring of the scale
    List(4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1).foldl(
      (n, 0), (st, b) => if (st._1 >= 2^b) (st._1 / 2^b, st._2 + b) else st)._2 + 1
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else
    upto(14 + bitlen(bitlen(n)))
      .foldl((2^(bitlen(n) / 2 + 1), false), (st, i) =>
        if (st._2) st else {
          val y = (st._1 + n / st._1) / 2
          if (y >= st._1) (st._1, true) else (y, false)
        })._1
  pure def sqrt(a: int): int = isqrt(a * S)

  // Taylor polynomial of exp for small |x|
  pure def expTaylor(x: int): int =
    upto(60).foldl((S, S), (st, i) =>
      if (st._2 == 0) st else {
        val t = mul(st._2, x) / (i + 1)
        (st._1 + t, t)
      })._1
  // exp(x); values below 10^-80 are 0
  pure def exp(x: int): int =
    if (x < -190 * S) 0 else {
      val m = 6 + max2(0, bitlen(abs(x) / S))
      upto(m).foldl(expTaylor(x / 2^m), (y, i) => sq(y))
    }
  // pi by Machin's formula
  pure def atanInv(k: int): int =
    upto(130).foldl((S / k, S / k), (st, i) => {
      val t = -st._2 / (k * k)
      (st._1 + t / (2 * i + 3), t)
    })._1
  pure val PI: int = 4 * (4 * atanInv(5) - atanInv(239))
  pure val SQRTPI: int = sqrt(PI)
  pure val PI32: int = mul(PI, SQRTPI)      // pi^(3/2)
  // natural powers
  pure def powi(x: int, n: int): int = upto(n).foldl(S, (a, i) => mul(a, x))
  // x^0 .. x^n
  pure def powers(x: int, n: int): List[int] =
    upto(n).foldl(List(S), (l, i) => l.append(mul(l[i], x)))

  // ---- polynomials (coefficient lists, index = degree) ---------------------
  pure def padd(a: List[int], b: List[int]): List[int] =
    if (a.length() >= b.length())
      upto(a.length()).foldl(List(), (t1, i) => t1.append(if (i < b.length()) a[i] + b[i] else a[i]))
    else upto(b.length()).foldl(List(), (t2, i) => t2.append(if (i < a.length()) a[i] + b[i] else b[i]))
  pure def pscale(a: List[int], c: int): List[int] = a.foldl(List(), (l, x) => l.append(mul(x, c)))
  pure def pimul(a: List[int], c: int): List[int] = a.foldl(List(), (l, x) => l.append(x * c))
  pure def pshift(a: List[int]): List[int] = List(0).concat(a)
  pure def pmul(a: List[int], b: List[int]): List[int] =
    if (a.length() == 0 or b.length() == 0) List() else
    upto(a.length() + b.length() - 1).foldl(List(), (t3, k) => t3.append(range(max2(0, k - b.length() + 1), min2(k, a.length() - 1) + 1)
        .foldl(0, (s, i) => s + a[i] * b[k - i]) / S))
  pure def dot(a: List[int], b: List[int]): int =
    upto(min2(a.length(), b.length())).foldl(0, (s, i) => s + a[i] * b[i]) / S
}
