// Real arithmetic for the specification: 256-bit fixed point on unbounded integers.
// A real x is represented by the integer nearest to x * 2^256 (error a few units in the last place).
// Also: exact decoding of IEEE-754 double bit patterns.
module fx {
  pure val ONE: int = 2^256
  pure val HALF: int = 2^255
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def max2(a: int, b: int): int = if (a < b) b else a
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def sgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0
  pure def mul(a: int, b: int): int = (a * b) / ONE
  pure def div(a: int, b: int): int = (a * ONE) / b
  pure def sq(a: int): int = (a * a) / ONE
  pure def recip(a: int): int = (ONE * ONE) / a
  // floor division for a positive divisor
  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((b - 1 - a) / b)
  pure def ofInt(n: int): int = n * ONE
  pure def isInt(a: int): bool = (a % ONE) == 0
  // (No operator here or elsewhere takes an operator as a parameter: the simulator's call frames of such operators
  //  are not reentrant.)
  pure def lsum(l: List[int]): int = l.foldl(0, (acc, x) => acc + x)

  // number of binary digits of a non-negative integer (up to 4095)
  pure val STEPS: List[{ k: int, p: int }] =
    [2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl(List(), (acc, k) => acc.append({ k: k, p: 2^k }))
  pure def bitlen(a: int): int = {
    val r = STEPS.foldl({ v: a, n: 0 }, (acc, s) => if (acc.v >= s.p) { v: acc.v / s.p, n: acc.n + s.k } else acc)
    if (r.v > 0) r.n + 1 else 0
  }
  // floor of the square root of an integer
  pure def isqrt(a: int): int =
    if (a <= 0) 0
    else range(0, 14).foldl(2^((bitlen(a) + 1) / 2 + 1), (x, _) => min2(x, (x + a / x) / 2))
  // floor of the cube root of an integer (to a few units)
  pure def icbrt(a: int): int =
    if (a <= 0) 0
    else range(0, 18).foldl(2^((bitlen(a) + 2) / 3 + 1), (x, _) => min2(x, (2 * x + a / (x * x)) / 3))

  pure def sqrt(x: int): int = isqrt(x * ONE)
  pure def cbrt(x: int): int = if (x < 0) -icbrt(-x * ONE * ONE) else icbrt(x * ONE * ONE)

  // 2 * (t + t^3/3 + t^5/5 + ...) = log((1+t)/(1-t)), |t| <= 0.34
  pure def atanh2(t: int): int = {
    val t2 = sq(t)
    2 * range(0, 82).foldl({ s: 0, p: t }, (acc, k) => { s: acc.s + acc.p / (2 * k + 1), p: mul(acc.p, t2) }).s
  }
  pure val LN2: int = atanh2(ONE / 3)
  pure val LN10: int = 3 * LN2 + atanh2(ONE / 9)
  // atan for |x| <= 0.21
  pure def atanSmall(x: int): int = {
    val x2 = sq(x)
    range(0, 58).foldl({ s: 0, p: x }, (acc, k) =>
      { s: if (k % 2 == 0) acc.s + acc.p / (2 * k + 1) else acc.s - acc.p / (2 * k + 1), p: mul(acc.p, x2) }).s
  }
  // Machin's formula
  pure val PI: int = 16 * atanSmall(ONE / 5) - 4 * atanSmall(ONE / 239)

  pure def log(x: int): int = {
    val e = bitlen(x) - 257
    val m0 = if (e >= 0) x / (2^e) else x * (2^(-e))            // in [1, 2)
    val up = m0 > (ONE * 4) / 3
    val m = if (up) m0 / 2 else m0                              // in [2/3, 4/3]
    atanh2(div(m - ONE, m + ONE)) + (if (up) e + 1 else e) * LN2
  }
  pure def exp(x: int): int = {
    val k = fdiv(x, LN2)
    val r = (x - k * LN2) / 256                                 // in [0, ln 2 / 256)
    val s = range(1, 32).foldl({ s: ONE, t: ONE }, (acc, i) => { val t2 = mul(acc.t, r) / i { s: acc.s + t2, t: t2 } }).s
    val q = range(0, 8).foldl(s, (acc, _) => sq(acc))
    if (k >= 0) q * (2^k) else q / (2^(-k))
  }
  // sine and cosine
  pure def sincos(x0: int): { s: int, c: int, a: int, b: int } = {
    val x = x0 - fdiv(x0 + PI, 2 * PI) * (2 * PI)               // in [-pi, pi)
    val x2 = sq(x)
    range(0, 38).foldl({ s: 0, c: 0, a: x, b: ONE }, (acc, k) => {
      val a2 = -mul(acc.a, x2) / ((2 * k + 2) * (2 * k + 3))
      val b2 = -mul(acc.b, x2) / ((2 * k + 1) * (2 * k + 2))
      { s: acc.s + acc.a, c: acc.c + acc.b, a: a2, b: b2 }
    })
  }
  pure def sin(x: int): int = sincos(x).s
  pure def cos(x: int): int = sincos(x).c
  pure def tan(x: int): int = { val r = sincos(x) div(r.s, r.c) }
  pure def atan(x: int): int = {
    val big = abs(x) > ONE
    val y = if (big) recip(x) else x
    val z = range(0, 2).foldl(y, (acc, _) => div(acc, ONE + sqrt(ONE + sq(acc))))   // |z| <= 0.2
    val a = 4 * atanSmall(z)
    if (not(big)) a else if (x > 0) PI / 2 - a else -(PI / 2) - a
  }
  pure def asin(x: int): int =
    if (abs(x) >= ONE) sgn(x) * (PI / 2) else atan(div(x, sqrt(ONE - sq(x))))
  pure def acos(x: int): int = PI / 2 - asin(x)
  // angle of the point (x, y); undefined (0) at the origin
  pure def atan2(y: int, x: int): int =
    if (x == 0 and y == 0) 0
    else if (x > 0) atan(div(y, x))
    else if (x < 0) (if (y >= 0) PI + atan(div(y, x)) else atan(div(y, x)) - PI)
    else sgn(y) * (PI / 2)
  pure def cosh(x: int): int = { val e = exp(abs(x)) (e + recip(e)) / 2 }
  pure def sinh(x: int): int = { val e = exp(abs(x)) sgn(x) * ((e - recip(e)) / 2) }
  pure def tanh(x: int): int = { val e = exp(2 * abs(x)) sgn(x) * div(e - ONE, e + ONE) }
  pure def asinh(x: int): int = sgn(x) * log(abs(x) + sqrt(sq(x) + ONE))
  pure def acosh(x: int): int = log(x + sqrt(sq(x) - ONE))
  pure def atanh(x: int): int = log(div(ONE + x, ONE - x)) / 2

  // integer power with 0^0 = 1
  pure def intpow(x: int, n: int): int = range(0, n).foldl(ONE, (acc, _) => mul(acc, x))
  // x^b for real b: exact repeated product for integer b, exp(b log x) otherwise (x > 0), 0 for x = 0 < b
  pure def powr(x: int, b: int): int =
    if (isInt(b) and abs(b) <= 64 * ONE) {
      val n = b / ONE
      if (n >= 0) intpow(x, n) else if (x == 0) 0 else recip(intpow(x, -n))
    }
    else if (x <= 0) 0
    else exp(mul(b, log(x)))

  // ---- IEEE-754 binary64 bit patterns
  pure val W: int = 2^64
  pure def isSpecial(w: int): bool = (w / (2^52)) % 2048 == 2047        // infinity or not-a-number
  pure def isNaN(w: int): bool = isSpecial(w) and w % (2^52) != 0
  pure def negBit(w: int): bool = w >= 2^63
  pure def isZeroWord(w: int): bool = w == 0 or w == 2^63
  // value of a finite double in fixed point (exact for magnitudes above 2^-203)
  pure def dec(w: int): int = {
    val e = (w / (2^52)) % 2048
    val m = w % (2^52)
    val mant = if (e == 0) m else m + 2^52
    val sh = (if (e == 0) 1 else e) - 819                                 // 1075 - 256
    val v = if (sh >= 0) mant * (2^sh) else mant / (2^(-sh))
    if (negBit(w)) -v else v
  }
  // word k of a little-endian sequence of 64-bit words
  pure def word(blob: int, k: int): int = (blob / (2^(64 * k))) % W
  pure def words(blob: int, n: int): List[int] =
    range(0, n).foldl(List(), (l, i) => l.append((blob / (2^(64 * i))) % W))
}
