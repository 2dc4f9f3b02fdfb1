// Numbers with derivatives: values, kernels of all functions, and the chain rule.
module jets {
  import fx.* from "./fx"
  import ops.* from "./ops"
  import layout.* from "./layout"

  // kind 0: dense; kind 1: sparse.  sc: 0 double, 1 float, 2 long double.  o: order.  sn: fixed size, -1 dynamic
  type Ty = { k: int, sc: int, o: int, sn: int }

  // v: value, gradient, packed Hessian (dense); value, derivative for each name of the universe (sparse)
  // s: magnitude against which the rounding of each entry is measured (0: must be exact)
  type Jet = { v: List[int], s: List[int] }

  // number of names in the universe of sparse variables
  pure val U: int = 21

  pure def zeros(n: int): List[int] = range(0, n).foldl(List(), (acc, _) => acc.append(0))

  // ---- value semantics: what each operation means on plain real numbers
  pure def val1(op: int, x: int, c: int): int =
    if (op == OP_POW) powr(x, c)
    else if (op == OP_SQRT) sqrt(x)
    else if (op == OP_CBRT) cbrt(x)
    else if (op == OP_RECIP) recip(x)
    else if (op == OP_COS) cos(x)
    else if (op == OP_SIN) sin(x)
    else if (op == OP_TAN) tan(x)
    else if (op == OP_ACOS) acos(x)
    else if (op == OP_ASIN) asin(x)
    else if (op == OP_ATAN) atan(x)
    else if (op == OP_COSH) cosh(x)
    else if (op == OP_SINH) sinh(x)
    else if (op == OP_TANH) tanh(x)
    else if (op == OP_ACOSH) acosh(x)
    else if (op == OP_ASINH) asinh(x)
    else if (op == OP_ATANH) atanh(x)
    else if (op == OP_EXP) exp(x)
    else if (op == OP_LOG) log(x)
    else if (op == OP_LOGB) div(log(x), log(c))
    else if (op == OP_LOG2) div(log(x), LN2)
    else if (op == OP_LOG10) div(log(x), LN10)
    else if (op == OP_NEG) -x
    else if (op == OP_ABS) abs(x)
    else if (op == OP_ADDC or op == OP_CADD) x + c
    else if (op == OP_SUBC) x - c
    else if (op == OP_CSUB) c - x
    else if (op == OP_MULC or op == OP_CMUL) mul(x, c)
    else if (op == OP_DIVC) div(x, c)
    else if (op == OP_CDIV) div(c, x)
    else x
  pure def hypot3(a: int, b: int, c: int): int = isqrt(a * a + b * b + c * c)
  pure def val2(op: int, a: int, b: int): int =
    if (op == OP_ADD) a + b
    else if (op == OP_SUB) a - b
    else if (op == OP_MUL) mul(a, b)
    else if (op == OP_DIV) div(a, b)
    else if (op == OP_ATAN2) atan2(a, b)
    else hypot3(a, b, 0)

  // ---- where an operation is twice differentiable (and not excessively ill-conditioned)
  pure val MARGIN: int = 2^250                       // 2^-6
  // binary exponent of a magnitude
  pure def mag(x: int): int = abs(bitlen(abs(x)) - 257)
  // values the fixed point arithmetic handles without loss: zero, or between 2^-64 and 2^64
  pure def inRange(x: int): bool = x == 0 or (abs(x) >= 2^192 and abs(x) <= 2^320)
  pure def dom1(op: int, x: int, c: int): bool =
    inRange(x) and inRange(c) and domain1(op, x, c) and (op != OP_POW or x == 0 or mag(x) * (abs(c) / ONE + 3) <= 190)
  pure def domain1(op: int, x: int, c: int): bool =
    if (op == OP_POW) (if (isInt(c) and abs(c) <= 64 * ONE) x != 0 or c >= 0 else x > 0)
    else if (op == OP_SQRT or op == OP_LOG or op == OP_LOG2 or op == OP_LOG10) x > 0
    else if (op == OP_LOGB) x > 0 and c > 0 and c != ONE
    else if (op == OP_CBRT or op == OP_RECIP or op == OP_CDIV) x != 0
    else if (op == OP_DIVC) c != 0
    else if (op == OP_ACOS or op == OP_ASIN or op == OP_ATANH) abs(x) <= ONE - MARGIN
    else if (op == OP_ACOSH) x >= ONE + MARGIN
    else if (op == OP_TAN) abs(x) < 2^286 and abs(cos(x)) > MARGIN
    else if (op == OP_SIN or op == OP_COS) abs(x) < 2^286
    else if (op == OP_EXP or op == OP_SINH or op == OP_COSH) abs(x) <= 600 * ONE
    else if (op == OP_TANH) abs(x) <= 300 * ONE
    else true
  pure def dom2(op: int, a: int, b: int): bool =
    inRange(a) and inRange(b) and domain2(op, a, b)
  pure def domain2(op: int, a: int, b: int): bool =
    if (op == OP_DIV) b != 0
    else if (op == OP_ATAN2 or op == OP_HYPOT) a != 0 or b != 0
    else true

  // ---- kernels: value, derivative, second derivative of one-argument functions, with error magnitudes
  type K1 = { f: int, p: int, q: int, kf: int, kp: int, kq: int }
  pure def mk(fl: int, f: int, p: int, q: int): K1 =
    { f: f, p: p, q: q, kf: abs(f) + fl, kp: abs(p) + fl, kq: abs(q) + (if (fl > 0) abs(p) + fl else 0) }
  pure def kern1(op: int, x: int, c: int): K1 =
    if (op == OP_POW) {
      val cc = mul(c, c - ONE)
      mk(0, powr(x, c),
         if (c == 0) 0 else mul(c, powr(x, c - ONE)),
         if (cc == 0) 0 else mul(cc, powr(x, c - 2 * ONE)))
    }
    else if (op == OP_SQRT) { val r = sqrt(x) mk(0, r, recip(2 * r), -recip(4 * mul(x, r))) }
    else if (op == OP_CBRT) { val r = cbrt(x) mk(0, r, recip(3 * sq(r)), div(-2 * ONE, 9 * mul(x, sq(r)))) }
    else if (op == OP_RECIP) { val r = recip(x) mk(0, r, -sq(r), 2 * mul(r, sq(r))) }
    else if (op == OP_CDIV) { val r = recip(x) mk(0, mul(c, r), -mul(c, sq(r)), 2 * mul(c, mul(r, sq(r)))) }
    else if (op == OP_COS) { val t = sincos(x) mk(ONE, t.c, -t.s, -t.c) }
    else if (op == OP_SIN) { val t = sincos(x) mk(ONE, t.s, t.c, -t.s) }
    else if (op == OP_TAN) { val t = tan(x) val p = ONE + sq(t) mk(ONE, t, p, 2 * mul(t, p)) }
    else if (op == OP_ACOS) { val w = ONE - sq(x) val p = -recip(sqrt(w)) mk(ONE, acos(x), p, div(mul(p, x), w)) }
    else if (op == OP_ASIN) { val w = ONE - sq(x) val p = recip(sqrt(w)) mk(ONE, asin(x), p, div(mul(p, x), w)) }
    else if (op == OP_ATAN) { val p = recip(ONE + sq(x)) mk(0, atan(x), p, -2 * mul(x, sq(p))) }
    else if (op == OP_COSH) { val a = cosh(x) val b = sinh(x) { f: a, p: b, q: a, kf: a, kp: a, kq: a } }
    else if (op == OP_SINH) { val a = cosh(x) val b = sinh(x) { f: b, p: a, q: b, kf: a, kp: a, kq: a } }
    else if (op == OP_TANH) { val t = tanh(x) val p = ONE - sq(t) mk(ONE, t, p, -2 * mul(t, p)) }
    else if (op == OP_ACOSH) {
      val w = sq(x) - ONE
      val p = recip(sqrt(w))
      mk(ONE, acosh(x), p, -div(mul(p, x), w))
    }
    else if (op == OP_ASINH) { val w = sq(x) + ONE val p = recip(sqrt(w)) mk(ONE, asinh(x), p, -div(mul(p, x), w)) }
    else if (op == OP_ATANH) { val p = recip(ONE - sq(x)) mk(ONE, atanh(x), p, 2 * mul(x, sq(p))) }
    else if (op == OP_EXP) { val e = exp(x) mk(0, e, e, e) }
    else if (op == OP_LOG) {
      val p = recip(x)
      { f: log(x), p: p, q: -sq(p), kf: abs(log(x)) + ONE, kp: abs(p), kq: sq(p) }
    }
    else {
      // logarithm to a base
      val lb = if (op == OP_LOG2) LN2 else if (op == OP_LOG10) LN10 else log(c)
      val p = recip(mul(x, lb))
      val q = -div(p, x)
      { f: div(log(x), lb), p: p, q: q, kf: abs(div(abs(log(x)) + ONE, lb)), kp: abs(p), kq: abs(q) }
    }

  // ---- kernels of several operands: gradient p and Hessian q in the operands
  type KN = { f: int, p: List[int], q: List[List[int]], kf: int, kp: List[int], kq: List[List[int]] }
  pure def absl(l: List[int]): List[int] = l.foldl(List(), (acc, x) => acc.append(abs(x)))
  pure def kern2(op: int, a: int, b: int): KN =
    if (op == OP_MUL) {
      val f = mul(a, b)
      { f: f, p: [b, a], q: [[0, ONE], [ONE, 0]], kf: abs(f), kp: [abs(b), abs(a)], kq: [[0, ONE], [ONE, 0]] }
    }
    else if (op == OP_DIV) {
      val r = recip(b)
      val f = div(a, b)
      val r2 = sq(r)
      val y = 2 * mul(f, r2)
      { f: f, p: [r, -mul(f, r)], q: [[0, -r2], [-r2, y]],
        kf: abs(f), kp: [abs(r), abs(mul(f, r))], kq: [[0, r2], [r2, abs(y)]] }
    }
    else if (op == OP_ATAN2) {
      val d = sq(a) + sq(b)
      val t = 2 * div(div(mul(a, b), d), d)
      val u = div(div(sq(a) - sq(b), d), d)
      val k = recip(d)
      val p = [div(b, d), -div(a, d)]
      { f: atan2(a, b), p: p, q: [[-t, u], [u, t]], kf: 4 * ONE, kp: absl(p), kq: [[k, k], [k, k]] }
    }
    else {
      val h = hypot3(a, b, 0)
      val h3 = mul(h, sq(h))
      val k = recip(h)
      val p = [div(a, h), div(b, h)]
      val m = -div(mul(a, b), h3)
      { f: h, p: p, q: [[div(sq(b), h3), m], [m, div(sq(a), h3)]], kf: h, kp: absl(p), kq: [[k, k], [k, k]] }
    }
  pure def kern3(a: int, b: int, c: int): KN = {
    val h = hypot3(a, b, c)
    val h3 = mul(h, sq(h))
    val k = recip(h)
    val kk = [k, k, k]
    val p = [div(a, h), div(b, h), div(c, h)]
    val ab = -div(mul(a, b), h3)
    val ac = -div(mul(a, c), h3)
    val bc = -div(mul(b, c), h3)
    { f: h, p: p,
      q: [[div(sq(b) + sq(c), h3), ab, ac], [ab, div(sq(a) + sq(c), h3), bc], [ac, bc, div(sq(a) + sq(b), h3)]],
      kf: h, kp: absl(p), kq: [kk, kk, kk] }
  }

  // derivative factors are known to a few units of 2^-256 at best; magnitudes never claim more
  pure val FLOOR: int = 2^60

  // ---- the chain rule
  // f of m operands, each with entries v (value first)
  pure def chain1(o: int, n: int, x: List[int], k: K1): Jet = {
    val lin = range(1, x.length()).foldl({ v: [k.f], s: [k.kf] }, (acc, i) => {
      val e = x[i]
      { v: acc.v.append(mul(k.p, e)), s: acc.s.append(mul(k.kp + FLOOR, abs(e))) } })
    if (o < 2) lin
    else dropT(pairs(n).foldl({ v: lin.v.slice(0, 1 + n), s: lin.s.slice(0, 1 + n), t: 1 + n }, (acc, e) => {
      val w = mul(x[1 + e.i], x[1 + e.j])
      { v: acc.v.append(lin.v[acc.t] + mul(k.q, w)), s: acc.s.append(lin.s[acc.t] + mul(k.kq + FLOOR, abs(w))), t: acc.t + 1 }
    }))
  }
  pure def dropT(r: { v: List[int], s: List[int], t: int }): Jet = { v: r.v, s: r.s }

  pure def chainN(o: int, n: int, xs: List[List[int]], k: KN): Jet = {
    val m = xs.length()
    val lin = range(1, xs[0].length()).foldl({ v: [k.f], s: [k.kf] }, (acc, i) => {
      val r = range(0, m).foldl({ v: 0, s: 0 }, (a, j) =>
        { v: a.v + mul(k.p[j], xs[j][i]), s: a.s + mul(k.kp[j] + FLOOR, abs(xs[j][i])) })
      { v: acc.v.append(r.v), s: acc.s.append(r.s) } })
    if (o < 2) lin
    else dropT(pairs(n).foldl({ v: lin.v.slice(0, 1 + n), s: lin.s.slice(0, 1 + n), t: 1 + n }, (acc, e) => {
      val r = range(0, m).foldl({ v: 0, s: 0 }, (a, g) =>
        range(0, m).foldl(a, (b, h) => {
          val w = mul(xs[g][1 + e.i], xs[h][1 + e.j])
          { v: b.v + mul(k.q[g][h], w), s: b.s + mul(k.kq[g][h] + FLOOR, abs(w)) } }))
      { v: acc.v.append(lin.v[acc.t] + r.v), s: acc.s.append(lin.s[acc.t] + r.s), t: acc.t + 1 }
    }))
  }
  // linear combination of two numbers
  pure def lin2(a: List[int], b: List[int], cb: int): Jet =
    range(0, a.length()).foldl({ v: List(), s: List() }, (acc, i) =>
      { v: acc.v.append(a[i] + cb * b[i]), s: acc.s.append(abs(a[i]) + abs(b[i])) })
  // c * a with the value replaced
  pure def scaled(a: List[int], c: int, f: int, sf: int): Jet =
    range(1, a.length()).foldl({ v: [f], s: [sf] }, (acc, i) => {
      val e = mul(c, a[i])
      { v: acc.v.append(e), s: acc.s.append(abs(e)) } })

  pure def jet1(op: int, o: int, n: int, x: List[int], c: int): Jet = {
    val f = x[0]
    if (op == OP_NEG) scaled(x, -ONE, -f, abs(f))
    else if (op == OP_ABS) (if (f < 0) scaled(x, -ONE, -f, abs(f)) else { v: x, s: absl(x) })
    else if (op == OP_ADDC or op == OP_CADD) scaled(x, ONE, f + c, abs(f) + abs(c))
    else if (op == OP_SUBC) scaled(x, ONE, f - c, abs(f) + abs(c))
    else if (op == OP_CSUB) scaled(x, -ONE, c - f, abs(f) + abs(c))
    else if (op == OP_MULC or op == OP_CMUL) { val r = mul(c, f) scaled(x, c, r, abs(r)) }
    else if (op == OP_DIVC) { val r = div(f, c) scaled(x, recip(c), r, abs(r)) }
    else chain1(o, n, x, kern1(op, f, c))
  }
  pure def jet2(op: int, o: int, n: int, a: List[int], b: List[int]): Jet =
    if (op == OP_ADD) lin2(a, b, 1)
    else if (op == OP_SUB) lin2(a, b, -1)
    else chainN(o, n, [a, b], kern2(op, a[0], b[0]))
  pure def jet3(o: int, n: int, a: List[int], b: List[int], c: List[int]): Jet =
    chainN(o, n, [a, b, c], kern3(a[0], b[0], c[0]))

  // ---- seeds
  pure def constantV(len: int, f: int): List[int] = range(0, len).foldl(List(), (acc, i) => acc.append(if (i == 0) f else 0))
  pure def variableV(len: int, k: int, f: int): List[int] = 
    range(0, len).foldl(List(), (acc, i) => acc.append(if (i == 0) f else if (i == 1 + k) ONE else 0))

  // ---- padding
  pure def padLeft(o: int, n: int, m: int, v: List[int]): List[int] = {
    val sh = m - n
    val g = range(0, m).foldl([v[0]], (acc, i) => acc.append(if (i < sh) 0 else v[1 + i - sh]))
    if (o < 2) g
    else pairs(m).foldl(g, (acc, e) => acc.append(if (e.i < sh) 0 else v[didx(n, e.i - sh, e.j - sh)]))
  }
  pure def padRight(o: int, n: int, m: int, v: List[int]): List[int] = {
    val g = range(0, m).foldl([v[0]], (acc, i) => acc.append(if (i < n) v[1 + i] else 0))
    if (o < 2) g
    else pairs(m).foldl(g, (acc, e) => acc.append(if (e.j < n) v[didx(n, e.i, e.j)] else 0))
  }

  // ---- local Taylor model (dense); with magnitude
  pure def evalDense(o: int, n: int, v: List[int], d: List[int]): { v: int, s: int } = {
    val g = range(0, n).foldl({ v: v[0], s: abs(v[0]) }, (acc, i) => {
      val t = mul(v[1 + i], d[i])
      { v: acc.v + t, s: acc.s + abs(t) } })
    if (o < 2) g
    else range(0, n).foldl(g, (a, i) => range(0, n).foldl(a, (acc, j) => {
      val t = mul(v[didx(n, i, j)], mul(d[i], d[j])) / 2
      { v: acc.v + t, s: acc.s + abs(t) } }))
  }

  // ---- independent meaning of derivatives: central differences of the value semantics.
  // A number of n variables is accompanied by the values of the same expression with the variables moved:
  // lane 0: not moved; 1+2i / 2+2i: variable i moved by +H / -H; then for i < j: ++ +- -+ --
  pure val H: int = 2^192                             // 2^-64
  pure def laneCount(n: int): int = 1 + 2 * n + 2 * n * (n - 1)
  pure def laneSeeds(n: int, k: int, f: int): List[int] = {
    val l = range(0, n).foldl([f], (acc, i) =>
      if (i == k) acc.append(f + H).append(f - H) else acc.append(f).append(f))
    pairs(n).foldl(l, (acc, e) =>
      if (e.i == e.j) acc
      else {
        val a = if (e.i == k) H else 0
        val b = if (e.j == k) H else 0
        acc.append(f + a + b).append(f + a - b).append(f - a + b).append(f - a - b)
      })
  }
  // value, gradient and Hessian read off the lanes
  pure def fromLanes(o: int, n: int, l: List[int]): List[int] = {
    val g = range(0, n).foldl([l[0]], (acc, i) => acc.append(div(l[1 + 2 * i] - l[2 + 2 * i], 2 * H)))
    if (o < 2) g
    else pairs(n).foldl({ v: g, t: 1 + 2 * n }, (acc, e) =>
      if (e.i == e.j)
        { v: acc.v.append((l[1 + 2 * e.i] + l[2 + 2 * e.i] - 2 * l[0]) * 2^128), t: acc.t }
      else
        { v: acc.v.append((l[acc.t] - l[acc.t + 1] - l[acc.t + 2] + l[acc.t + 3]) * 2^126), t: acc.t + 4 }).v
  }
}
