// The differentiation rules of jets.qnt against their meaning: for an operand given by a quadratic model, the jet an
// operation returns must be what central differences of the operation's plain value semantics give.
// Also identities that pin down the value semantics themselves.
module theorems {
  import fx.* from "./fx"
  import ops.* from "./ops"
  import layout.* from "./layout"
  import jets.* from "./jets"

  // value of the quadratic model v at displacement t
  pure def model(n: int, v: List[int], t: List[int]): int = evalDense(2, n, v, t).v
  pure def disp(n: int, i: int, a: int, j: int, b: int): List[int] =
    range(0, n).foldl(List(), (acc, k) => acc.append((if (k == i) a else 0) + (if (k == j) b else 0)))
  pure def lanesOf(n: int, v: List[int]): List[int] = {
    val l = range(0, n).foldl([v[0]], (acc, i) =>
      acc.append(model(n, v, disp(n, i, H, i, 0))).append(model(n, v, disp(n, i, -H, i, 0))))
    pairs(n).foldl(l, (acc, e) =>
      if (e.i == e.j) acc
      else acc.append(model(n, v, disp(n, e.i, H, e.j, H))).append(model(n, v, disp(n, e.i, H, e.j, -H)))
              .append(model(n, v, disp(n, e.i, -H, e.j, H))).append(model(n, v, disp(n, e.i, -H, e.j, -H))))
  }
  // agreement of two lists up to 2^-90 of the magnitude plus 2^-90
  pure def near(a: List[int], b: List[int], s: List[int]): bool =
    a.length() == b.length() and
    range(0, a.length()).foldl(true, (ok, i) => ok and abs(a[i] - b[i]) <= 2^166 + s[i] / 2^90 + abs(a[i]) / 2^90)

  pure def UNARY: List[int] = [OP_POW, OP_SQRT, OP_CBRT, OP_RECIP, OP_COS, OP_SIN, OP_TAN, OP_ACOS, OP_ASIN, OP_ATAN, OP_COSH,
    OP_SINH, OP_TANH, OP_ACOSH, OP_ASINH, OP_ATANH, OP_EXP, OP_LOG, OP_LOGB, OP_LOG2, OP_LOG10, OP_NEG, OP_ABS, OP_ADDC,
    OP_CADD, OP_SUBC, OP_CSUB, OP_MULC, OP_CMUL, OP_DIVC, OP_CDIV]
  pure def BINARY: List[int] = [OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_ATAN2, OP_HYPOT]

  // soundness of the differentiation rule of each kind of operation
  pure def sound1(op: int, n: int, v: List[int], c: int): bool =
    not(dom1(op, v[0], c)) or v[0] == 0 or {
      val j = jet1(op, 2, n, v, c)
      val l = lanesOf(n, v).foldl(List(), (acc, x) => acc.append(val1(op, x, c)))
      near(j.v, fromLanes(2, n, l), j.s)
    }
  pure def sound2(op: int, n: int, a: List[int], b: List[int]): bool =
    not(dom2(op, a[0], b[0])) or (op == OP_ATAN2 and a[0] == 0) or {
      val j = jet2(op, 2, n, a, b)
      val la = lanesOf(n, a)
      val lb = lanesOf(n, b)
      val l = range(0, la.length()).foldl(List(), (acc, i) => acc.append(val2(op, la[i], lb[i])))
      near(j.v, fromLanes(2, n, l), j.s)
    }
  pure def sound3(n: int, a: List[int], b: List[int], c: List[int]): bool =
    (a[0] == 0 and b[0] == 0 and c[0] == 0) or {
      val j = jet3(2, n, a, b, c)
      val la = lanesOf(n, a)
      val lb = lanesOf(n, b)
      val lc = lanesOf(n, c)
      near(j.v, fromLanes(2, n, range(0, la.length()).foldl(List(), (acc, i) => acc.append(hypot3(la[i], lb[i], lc[i])))), j.s)
    }
  // the first-order rule is the restriction of the second-order rule
  pure def restricts(op: int, n: int, v: List[int], c: int): bool =
    not(dom1(op, v[0], c)) or
    jet1(op, 1, n, v.slice(0, 1 + n), c).v == jet1(op, 2, n, v, c).v.slice(0, 1 + n)
  // padding commutes with operations
  pure def padCommutes1(op: int, n: int, m: int, v: List[int], c: int): bool =
    not(dom1(op, v[0], c)) or and {
      jet1(op, 2, m, padLeft(2, n, m, v), c).v == padLeft(2, n, m, jet1(op, 2, n, v, c).v),
      jet1(op, 2, m, padRight(2, n, m, v), c).v == padRight(2, n, m, jet1(op, 2, n, v, c).v) }
  pure def padCommutes2(op: int, n: int, m: int, a: List[int], b: List[int]): bool =
    not(dom2(op, a[0], b[0])) or and {
      jet2(op, 2, m, padLeft(2, n, m, a), padLeft(2, n, m, b)).v == padLeft(2, n, m, jet2(op, 2, n, a, b).v),
      jet2(op, 2, m, padRight(2, n, m, a), padRight(2, n, m, b)).v == padRight(2, n, m, jet2(op, 2, n, a, b).v) }
  // exchanging the first two variables commutes with operations
  pure def swap01(n: int, v: List[int]): List[int] = {
    pure def s(i: int): int = if (i == 0) 1 else if (i == 1) 0 else i
    pairs(n).foldl(range(0, n).foldl([v[0]], (acc, i) => acc.append(v[1 + s(i)])),
      (acc, e) => acc.append(v[didx(n, s(e.i), s(e.j))]))
  }
  pure def permutes2(op: int, n: int, a: List[int], b: List[int]): bool =
    n < 2 or not(dom2(op, a[0], b[0])) or
    near(jet2(op, 2, n, swap01(n, a), swap01(n, b)).v, swap01(n, jet2(op, 2, n, a, b).v), zeros(datalen(2, n)))
  // the storage layout enumerates the index pairs, and is symmetric
  pure def layoutOk(n: int): bool = {
    val p = pairs(n)
    and {
      p.length() == tri(n),
      datalen(2, n) == 1 + n + tri(n),
      range(0, p.length()).foldl(true, (ok, k) => ok and hidx(n, p[k].i, p[k].j) == k and hidx(n, p[k].j, p[k].i) == k),
      sizeOfLen(2, datalen(2, n)) == n,
      sizeOfLen(1, datalen(1, n)) == n
    }
  }

  // identities of the value semantics (tolerance 2^-200 relative)
  pure def same(a: int, b: int): bool = abs(a - b) <= 2^56 + max2(abs(a), abs(b)) / 2^200
  pure def values(x: int, y: int): bool = {
    val p = abs(x) + MARGIN
    val u = div(x, ONE + abs(x))                                     // in (-1, 1)
    val t = sincos(x)
    and {
      same(sq(t.s) + sq(t.c), ONE),
      same(sin(x + y), mul(t.s, cos(y)) + mul(t.c, sin(y))),
      same(cos(x + y), mul(t.c, cos(y)) - mul(t.s, sin(y))),
      same(exp(x / 8 + y / 8), mul(exp(x / 8), exp(y / 8))),
      same(log(exp(x / 8)), x / 8), same(exp(log(p)), p),
      same(tan(atan(x)), x), same(sin(asin(u)), u), same(cos(acos(u)), u),
      same(asin(u) + acos(u), PI / 2),
      same(sinh(asinh(x)), x), same(cosh(acosh(ONE + p)), ONE + p), same(tanh(atanh(u)), u),
      same(sq(cosh(x / 8)) - sq(sinh(x / 8)), ONE), same(mul(tanh(x), cosh(x)), sinh(x)),
      same(sq(sqrt(p)), p), same(mul(cbrt(x), sq(cbrt(x))), x),
      same(mul(recip(p), p), ONE), same(mul(powr(p, ONE / 3), powr(p, ONE / 3 * 2)), powr(p, ONE / 3 * 3)),
      same(powr(p, 3 * ONE), mul(p, sq(p))), same(powr(p, -2 * ONE), recip(sq(p))), powr(0, 0) == ONE,
      (x == 0 and y == 0) or (
        same(mul(hypot3(x, y, 0), cos(atan2(y, x))), x) and same(mul(hypot3(x, y, 0), sin(atan2(y, x))), y)
        and abs(atan2(y, x)) <= PI + 2^10),
      same(powr(exp(ONE), 2 * ONE), exp(2 * ONE)), same(log(10 * ONE), LN10), same(log(2 * ONE), LN2)
    }
  }

  // ---- random exploration: operands, operation and exponent are chosen nondeterministically
  var n: int
  var a: List[int]
  var b: List[int]
  var c: List[int]
  var e: int
  var op1: int
  var op2: int
  pure val MAXLEN: int = 10                           // data length for three variables
  pure val NUMS: Set[int] = Set(0, ONE, -ONE, 2 * ONE, ONE / 2, -ONE / 4, 3 * ONE / 4, -5 * ONE / 2, 7 * ONE / 4, 3 * ONE / 8, -9 * ONE / 16, 11 * ONE / 8)
  pure val EXPS: Set[int] = Set(0, ONE, 2 * ONE, 3 * ONE, -ONE, -2 * ONE, ONE / 2, 5 * ONE / 2, -ONE / 4, 10 * ONE)
  action pick = {
    nondet n1 = 1.to(3).oneOf()
    nondet fa = 0.to(MAXLEN - 1).setOfMaps(NUMS).oneOf()
    nondet fb = 0.to(MAXLEN - 1).setOfMaps(NUMS).oneOf()
    nondet fc = 0.to(MAXLEN - 1).setOfMaps(NUMS).oneOf()
    nondet e1 = EXPS.oneOf()
    nondet o1 = 0.to(30).oneOf()
    nondet o2 = 0.to(5).oneOf()
    all {
      n' = n1, a' = range(0, datalen(2, n1)).foldl(List(), (acc, i) => acc.append(fa.get(i))), b' = range(0, datalen(2, n1)).foldl(List(), (acc, i) => acc.append(fb.get(i))),
      c' = range(0, datalen(2, n1)).foldl(List(), (acc, i) => acc.append(fc.get(i))), e' = e1, op1' = UNARY[o1], op2' = BINARY[o2]
    }
  }
  action init = pick
  action step = pick
  val adSound1 = sound1(op1, n, a, if (op1 == OP_LOGB) abs(e) + 3 * ONE / 2 else e)
  val adSound2 = sound2(op2, n, a, b)
  val adSound3 = sound3(n, a, b, c)
  val orders = restricts(op1, n, a, if (op1 == OP_LOGB) abs(e) + 3 * ONE / 2 else e)
  val padding = padCommutes1(op1, n, n + 2, a, if (op1 == OP_LOGB) abs(e) + 3 * ONE / 2 else e) and padCommutes2(op2, n, n + 1, a, b)
  val permuting = permutes2(op2, n, a, b)
  val identities = values(a[0], b[0]) and values(mul(a[0], b[0]) + ONE / 16, c[0])
  val allTheorems = adSound1 and adSound2 and adSound3 and orders and padding and permuting and identities

  run layoutTest = all { init, assert(range(0, 21).foldl(true, (ok, k) => ok and layoutOk(k))) }
}
