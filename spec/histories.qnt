// The machine on its own: histories of calls, chosen nondeterministically among those that make sense in the current
// state (and some that must be refused). `quint run` explores them, checks the invariants below on every state, and
// writes the behaviour as an ITF trace; the orchestrator replays its calls into the real library, whose recorded
// execution trace.qnt then validates.
module histories {
  import fx.* from "./fx"
  import ops.* from "./ops"
  import layout.* from "./layout"
  import jets.* from "./jets"
  import machine.* from "./machine"

  type Call = { op: int, I: List[int], D: List[int] }
  // n: usual size; py: uses what only the Python module offers; mixed: several types at once; lanes: variables of a tracked program
  type Cfg = { ty: Ty, n: int, py: bool, mixed: bool, lanes: int }
  pure val NOCALL: Call = { op: 0, I: List(), D: List() }
  pure val NREG: int = 4

  // ---- bit pattern of a real (truncated to 53 bits)
  pure def enc(x: int): int =
    if (x == 0) 0 else {
      val a = abs(x)
      val e = bitlen(a)                               // 2^(e-1) <= a < 2^e
      val m = if (e > 53) a / 2^(e - 53) else a * 2^(53 - e)
      // a / 2^256 = m * 2^(e - 53 - 256)
      (if (x < 0) 2^63 else 0) + (e - 257 + 1023) * 2^52 + (m - 2^52)
    }

  // ---- contents for new and updated objects
  pure def contents(e: Exp): List[int] =
    if (e.mode == 1) e.b
    else if (e.mode == 0) e.v.foldl(List(), (acc, x) => acc.append(enc(x)))
    else zeros(len(e.ty, e.n))
  pure def objOf(e: Exp): Obj = {
    val b = contents(e)
    { ty: e.ty, n: e.n, w: join(b), nw: b.length(), v: decodeAll(b, 0), sp: far(b, 0), nm: e.nm, ln: e.ln }
  }
  pure def tame(o: Obj): bool =
    not(o.sp) and o.v.foldl(true, (ok, x) => ok and abs(x) <= 2^280 and (x == 0 or abs(x) >= 2^216))
  // the machine's step; ok: the new contents are specified and of moderate size
  pure def succ(s: St, c: Call): { ok: bool, rej: bool, st: St } = {
    val eff = effect(s, c.op, c.I, c.D)
    if (c.op == OP_FORGET) { ok: true, rej: false, st: collect(forgotten(s, c.I[0])) }
    else if (eff.rej) { ok: true, rej: true, st: s }
    else {
      val ex = expected(s, eff)
      val s2 = rebind(s, eff)
      val free = c.op == OP_EMPTY or c.op == OP_RESIZE
      val heap = ex.keys().fold(s2.heap, (h, id) => h.put(id, objOf(ex.get(id))))
      { rej: false, ok: ex.keys().forall(id => tame(heap.get(id)) and (free or ex.get(id).mode < 2)),
        st: collect({ ...s2, heap: heap, amp: if (s2.lanes == 0) s2.amp
          else ex.keys().fold(s2.amp, (m, id) => ex.get(id).s.foldl(heap.get(id).v.foldl(m, (q, t) => max2(q, abs(t))), (q, t) => max2(q, t))) }) }
    }
  }

  // ---- material for calls
  pure val NUMS: List[int] = [ONE, -ONE, 2 * ONE, ONE / 2, -ONE / 4, 3 * ONE / 4, -5 * ONE / 2, 7 * ONE / 4, 3 * ONE / 8, -9 * ONE / 16, 11 * ONE / 8,
    ONE / 64, -3 * ONE, 5 * ONE, -ONE / 2, 13 * ONE / 16]
  pure val WORDS: List[int] = NUMS.foldl(List(), (acc, x) => acc.append(enc(x)))
  // derivatives: also zeros of either sign
  pure val DWORDS: List[int] = WORDS.concat([0, 0, 0, 0, 0, 0, 0, 2^63])
  pure val EXPO: List[int] = [0, ONE, 2 * ONE, 3 * ONE, -ONE, -2 * ONE, ONE / 2, 5 * ONE / 2, -ONE / 4, 4 * ONE]
  pure val BASES: List[int] = [2 * ONE, 10 * ONE, ONE / 2, 3 * ONE]
  pure val UNARY: List[int] = [OP_POW, OP_POW, OP_POW, OP_SQRT, OP_CBRT, OP_RECIP, OP_COS, OP_SIN, OP_TAN, OP_ACOS, OP_ASIN, OP_ATAN, OP_COSH, OP_SINH,
    OP_TANH, OP_ACOSH, OP_ASINH, OP_ATANH, OP_EXP, OP_LOG, OP_LOGB, OP_LOG2, OP_LOG10, OP_NEG, OP_ABS]
  pure val BINARY: List[int] = [OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_ATAN2, OP_HYPOT]
  pure val SIZES: List[int] = [0, 1, 2, 2, 3]
  pure val MIXED: List[Ty] = [{ k: 0, sc: 0, o: 2, sn: 2 }, { k: 0, sc: 0, o: 1, sn: 2 }, { k: 0, sc: 0, o: 2, sn: -1 }, { k: 0, sc: 0, o: 1, sn: -1 },
    { k: 0, sc: 0, o: 2, sn: 1 }, { k: 1, sc: 0, o: 1, sn: -1 }]

  // dice: numbers thrown for one step
  type Dice = { s: int, a: int, b: int, c: int, d: int, u: int, t: int, x: int -> int }
  pure def live(s: St): List[int] = range(0, NREG).select(r => has(s, r))
  pure def pick(l: List[int], k: int): int = l[k % l.length()]
  pure def nums(d: Dice, from: int, cnt: int): List[int] = range(0, cnt).foldl(List(), (acc, i) => acc.append(pick(WORDS, d.x.get((from + i) % 24))))
  pure def derivs(d: Dice, from: int, cnt: int): List[int] = range(0, cnt).foldl(List(), (acc, i) => acc.append(pick(DWORDS, d.x.get((from + i) % 24))))
  pure def distinct(d: Dice, cnt: int): List[int] =
    range(0, cnt).foldl(List(), (acc, i) => { val k = d.x.get(i) % (if (d.s % 3 == 0) U else 9) if (acc.select(q => q == k).length() > 0) acc else acc.append(k) })
  pure def c1(op: int, I: List[int]): Call = { op: op, I: I, D: List() }
  pure def cd(op: int, I: List[int], D: List[int]): Call = { op: op, I: I, D: D }
  pure def hd(s: int, dst: int, given: int, ty: Ty): List[int] = [s, dst, given, ty.k, ty.sc, ty.o, ty.sn]

  // ---- calls of each kind
  pure def viewed(s: St, a: int): bool = s.views.keys().exists(v => s.views.get(v).id == s.env.get(a))
  pure def create(s: St, g: Cfg, d: Dice): Call = {
    val ty = if (g.mixed) MIXED[d.u % 6] else g.ty
    val dst = d.d
    if (ty.k == 1) {
      val sub = d.t % 6
      if (sub == 0) cd(OP_SCONST, [d.s, dst, 0], nums(d, 6, 1))
      else if (sub == 1 or g.lanes > 0) cd(OP_SVAR, [d.s, dst, 0, if (g.lanes > 0) d.c % g.lanes else d.x.get(0) % (if (d.s % 3 == 0) U else 9)], nums(d, 6, 1))
      else { val l = distinct(d, sub - 1) cd(OP_SDATA, [d.s, dst, 0].concat(l), nums(d, 6, 1).concat(derivs(d, 7, l.length()))) }
    } else {
      val n = if (ty.sn >= 0) ty.sn else if (g.lanes == 0 and d.s % 6 == 0) (g.n + 1) % 4 else g.n
      val given = if (ty.sn < 0 or d.s % 2 == 0) n else ABSENT
      val sub = d.t % 10
      if (sub == 0) cd(OP_CONST, hd(d.s, dst, given, ty), nums(d, 6, 1))
      else if (sub == 1 and n > 0) cd(OP_VAR, hd(d.s, dst, given, ty).append(d.c % n), nums(d, 6, 1))
      else if (sub == 2) c1(OP_ZERO, hd(d.s, dst, given, ty))
      else if (g.lanes > 0) NOCALL
      else if (sub == 3) c1(OP_EMPTY, hd(d.s, dst, given, ty))
      else if (sub == 4 and ty.sn < 0) c1(OP_DEFAULT, hd(d.s, dst, ABSENT, ty))
      else if (sub == 5 and dst + n <= NREG) cd(OP_VARS, hd(0, dst, ABSENT, ty), nums(d, 6, n))
      else if (sub == 6 and ty.o == 1) cd(OP_GRAD, hd(d.s, dst, ABSENT, ty), nums(d, 0, 1).concat(derivs(d, 1, n)))
      else if (sub == 6) cd(OP_ARRS, hd(d.s, dst, ABSENT, ty).concat([n, n, n]), nums(d, 0, 1).concat(derivs(d, 1, n + n * n)))
      else cd(OP_DATA, hd(d.s, dst, ABSENT, ty), nums(d, 0, 1).concat(derivs(d, 1, len(ty, n) - 1)))
    }
  }
  pure def unary(s: St, g: Cfg, d: Dice): Call = {
    val op = pick(UNARY, d.u)
    cd(op, [d.s, d.d, pick(live(s), d.a)],
      if (op == OP_POW) [enc(pick(EXPO, d.t))] else if (op == OP_LOGB) [enc(pick(BASES, d.t))] else List())
  }
  pure def unaryc(s: St, g: Cfg, d: Dice): Call = cd(64 + d.u % 8, [d.s, d.d, pick(live(s), d.a)], nums(d, 0, 1))
  pure def binary(s: St, g: Cfg, d: Dice): Call = c1(pick(BINARY, d.u), [d.s, d.d, pick(live(s), d.a), pick(live(s), d.b)])
  pure def ternary(s: St, g: Cfg, d: Dice): Call = c1(OP_HYPOT3, [d.s, d.d, pick(live(s), d.a), pick(live(s), d.b), pick(live(s), d.c)])
  pure def inplace(s: St, g: Cfg, d: Dice): Call = c1(80 + d.u % 4, [d.s, pick(live(s), d.a), pick(live(s), d.b)])
  // In Python, += and -= by a plain number make a new object where *= and /= work in place: both are in-place operators
  // to their own name, so they are kept to objects without another one.
  pure def sole(s: St, a: int): bool =
    s.env.keys().filter(r => s.env.get(r) == s.env.get(a)).size() == 1 and not(viewed(s, a))
  pure def inplacec(s: St, g: Cfg, d: Dice): Call = {
    val a = pick(live(s), d.a)
    val op = 84 + d.u % 4
    if (op <= OP_ISUBC and not(sole(s, a))) NOCALL else cd(op, [d.s, a], nums(d, 0, 1))
  }
  pure def inplacee(s: St, g: Cfg, d: Dice): Call = {
    val b = pick(live(s), d.b)
    val o = obj(s, b)
    val a = pick(live(s), d.a)
    val op = 88 + d.u % 4
    if (not(dense(o)) or op <= OP_ISUBE and not(sole(s, a))) NOCALL
    else c1(op, [d.s, a, b, d.t % len(o.ty, o.n)])
  }
  pure def read(s: St, g: Cfg, d: Dice): Call = {
    val a = pick(live(s), d.a)
    val b = pick(live(s), d.b)
    val o = obj(s, a)
    val k = d.u % 6
    if (k == 0 and obj(s, b).ty == o.ty) c1(OP_CMP, [0, a, b])
    else if (k == 1) cd(OP_CMPC, [d.s % 3, a], if (d.t % 2 == 0) nums(d, 0, 1) else [word(o.w, 0)])
    else if (k == 2) c1(OP_TEXT, [d.s, a])
    else if (dense(o)) {
      if (k == 3) cd(OP_EVAL, [d.s, a], derivs(d, 0, o.n))
      else if (k == 4) c1(OP_INFO, [15, a])
      else if (o.ty.o == 2 and d.t % 3 == 0) c1(OP_HM, [0, a, d.t % 2])
      else c1(OP_VIEWS, [if (o.ty.o == 2) 123 else 67, a])
    }
    else if (k == 3) { val l = distinct(d, 3) cd(OP_EVAL, [0, a].concat(l), derivs(d, 4, l.length())) }
    else c1(OP_SGET, [0, a])
  }
  pure def write(s: St, g: Cfg, d: Dice): Call = {
    val a = pick(live(s), d.a)
    val o = obj(s, a)
    val n = o.n
    val k = d.u % 8
    if (not(dense(o))) NOCALL
    else if (k == 0) cd(OP_SETF, [d.s, a], nums(d, 0, 1))
    else if (k == 1 and n > 0) cd(OP_SETG, [d.s, a, d.t % n], derivs(d, 0, 1))
    else if (k == 2) cd(OP_SETALL, [d.s % 2, a, o.nw], nums(d, 0, 1).concat(derivs(d, 1, o.nw - 1)))
    else if (k == 3 and o.ty.o == 2 and n > 0) cd(OP_SETHIJ, [d.s, a, d.t % n, d.c % n], derivs(d, 0, 1))
    else if (k == 4 and o.ty.o == 2) cd(OP_SETHM, [d.s, a, n, n], derivs(d, 0, n * n))
    else if (k == 5 and o.ty.o == 2 and n > 0 and not(g.py)) cd(OP_SETH, [d.s, a, d.t % tri(n)], derivs(d, 0, 1))
    else if (k == 6 and d.t % 4 == 0 and not(g.py)) c1(OP_SETZERO, [0, a])
    else { val i = d.t % o.nw cd(OP_SETDATA, [d.s, a, i], if (i == 0) nums(d, 0, 1) else derivs(d, 0, 1)) }
  }
  pure def naming(s: St, g: Cfg, d: Dice): Call = {
    val a = pick(live(s), d.a)
    val k = d.u % 6
    if (k == 0 and live(s).length() > 2 and g.lanes == 0) c1(OP_FORGET, [a])
    else if (k <= 2 and g.py) c1(OP_BIND, [0, d.d, a])
    else if (g.py and g.ty.k == 1 or g.mixed) NOCALL
    else c1(OP_COPY, [d.s, d.d, a])
  }
  pure def holding(s: St, g: Cfg, d: Dice): Call = {
    val a = pick(live(s), d.a)
    val v = 20 + d.u % 2
    if (not(g.py)) NOCALL
    else if (s.views.keys().contains(v)) {
      val h = s.views.get(v)
      val o = s.heap.get(h.id)
      val m = if (h.sel == 0) o.nw else o.n
      if (d.t % 5 == 0) c1(OP_FORGET, [v])
      else if (m == 0) NOCALL
      else { val i = d.b % m cd(OP_HOLDSET, [0, v, i], if (i + h.sel == 0) nums(d, 0, 1) else derivs(d, 0, 1)) }
    }
    else if (dense(obj(s, a))) c1(OP_HOLD, [d.u % 2, v, a]) else NOCALL
  }
  pure def padding(s: St, g: Cfg, d: Dice): Call = {
    val a = pick(live(s), d.a)
    val o = obj(s, a)
    if (not(dense(o)) or o.ty.sn >= 0) NOCALL
    else if (d.u % 4 == 0 and not(viewed(s, a))) c1(OP_RESIZE, [0, a, d.t % 5 - (if (d.t == 3) 4 else 0)])
    else { val m = o.n + (if (d.t % 8 == 7) -1 else d.t % 3) if (m > 5) NOCALL else c1(if (d.u % 2 == 0) OP_PADL else OP_PADR, [d.s, d.d, a, m]) }
  }
  // calls that must be refused (those whose outcome the machine does not refuse are left out by the guard in step)
  pure def wrong(s: St, g: Cfg, d: Dice): Call = {
    val a = pick(live(s), d.a)
    val o = obj(s, a)
    val k = d.u % 8
    val free = g.py or o.ty.sn < 0
    if (not(dense(o))) NOCALL
    else if (k == 0) { val m = [-1, -3, o.n + 1, o.n + 2][d.t % 4] cd(OP_CONST, hd(d.s, d.d, m, o.ty), nums(d, 0, 1)) }
    else if (k == 1) c1(OP_ZERO, hd(d.s, d.d, [-1, -2, o.n + 1, 0][d.t % 4], o.ty))
    else if (k == 2 and free) { val m = d.t % 12 cd(OP_DATA, hd(if (m == 1) 0 else d.s, d.d, ABSENT, o.ty), nums(d, 0, m)) }
    else if (k == 3 and free) cd(OP_EVAL, [d.s, a], nums(d, 0, d.t % 5))
    else if (k == 4 and o.ty.o == 2) c1(OP_HM, [0, a, 2 + d.t % 4])
    else if (k == 5 and o.ty.o == 2 and free) cd(OP_SETHM, [d.s, a, d.t % 4 + 1, o.n], nums(d, 0, (d.t % 4 + 1) * o.n))
    else if (k == 6 and o.ty.sn < 0) c1(if (d.t % 2 == 0) OP_PADL else OP_PADR, [d.s, d.d, a, o.n - 1 - d.t % 3])
    else if (k == 7 and o.ty.sn < 0 and not(viewed(s, a))) c1(OP_RESIZE, [0, a, -1 - d.t % 3])
    else binary(s, g, d)
  }
  pure val MAPS: List[int] = [OP_NEG, OP_SQRT, OP_EXP, OP_SIN]
  pure def arrayed(s: St, g: Cfg, d: Dice): Call = {
    val l = live(s)
    val e = (d.d + 1) % NREG
    val k = d.u % 8
    if (g.mixed or g.ty.k == 1 and not(g.py)) NOCALL
    else if (k == 0) c1(OP_AMAP, [d.s, pick(MAPS, d.t), 2, d.d, e, pick(l, d.a), pick(l, d.b)])
    else if (k == 1) cd(OP_AMAP, [d.s, [OP_MULC, OP_CMUL, OP_DIVC][d.t % 3], 2, d.d, e, pick(l, d.a), pick(l, d.b)], nums(d, 0, 1))
    else if (k == 2) c1(OP_AZIP, [d.s, pick([OP_ADD, OP_SUB, OP_MUL, OP_DIV], d.t), 2, d.d, e, pick(l, d.a), pick(l, d.b), pick(l, d.c), pick(l, d.t)])
    else if (k == 3) c1(OP_AMATMUL, [d.s, 2, 1, 1, d.d, e, pick(l, d.a), pick(l, d.b), pick(l, d.c)])
    else if (k == 4) c1(OP_AMATMUL, [d.s, 1, 2, 1, d.d, pick(l, d.a), pick(l, d.b), pick(l, d.c), pick(l, d.t)])
    else if (k == 5) c1(if (d.t % 2 == 0) OP_ASUM else OP_APROD, [d.s, 3, d.d, pick(l, d.a), pick(l, d.b), pick(l, d.c)])
    else if (k == 6 and d.t % 3 == 0) c1(OP_ADET, [d.s, 2, d.d, pick(l, d.a), pick(l, d.b), pick(l, d.c), pick(l, d.t)])
    else if (k == 6) c1(OP_ANORM, [d.s, 2, d.d, pick(l, d.a), pick(l, d.b)])
    else if (g.py) {
      val op = [OP_MODF, OP_MODD, if (g.ty.k == 0 and g.ty.o == 2) OP_MODDD else OP_MODD][d.t % 3]
      // gradients of numbers of different sizes do not fit into one array
      if (op != OP_MODF and obj(s, pick(l, d.a)).n != obj(s, pick(l, d.b)).n) NOCALL else c1(op, [d.s, 1, 2, pick(l, d.a), pick(l, d.b)])
    }
    else c1(OP_ACROSS, [d.s, d.d, e, (d.d + 2) % NREG, pick(l, d.a), pick(l, d.b), pick(l, d.c), pick(l, d.t), pick(l, d.s), pick(l, d.u / 8)])
  }

  pure val K_CREATE: int = 0
  pure val K_UNARY: int = 1
  pure val K_UNARYC: int = 2
  pure val K_BINARY: int = 3
  pure val K_TERNARY: int = 4
  pure val K_INPL: int = 5
  pure val K_INPLC: int = 6
  pure val K_INPLE: int = 7
  pure val K_READ: int = 8
  pure val K_WRITE: int = 9
  pure val K_NAME: int = 10
  pure val K_HOLD: int = 11
  pure val K_PAD: int = 12
  pure val K_WRONG: int = 13
  pure val K_ARRAY: int = 14
  pure val K_END: int = 15

  pure def propose(s: St, g: Cfg, kind: int, d: Dice): Call = {
    val cnt = live(s).length()
    if (cnt == 0 and g.lanes > 0 and g.ty.k == 0)
      cd(OP_VARS, hd(0, 0, ABSENT, g.ty), nums(d, 0, g.lanes))
    else if (cnt < g.lanes and g.ty.k == 1) cd(OP_SVAR, [d.s, cnt, 0, cnt], nums(d, 0, 1))
    else if (cnt < 2 or kind == K_CREATE) create(s, g, d)
    else if (kind == K_UNARY) unary(s, g, d)
    else if (kind == K_UNARYC) unaryc(s, g, d)
    else if (kind == K_BINARY) binary(s, g, d)
    else if (kind == K_TERNARY) ternary(s, g, d)
    else if (kind == K_INPL) inplace(s, g, d)
    else if (kind == K_INPLC) inplacec(s, g, d)
    else if (kind == K_INPLE) inplacee(s, g, d)
    else if (kind == K_READ) read(s, g, d)
    else if (kind == K_WRITE) write(s, g, d)
    else if (kind == K_NAME) naming(s, g, d)
    else if (kind == K_HOLD) holding(s, g, d)
    else if (kind == K_PAD) padding(s, g, d)
    else if (kind == K_WRONG) wrong(s, g, d)
    else if (kind == K_ARRAY) arrayed(s, g, d)
    else if (g.lanes > 0) c1(OP_END, [0, pick(live(s), d.a)])
    else NOCALL
  }

  pure def outcome(s: St, g: Cfg, kind: int, sp: int, a: int, b: int, c: int, d: int, u: int, t: int, z: int): { st: St, call: Call, rej: bool } = {
    val p = propose(s, g, kind, { s: sp, a: a, b: b, c: c, d: d, u: u, t: t, x: 0.to(23).mapBy(j => (z / 24^j) % 24) })
    if (p.op == 0) { st: s, call: p, rej: false }
    else {
      val r = succ(s, p)
      if (r.ok) { st: r.st, call: p, rej: r.rej } else { st: s, call: NOCALL, rej: false }
    }
  }

  // ---- exploration
  var st: St
  var prev: St
  var call: Call
  var cfg: Cfg
  var todo: int                                       // calls left in the current history
  var refused: bool

  // flavours: 0 dense, 1 sparse, 2 mixed (Python)
  pure def config(flavour: int, o: int, k: int, py: bool, lanes: bool): Cfg = {
    val n = if (lanes) 1 + k % 3 else pick(SIZES, k / 2)
    val ty = if (flavour == 1) { k: 1, sc: 0, o: 1, sn: -1 } else { k: 0, sc: 0, o: o, sn: if (k % 2 == 0) n else -1 }
    { ty: ty, n: n, py: py or flavour == 2, mixed: flavour == 2, lanes: if (lanes) n else 0 }
  }
  action reset(flavours: Set[int], lanes: bool, calls: int): bool = {
    nondet f = flavours.oneOf()
    nondet o = 1.to(2).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet py = Set(true, false).oneOf()
    val g = config(f, o, k, py, lanes)
    all { st' = { ...st0, lanes: g.lanes }, prev' = st0, cfg' = g, todo' = calls, call' = { op: OP_RESET, I: [g.lanes], D: List() }, refused' = false }
  }
  action go(kinds: List[int]): bool = {
    nondet i = 0.to(kinds.length() - 1).oneOf()
    nondet s = 0.to(59).oneOf()
    nondet a = 0.to(3).oneOf()
    nondet b = 0.to(3).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    nondet u = 0.to(239).oneOf()
    nondet t = 0.to(119).oneOf()
    nondet z = 0.to(2^128).oneOf()
    val r = outcome(st, cfg, kinds[i], s, a, b, c, d, u, t, z)
    all { st' = r.st, prev' = st, call' = r.call, cfg' = cfg, todo' = todo - 1, refused' = r.rej }
  }
  action explore(kinds: List[int], flavours: Set[int], lanes: bool, calls: int): bool =
    if (todo == 0) reset(flavours, lanes, calls) else go(kinds)

  // histories for every build of the C++ library
  action initPlain = reset(Set(0, 1), false, 20)
  action stepPlain = explore(ALLK, Set(0, 1), false, 20)

  // profiles
  pure val ALLK: List[int] = [K_CREATE, K_CREATE, K_UNARY, K_UNARY, K_UNARYC, K_BINARY, K_BINARY, K_TERNARY, K_INPL, K_INPL, K_INPLC, K_INPLE, K_READ, K_READ,
    K_WRITE, K_WRITE, K_NAME, K_HOLD, K_PAD, K_WRONG, K_ARRAY]
  action initAll = reset(Set(0, 0, 1, 2), false, 24)
  action stepAll = explore(ALLK, Set(0, 1, 2), false, 24)
  action initDense = reset(Set(0), false, 24)
  action stepDense = explore(ALLK, Set(0), false, 24)
  action stepInplace = explore([K_CREATE, K_INPL, K_INPL, K_INPL, K_INPLC, K_INPLE, K_BINARY, K_NAME], Set(0, 1), false, 20)
  action stepViews = explore([K_CREATE, K_READ, K_READ, K_READ, K_WRITE, K_WRITE, K_WRITE, K_HOLD, K_HOLD, K_HOLD, K_INPL, K_NAME], Set(0), false, 24)
  action stepReject = explore([K_CREATE, K_BINARY, K_TERNARY, K_INPL, K_PAD, K_WRONG, K_WRONG, K_WRONG, K_READ], Set(0, 2), false, 20)
  action stepPad = explore([K_CREATE, K_PAD, K_PAD, K_PAD, K_BINARY, K_UNARY, K_INPL, K_READ], Set(0), false, 20)
  action initSparse = reset(Set(1), false, 20)
  action stepSparse = explore([K_CREATE, K_UNARY, K_UNARYC, K_BINARY, K_BINARY, K_TERNARY, K_INPL, K_INPLC, K_READ, K_NAME], Set(1), false, 20)
  action initProgram = reset(Set(0, 1), true, 20)
  action stepProgram = explore([K_CREATE, K_UNARY, K_UNARY, K_UNARY, K_UNARYC, K_BINARY, K_BINARY, K_BINARY, K_TERNARY, K_INPL, K_INPL, K_INPLC, K_NAME, K_END], Set(0, 1), true, 20)
  action stepArith = explore([K_CREATE, K_BINARY, K_BINARY, K_BINARY, K_UNARYC, K_UNARYC, K_WRITE, K_NAME], Set(0, 1), false, 20)
  action stepFunctions = explore([K_CREATE, K_UNARY, K_UNARY, K_UNARY, K_UNARY, K_WRITE], Set(0, 1), false, 20)
  action stepMulti = explore([K_CREATE, K_CREATE, K_BINARY, K_BINARY, K_TERNARY, K_WRITE], Set(0, 1), false, 20)
  action stepArrays = explore([K_CREATE, K_CREATE, K_ARRAY, K_ARRAY, K_ARRAY, K_INPL, K_BINARY], Set(0, 1), false, 20)

  // ---- what every reachable state satisfies
  pure def writer(op: int): bool = op >= 40 and op <= 50 and op != OP_HOLD or op >= 80 and op <= 91
  val wellFormed = st.heap.keys().forall(id => {
    val o = st.heap.get(id)
    and {
      o.nw == len(o.ty, o.n), o.v.length() == o.nw, o.n >= 0,
      o.ty.sn < 0 or o.n == o.ty.sn,
      o.ty.k == 0 or (o.n == o.nm.size() and 0.to(U - 1).forall(k => o.nm.contains(k) or o.v[1 + k] == 0)) }
  })
  // names and views refer to existing objects
  val referred = and {
    st.env.keys().forall(r => st.heap.keys().contains(st.env.get(r))),
    st.views.keys().forall(v => st.heap.keys().contains(st.views.get(v).id)) }
  // only in-place operators and setters change an existing object, and they change one at most; refused calls change nothing
  val framed = {
    val kept = prev.heap.keys().intersect(st.heap.keys())
    val changed = kept.filter(id => prev.heap.get(id) != st.heap.get(id))
    and {
      changed.size() <= 1,
      changed.size() == 0 or writer(call.op),
      not(refused) or st == prev,
      // what is created is new: no two names of it, no old id
      todo == 0 or st.nid >= prev.nid }
  }
  // tracked programs: contents agree with the derivatives of the composed function
  val composed = st.lanes == 0 or st.heap.keys().forall(id => checkEnd(st, st.heap.get(id)).ok)
}
