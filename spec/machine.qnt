// The system: named registers refer to number objects on a heap; kept array views refer to objects as well.
// effect() says what each operation of the library does to that state: which objects it creates, which it updates,
// what it returns and when it must refuse. Everything it does not mention must stay exactly as it is.
module machine {
  import fx.* from "./fx"
  import ops.* from "./ops"
  import layout.* from "./layout"
  import jets.* from "./jets"
  import text.* from "./text"

  // a number object: type, size, exact contents (w: nw bit patterns of 64 bits), decoded entries v, sp: some entry is
  // infinite, not a number or beyond the range of the model (see far), nm: names a sparse number carries, ln: lanes (independent meaning), empty if untracked
  type Obj = { ty: Ty, n: int, w: int, nw: int, v: List[int], sp: bool, nm: Set[int], ln: List[int] }
  type St = { env: int -> int, heap: int -> Obj, views: int -> { id: int, sel: int }, nid: int, lanes: int, amp: int }

  // what an object must be.  mode 0: entries v up to rounding against s; 1: exactly the patterns b (the values v for
  // extended precision); 2: contents unspecified; 3: only the value is specified
  type Exp = { ty: Ty, n: int, mode: int, v: List[int], s: List[int], b: List[int], nm: Set[int], ln: List[int] }
  // what a returned item must be
  type Ret = { mode: int, v: int, s: int, b: int }
  type Eff = {
    rej: bool,                                        // must be refused, leaving everything as it was
    mk: List[{ reg: int, e: Exp }],                   // registers bound to new objects
    up: List[{ id: int, e: Exp }],                    // objects updated in place
    al: List[{ dst: int, src: int }],                 // registers bound to existing objects
    hold: List[{ reg: int, id: int, sel: int }],      // array views handed out
    ret: List[Ret],                                   // returned items
    txt: int                                          // object whose text is returned, 0 otherwise
  }
  pure val NONE: Eff = { rej: false, mk: List(), up: List(), al: List(), hold: List(), ret: List(), txt: 0 }
  pure val REJECT: Eff = { ...NONE, rej: true }
  pure val BIAS: int = 2^32

  pure val st0: St = { env: Map(), heap: Map(), views: Map(), nid: 1, lanes: 0, amp: ONE }

  pure def obj(st: St, r: int): Obj = st.heap.get(st.env.get(r))
  pure def has(st: St, r: int): bool = st.env.keys().contains(r)
  pure def dense(o: Obj): bool = o.ty.k == 0
  // number of entries of an object of a type and size
  pure def len(ty: Ty, n: int): int = if (ty.k == 1) 1 + U else datalen(ty.o, n)
  pure def after(l: List[int], k: int): List[int] = l.slice(k, l.length())

  // ---- decoding
  pure def decodeAll(ws: List[int], sc: int): List[int] =
    if (sc < 2) ws.foldl(List(), (l, w) => l.append(if (w == 0 or isSpecial(w)) 0 else dec(w)))
    else range(0, ws.length() / 2).foldl(List(), (l, i) => l.append(if (isSpecial(ws[2 * i])) 0 else dec(ws[2 * i]) + dec(ws[2 * i + 1])))
  // some entry is infinite or not a number
  pure def infinite(ws: List[int]): bool = ws.foldl(false, (acc, w) => acc or isSpecial(w))
  // some entry is infinite, not a number, or so large or so small that the fixed point arithmetic would lose it
  // (beyond 2^160, below 2^-160)
  pure def farWord(w: int): bool = {
    val e = (w / 2^52) % 2048
    not(isZeroWord(w)) and (e < 863 or e > 1183)
  }
  pure def far(ws: List[int], sc: int): bool =
    if (sc < 2) ws.foldl(false, (acc, w) => if (acc or w == 0) acc else farWord(w))
    else range(0, ws.length() / 2).foldl(false, (acc, i) => acc or farWord(ws[2 * i]))
  pure def decAll(ws: List[int]): List[int] = decodeAll(ws, 0)
  pure def entries(o: Obj): List[int] = words(o.w, o.nw)
  // order-preserving integer image of a pattern that is not a NaN
  pure def key(w: int): int = if (w >= 2^63) -(w - 2^63) else w
  // the two patterns denote the same number (zeros of either sign agree, any NaN agrees with any NaN)
  pure def sameWord(a: int, b: int): bool = a == b or (isZeroWord(a) and isZeroWord(b)) or (isNaN(a) and isNaN(b))
  pure def flip(w: int): int = if (w >= 2^63) w - 2^63 else w + 2^63

  // one integer out of words, little endian
  pure def join(ws: List[int]): int =
    range(0, ws.length()).foldl(0, (acc, i) => acc + ws[i] * 2^(64 * i))

  // ---- expectations
  pure def expBits(ty: Ty, n: int, b: List[int], nm: Set[int], ln: List[int]): Exp =
    if (ty.sc < 2) { ty: ty, n: n, mode: 1, v: List(), s: List(), b: b, nm: nm, ln: ln }
    else {
      val d = decodeAll(b, 2)
      { ty: ty, n: n, mode: if (infinite(b)) 2 else 0, v: d, s: zeros(d.length()), b: List(), nm: nm, ln: ln }
    }
  pure def expFree(ty: Ty, n: int, nm: Set[int]): Exp =
    { ty: ty, n: n, mode: 2, v: List(), s: List(), b: List(), nm: nm, ln: List() }
  pure def limit(sc: int): int = if (sc == 1) 2^376 else 2^1256
  pure def expReal(ty: Ty, n: int, j: Jet, nm: Set[int], ln: List[int]): Exp =
    if (j.s.foldl(false, (acc, x) => acc or x >= limit(ty.sc))) expFree(ty, n, nm)
    else { ty: ty, n: n, mode: 0, v: j.v, s: j.s, b: List(), nm: nm, ln: ln }
  // exact real entries
  pure def expExact(ty: Ty, n: int, v: List[int], nm: Set[int], ln: List[int]): Exp =
    { ty: ty, n: n, mode: 0, v: v, s: zeros(v.length()), b: List(), nm: nm, ln: ln }
  // the same where the entries come from an extended precision number; an infinite one has no real entries
  pure def expKept(o: Obj, ty: Ty, n: int, v: List[int]): Exp =
    if (infinite(entries(o))) expFree(ty, n, o.nm) else expExact(ty, n, v, o.nm, List())
  // given double patterns as entries of a number of type ty
  pure def expWords(ty: Ty, n: int, b: List[int], nm: Set[int], ln: List[int]): Exp =
    if (ty.sc < 2) expBits(ty, n, b, nm, ln) else expExact(ty, n, decAll(b), nm, ln)

  pure def retBits(w: int): Ret = { mode: 1, v: 0, s: 0, b: w }
  pure def retInt(k: int): Ret = { mode: 1, v: 0, s: 0, b: BIAS + k }
  pure def retBool(b: bool): Ret = retInt(if (b) 1 else 0)
  pure def rets(l: List[int]): List[Ret] = l.foldl(List(), (acc, w) => acc.append(retBits(w)))

  // ---- helpers
  pure def mk1(reg: int, e: Exp): Eff = { ...NONE, mk: [{ reg: reg, e: e }] }
  pure def up1(st: St, reg: int, e: Exp): Eff = { ...NONE, up: [{ id: st.env.get(reg), e: e }] }
  pure def seedLanes(st: St, n: int, k: int, f: int): List[int] =
    if (st.lanes == n and n > 0) laneSeeds(n, k, f) else List()
  pure def constLanes(st: St, f: int): List[int] =
    if (st.lanes > 0) range(0, laneCount(st.lanes)).foldl(List(), (acc, _) => acc.append(f)) else List()

  // sizes: the size a construction results in, or -1 if it must be refused
  pure def sizeFor(ty: Ty, given: int): int =
    if (ty.sn >= 0) (if (given == ABSENT or given == ty.sn) ty.sn else -1)
    else if (given == ABSENT) 0 else if (given >= 0) given else -1
  pure def tyOf(I: List[int]): Ty = { k: I[3], sc: I[4], o: I[5], sn: I[6] }

  // ---- operations on operands (already looked up); a constant operand is an object made from a plain number
  pure def constObj(st: St, like: Obj, w: int): Obj = {
    val f = dec(w)
    { ...like, v: constantV(len(like.ty, like.n), f), sp: isSpecial(w), nm: Set(), ln: constLanes(st, f) }
  }
  pure def compatible(a: Obj, b: Obj): bool = a.ty == b.ty and (a.ty.k == 1 or a.n == b.n)
  // size of a sparse number is the number of its names
  pure def sz(a: Obj, nm: Set[int]): int = if (a.ty.k == 1) nm.size() else a.n
  pure def ord(a: Obj): int = if (a.ty.k == 1) 1 else a.ty.o

  pure def lanes1(op: int, l: List[int], c: int): List[int] = l.foldl(List(), (acc, x) => acc.append(val1(op, x, c)))
  pure def lanes2(op: int, a: List[int], b: List[int]): List[int] =
    if (a.length() != b.length()) List()
    else range(0, a.length()).foldl(List(), (acc, i) => acc.append(val2(op, a[i], b[i])))
  pure def lanes3(a: List[int], b: List[int], c: List[int]): List[int] =
    if (a.length() != b.length() or a.length() != c.length()) List()
    else range(0, a.length()).foldl(List(), (acc, i) => acc.append(hypot3(a[i], b[i], c[i])))

  // negation and absolute value are exact
  pure def isNegative(a: Obj): bool =
    if (a.ty.sc < 2) { val w = word(a.w, 0) not(isNaN(w)) and key(w) < 0 } else a.v[0] < 0
  pure def flipAll(a: Obj): List[int] = entries(a).foldl(List(), (acc, w) => acc.append(flip(w)))

  pure def ap1(op: int, a: Obj, cw: int): Exp = ap1v(op, a, if (isSpecial(cw)) 0 else dec(cw), isSpecial(cw))
  // single precision leaves little room for powers of the arguments: how they are ordered is up to the implementation
  pure def roomy(sc: int, x: int): bool = sc != 1 or x == 0 or (abs(x) >= 2^225 and abs(x) <= 2^287)
  pure def room1(op: int, sc: int, x: int): bool =
    op == OP_ADDC or op == OP_CADD or op == OP_SUBC or op == OP_CSUB or op == OP_MULC or op == OP_CMUL or roomy(sc, x)
  pure def room2(op: int, sc: int, x: int, y: int): bool =
    op == OP_ADD or op == OP_SUB or op == OP_MUL or (roomy(sc, x) and roomy(sc, y))
  // Beyond the range in which derivatives are predicted, the value still is the function of the operands' values:
  // these are finite, not tiny and not so large that powers of them overflow everywhere
  pure def big(sc: int): int = if (sc == 1) 2^346 else 2^1176
  pure def valued(a: Obj): bool = {
    val w = word(a.w, 0)
    val m = abs(a.v[0])
    isZeroWord(w) or (not(isSpecial(w)) and m >= 2^192 and m <= big(a.ty.sc))
  }
  pure def value1(op: int): bool =
    op == OP_SQRT or op == OP_CBRT or op == OP_LOG or op == OP_LOG2 or op == OP_LOG10 or op == OP_LOGB or op == OP_ATAN or
    op == OP_ASINH or op == OP_ACOSH or op == OP_TANH or op == OP_ADDC or op == OP_CADD or op == OP_SUBC or op == OP_CSUB or
    op == OP_MULC or op == OP_CMUL or op == OP_DIVC or op == OP_CDIV
  pure def expValue(ty: Ty, n: int, v: int, nm: Set[int]): Exp =
    if (abs(v) > (if (ty.sc == 1) 2^376 else 2^1256)) expFree(ty, n, nm)
    else { ty: ty, n: n, mode: 3, v: [v], s: [abs(v) + ONE], b: List(), nm: nm, ln: List() }
  pure def beyond1(op: int, a: Obj, c: int, csp: bool): Exp =
    if (csp or not(value1(op)) or not(valued(a)) or abs(c) > big(a.ty.sc)) expFree(a.ty, sz(a, a.nm), a.nm)
    else if (op == OP_TANH and abs(a.v[0]) > 300 * ONE) expValue(a.ty, sz(a, a.nm), sgn(a.v[0]) * ONE, a.nm)
    else if (domain1(op, a.v[0], c)) expValue(a.ty, sz(a, a.nm), val1(op, a.v[0], c), a.nm)
    else expFree(a.ty, sz(a, a.nm), a.nm)
  pure def beyond2(op: int, a: Obj, b: Obj, nm: Set[int]): Exp =
    if (valued(a) and valued(b) and domain2(op, a.v[0], b.v[0]) and not(op == OP_ATAN2 and onCut(a, b))) expValue(a.ty, sz(a, nm), val2(op, a.v[0], b.v[0]), nm)
    else expFree(a.ty, sz(a, nm), nm)
  pure def ap1v(op: int, a: Obj, c: int, csp: bool): Exp = {
    if (op == OP_NEG) expBits(a.ty, sz(a, a.nm), flipAll(a), a.nm, lanes1(op, a.ln, 0))
    else if (op == OP_ABS and a.ty.sc < 2 and isNaN(word(a.w, 0))) expFree(a.ty, sz(a, a.nm), a.nm)
    else if (op == OP_ABS)
      expBits(a.ty, sz(a, a.nm), if (isNegative(a)) flipAll(a) else entries(a), a.nm,
              if (a.v[0] == 0) List() else lanes1(op, a.ln, 0))
    else if (a.sp or csp or not(dom1(op, a.v[0], c)) or not(room1(op, a.ty.sc, a.v[0]))) beyond1(op, a, c, csp)
    else expReal(a.ty, sz(a, a.nm), jet1(op, ord(a), a.n, a.v, c), a.nm, lanes1(op, a.ln, c))
  }
  // the sign of zero decides between the two values of atan2 on its branch cut
  pure def onCut(a: Obj, b: Obj): bool = a.v[0] == 0 and b.v[0] < 0 and word(a.w, 0) != 0
  pure def ap2(op: int, a: Obj, b: Obj): Exp = {
    val nm = a.nm.union(b.nm)
    if (a.sp or b.sp or not(dom2(op, a.v[0], b.v[0])) or not(room2(op, a.ty.sc, a.v[0], b.v[0])) or (op == OP_ATAN2 and onCut(a, b))) beyond2(op, a, b, nm)
    else expReal(a.ty, sz(a, nm), jet2(op, ord(a), a.n, a.v, b.v), nm, lanes2(op, a.ln, b.ln))
  }
  pure def ap3(a: Obj, b: Obj, c: Obj): Exp = {
    val nm = a.nm.union(b.nm).union(c.nm)
    if (a.sp or b.sp or c.sp or not(roomy(a.ty.sc, a.v[0]) and roomy(a.ty.sc, b.v[0]) and roomy(a.ty.sc, c.v[0])) or not(inRange(a.v[0]) and inRange(b.v[0]) and inRange(c.v[0])) or (a.v[0] == 0 and b.v[0] == 0 and c.v[0] == 0))
      (if (valued(a) and valued(b) and valued(c)) expValue(a.ty, sz(a, nm), hypot3(a.v[0], b.v[0], c.v[0]), nm) else expFree(a.ty, sz(a, nm), nm))
    else expReal(a.ty, sz(a, nm), jet3(ord(a), a.n, a.v, b.v, c.v), nm, lanes3(a.ln, b.ln, c.ln))
  }

  // ---- array operands: a reference >= 1000 is a plain number
  type Opd = { plain: bool, w: int, r: int }
  pure def opd(ref: int, D: List[int]): Opd = if (ref >= 1000) { plain: true, w: D[ref - 1000], r: 0 } else { plain: false, w: 0, r: ref }
  // intermediate results of array expressions: entries and magnitudes; no type: plain number
  type Mid = { plain: bool, v: List[int], s: List[int] }
  pure def mid(st: St, o: Opd, like: Obj): Mid =
    if (o.plain) { v: constantV(len(like.ty, like.n), dec(o.w)), s: zeros(len(like.ty, like.n)), plain: true }
    else { val x = obj(st, o.r) { plain: false, v: x.v, s: zeros(x.v.length()) } }
  // product and sum with magnitudes carried along
  pure def midMul(like: Obj, a: Mid, b: Mid): Mid = {
    val j = jet2(OP_MUL, ord(like), like.n, a.v, b.v)
    { plain: a.plain and b.plain, v: j.v, s: j.s }
  }
  pure def midAdd(a: Mid, b: Mid, sg: int): Mid =
    range(0, a.v.length()).foldl({ plain: a.plain and b.plain, v: List(), s: List() }, (acc, i) =>
      { ...acc, v: acc.v.append(a.v[i] + sg * b.v[i]), s: acc.s.append(a.s[i] + b.s[i] + abs(a.v[i]) + abs(b.v[i])) })
  // product of operands that are results themselves
  pure def midMulR(like: Obj, a: Mid, b: Mid): Mid = {
    val o = ord(like)
    val j = jet2(OP_MUL, o, like.n, a.v, b.v)
    val ja = jet2(OP_MUL, o, like.n, a.s, b.v)
    val jb = jet2(OP_MUL, o, like.n, a.v, b.s)
    { plain: a.plain and b.plain, v: j.v, s: range(0, j.s.length()).foldl(List(), (acc, i) => acc.append(j.s[i] + ja.s[i] + jb.s[i])) }
  }
  pure def midExp(st: St, like: Obj, m: Mid, nm: Set[int]): Exp =
    expReal(like.ty, sz(like, nm), { v: m.v, s: m.s }, nm, List())
  pure def namesOf(st: St, refs: List[int]): Set[int] =
    refs.foldl(Set(), (acc, r) => if (r >= 1000) acc else acc.union(obj(st, r).nm))
  pure def firstObj(st: St, refs: List[int]): Obj =
    obj(st, refs.foldl({ ok: false, r: 0 }, (acc, r) => if (acc.ok or r >= 1000) acc else { ok: true, r: r }).r)
  pure def anySpecial(st: St, refs: List[int], D: List[int]): bool =
    refs.foldl(false, (acc, r) => acc or (if (r >= 1000) isSpecial(D[r - 1000]) else obj(st, r).sp))
  pure def allCompatible(st: St, refs: List[int]): bool = {
    val like = firstObj(st, refs)
    refs.foldl(true, (ok, r) => ok and (r >= 1000 or compatible(like, obj(st, r))))
  }
  pure def dotExp(st: St, like: Obj, as: List[int], bs: List[int], D: List[int], nm: Set[int]): Exp = {
    val m = range(1, as.length()).foldl(midMul(like, mid(st, opd(as[0], D), like), mid(st, opd(bs[0], D), like)), (acc, i) =>
      midAdd(acc, midMul(like, mid(st, opd(as[i], D), like), mid(st, opd(bs[i], D), like)), 1))
    midExp(st, like, m, nm)
  }

  // ---- comparisons: == != < > <= >=
  pure def cmp6(nan: bool, x: int, y: int): List[Ret] =
    [retBool(not(nan) and x == y), retBool(nan or x != y), retBool(not(nan) and x < y), retBool(not(nan) and x > y),
     retBool(not(nan) and x <= y), retBool(not(nan) and x >= y)]
  pure def cmpObjs(a: Obj, b: Obj): List[Ret] =
    if (a.ty.sc < 2) { val x = word(a.w, 0) val y = word(b.w, 0) cmp6(isNaN(x) or isNaN(y), key(x), key(y)) }
    else cmp6(false, a.v[0], b.v[0])

  // ---- all views of a dense number as bit patterns: sections chosen by the mask
  pure def grp(o: Obj, k: int): List[int] =
    if (o.ty.sc == 2) [word(o.w, 2 * k), word(o.w, 2 * k + 1)] else [word(o.w, k)]
  pure def hmOf(o: Obj, full: bool): List[int] =
    range(0, o.n).foldl(List(), (l, i) => range(0, o.n).foldl(l, (acc, j) =>
      if (full or i <= j) acc.concat(grp(o, didx(o.n, i, j))) else acc.concat(if (o.ty.sc == 2) [0, 0] else [0])))
  pure def viewWords(o: Obj, mask: int): List[int] = {
    val e = entries(o)
    val m = if (o.ty.sc == 2) 2 else 1
    val none: List[int] = List()
    val s1 = if (mask % 2 == 1) e.slice(0, m) else none
    val s2 = if ((mask / 2) % 2 == 1) e.slice(m, m * (1 + o.n)) else none
    val s3 = if ((mask / 4) % 2 == 1) e.slice(m * (1 + o.n), e.length()) else none
    val s4 = if ((mask / 8) % 2 == 1) hmOf(o, true) else none
    val s5 = if ((mask / 16) % 2 == 1) hmOf(o, true) else none
    val s6 = if ((mask / 32) % 2 == 1) hmOf(o, false) else none
    val s7 = if ((mask / 64) % 2 == 1) e else none
    val s8 = if ((mask / 128) % 2 == 1) e.slice(m, m * (1 + o.n)) else none
    s1.concat(s2).concat(s3).concat(s4).concat(s5).concat(s6).concat(s7).concat(s8)
  }

  // contents with entry k replaced by the double pattern x
  pure def replaced(o: Obj, k: int, x: int): Exp =
    if (o.ty.sc < 2) expBits(o.ty, o.n, entries(o).replaceAt(k, x), o.nm, List())
    else expKept(o, o.ty, o.n, o.v.replaceAt(k, dec(x)))
  pure def replacedMany(o: Obj, ks: List[int], xs: List[int]): Exp =
    if (o.ty.sc < 2) expBits(o.ty, o.n, range(0, ks.length()).foldl(entries(o), (l, t) => l.replaceAt(ks[t], xs[t])), o.nm, List())
    else expKept(o, o.ty, o.n, range(0, ks.length()).foldl(o.v, (l, t) => l.replaceAt(ks[t], dec(xs[t]))))

  pure val ONEW: int = 0x3ff0000000000000
  pure def seedWords(count: int, k: int, f: int): List[int] =
    range(0, count).foldl(List(), (acc, i) => acc.append(if (i == 0) f else if (i == 1 + k) ONEW else 0))

  // ---- the transition function
  pure def construct(st: St, op: int, I: List[int], D: List[int]): Eff = {
    val ty = tyOf(I)
    val n = sizeFor(ty, I[2])
    if (op == OP_ZERO or op == OP_DEFAULT)
      (if (n < 0) REJECT else mk1(I[1], expWords(ty, n, zeros(len(ty, n)), Set(), constLanes(st, 0))))
    else if (op == OP_EMPTY) (if (n < 0) REJECT else mk1(I[1], expFree(ty, n, Set())))
    else if (op == OP_CONST)
      (if (n < 0) REJECT else mk1(I[1], expWords(ty, n, seedWords(len(ty, n), -9, D[0]), Set(), constLanes(st, dec(D[0])))))
    else if (op == OP_VAR)
      (if (n < 0 or I[7] >= n) REJECT
       else mk1(I[1], expWords(ty, n, seedWords(len(ty, n), I[7], D[0]), Set(), seedLanes(st, n, I[7], dec(D[0])))))
    else if (op == OP_VARS) {
      val m = D.length()
      if (ty.sn >= 0 and m != ty.sn) REJECT
      else { ...NONE, mk: range(0, m).foldl(List(), (acc, k) => acc.append({ reg: I[1] + k,
        e: expWords(ty, m, seedWords(len(ty, m), k, D[k]), Set(), seedLanes(st, m, k, dec(D[k]))) })) }
    }
    else if (op == OP_DATA) {
      val m = sizeOfLen(ty.o, D.length())
      if (m < 0 or (ty.sn >= 0 and m != ty.sn)) REJECT else mk1(I[1], expWords(ty, m, D, Set(), List()))
    }
    else if (op == OP_GRAD) {
      val m = D.length() - 1
      if (ty.o != 1 or (ty.sn >= 0 and m != ty.sn)) REJECT else mk1(I[1], expWords(ty, m, D, Set(), List()))
    }
    else {
      // OP_ARRS: value, gradient, Hessian matrix (upper triangle)
      val m = I[7]
      val rows = I[8]
      val cols = I[9]
      if (ty.o != 2 or rows != m or cols != m or (ty.sn >= 0 and m != ty.sn)) REJECT
      else mk1(I[1], expWords(ty, m, pairs(m).foldl(D.slice(0, 1 + m), (acc, e) => acc.append(D[1 + m + e.i * m + e.j])), Set(), List()))
    }
  }

  pure def modvars(st: St, I: List[int], D: List[int]): Eff = {
    val m = D.length()
    if (I[2] < 0 or I[2] > 2) REJECT
    else if (I[2] == 0) { ...NONE, ret: rets(D) }
    else {
      val ty = { k: 0, sc: 0, o: I[2], sn: if (m <= 15) m else -1 }
      { ...NONE, mk: range(0, m).foldl(List(), (acc, k) => acc.append({ reg: I[1] + k,
        e: expWords(ty, m, seedWords(len(ty, m), k, D[k]), Set(), seedLanes(st, m, k, dec(D[k]))) })) }
    }
  }

  pure def sparseNew(st: St, op: int, I: List[int], D: List[int]): Eff = {
    val ty = { k: 1, sc: I[2], o: 1, sn: -1 }
    if (op == OP_SCONST) mk1(I[1], expWords(ty, 0, seedWords(1 + U, -9, D[0]), Set(), constLanes(st, dec(D[0]))))
    else if (op == OP_SVAR)
      mk1(I[1], expWords(ty, 1, seedWords(1 + U, I[3], D[0]), Set(I[3]),
        if (st.lanes > I[3]) laneSeeds(st.lanes, I[3], dec(D[0])) else List()))
    else {
      val names = after(I, 3)
      val b = range(0, names.length()).foldl(zeros(1 + U).replaceAt(0, D[0]), (l, t) => l.replaceAt(1 + names[t], D[1 + t]))
      val nm = names.foldl(Set(), (acc, x) => acc.union(Set(x)))
      mk1(I[1], expWords(ty, nm.size(), b, nm, List()))
    }
  }

  pure def reading(st: St, op: int, I: List[int], D: List[int]): Eff = {
    val a = obj(st, I[1])
    if (op == OP_VIEWS) { ...NONE, ret: rets(viewWords(a, I[0])) }
    else if (op == OP_INFO) {
      val l = [a.ty.o, if (a.ty.sn < 0) 1 else 0, a.n, len(a.ty, a.n), a.ty.sn]
      { ...NONE, ret: range(0, 5).foldl(List(), (acc, k) => if ((I[0] / 2^k) % 2 == 1) acc.append(retInt(l[k])) else acc) }
    }
    else if (op == OP_TEXT) { ...NONE, txt: st.env.get(I[1]) }
    else if (op == OP_EVAL) {
      if (dense(a)) {
        if (D.length() != a.n) REJECT
        else if (a.sp) { ...NONE, ret: [{ mode: 2, v: 0, s: 0, b: 0 }] }
        else { val r = evalDense(a.ty.o, a.n, a.v, decAll(D)) { ...NONE, ret: [{ mode: 0, v: r.v, s: r.s, b: 0 }] } }
      } else {
        val names = after(I, 2)
        val r = range(0, names.length()).foldl({ v: 0, s: 0 }, (acc, t) =>
          if (names[t] >= U or not(a.nm.contains(names[t]))) acc
          else { val x = mul(a.v[1 + names[t]], dec(D[t])) { v: acc.v + x, s: acc.s + abs(x) } })
        { ...NONE, ret: [{ mode: if (a.sp) 2 else 0, v: r.v, s: r.s, b: 0 }] }
      }
    }
    else if (op == OP_SGET) {
      val e = entries(a)
      val zero = if (a.ty.sc == 2) [0, 0] else [0]
      { ...NONE, ret: [retInt(a.n)].concat(rets(e)).concat(rets(zero)).concat([retInt(a.n)]) }
    }
    else if (op == OP_CMP) {
      val b = obj(st, I[2])
      if (a.ty != b.ty) REJECT else { ...NONE, ret: cmpObjs(a, b) }
    }
    else if (op == OP_CMPC) {
      val x = word(a.w, 0)
      val y = D[0]
      if (a.ty.sc < 2) {
        val nan = isNaN(x) or isNaN(y)
        { ...NONE, ret: cmp6(nan, key(x), key(y)).concat(cmp6(nan, key(y), key(x))) }
      } else { ...NONE, ret: cmp6(false, a.v[0], dec(y)).concat(cmp6(false, dec(y), a.v[0])) }
    }
    else {
      // OP_HM
      if (I[2] >= 2 or (I.length() > 3 and (I[3] != a.n or I[4] != a.n))) REJECT else { ...NONE, ret: rets(hmOf(a, I[2] == 0)) }
    }
  }

  pure def writing(st: St, op: int, I: List[int], D: List[int]): Eff = {
    if (op == OP_HOLD) { ...NONE, hold: [{ reg: I[1], id: st.env.get(I[2]), sel: I[0] }] }
    else if (op == OP_HOLDSET) {
      val h = st.views.get(I[1])
      { ...NONE, up: [{ id: h.id, e: replaced(st.heap.get(h.id), I[2] + h.sel, D[0]) }] }
    }
    else {
      val a = obj(st, I[1])
      if (op == OP_SETF) up1(st, I[1], replaced(a, 0, D[0]))
      else if (op == OP_SETG) up1(st, I[1], replaced(a, 1 + I[2], D[0]))
      else if (op == OP_SETH) up1(st, I[1], replaced(a, 1 + a.n + I[2], D[0]))
      else if (op == OP_SETHIJ) up1(st, I[1], replaced(a, didx(a.n, I[2], I[3]), D[0]))
      else if (op == OP_SETHM) {
        if (I[2] != a.n or I[3] != a.n) REJECT
        else up1(st, I[1], replacedMany(a, range(1 + a.n, datalen(2, a.n)),
          pairs(a.n).foldl(List(), (acc, e) => acc.append(D[e.i * a.n + e.j]))))
      }
      else if (op == OP_SETDATA) up1(st, I[1], replaced(a, I[2], D[0]))
      else if (op == OP_SETALL and D.length() != len(a.ty, a.n)) REJECT
      else if (op == OP_SETALL) up1(st, I[1], expWords(a.ty, a.n, D, Set(), List()))
      else if (op == OP_SETZERO) up1(st, I[1], expWords(a.ty, a.n, zeros(len(a.ty, a.n)), Set(), constLanes(st, 0)))
      else {
        // OP_RESIZE: only the size and data length are specified
        if (I[2] < 0) REJECT else up1(st, I[1], expFree(a.ty, I[2], Set()))
      }
    }
  }

  pure def arrays(st: St, op: int, I: List[int], D: List[int]): Eff =
    if (op == OP_AMAP) {
      val cnt = I[2]
      { ...NONE, mk: range(0, cnt).foldl(List(), (acc, t) =>
        acc.append({ reg: I[3 + t], e: { ...ap1(I[1], obj(st, I[3 + cnt + t]), if (D.length() > 0) D[0] else 0), ln: List() } })) }
    }
    else if (op == OP_AZIP) {
      val cnt = I[2]
      val refs = after(I, 3 + cnt)
      // entry by entry: different entries may have different sizes
      if (range(0, cnt).foldl(false, (bad, t) => bad or not(allCompatible(st, [refs[t], refs[cnt + t]])))) REJECT
      else {
        { ...NONE, mk: range(0, cnt).foldl(List(), (acc, t) => {
          val ra = opd(refs[t], D)
          val rb = opd(refs[cnt + t], D)
          val like = firstObj(st, [refs[t], refs[cnt + t]])
          val a = if (ra.plain) constObj(st, like, ra.w) else obj(st, ra.r)
          val b = if (rb.plain) constObj(st, like, rb.w) else obj(st, rb.r)
          acc.append({ reg: I[3 + t], e: { ...ap2(I[1], a, b), ln: List() } }) }) }
      }
    }
    else if (op == OP_AMATMUL) {
      val m = I[1]
      val k = I[2]
      val n = I[3]
      val as = I.slice(4 + m * n, 4 + m * n + m * k)
      val bs = after(I, 4 + m * n + m * k)
      val refs = as.concat(bs)
      if (not(allCompatible(st, refs))) REJECT
      else {
        val like = firstObj(st, refs)
        val free = anySpecial(st, refs, D)
        { ...NONE, mk: range(0, m).foldl(List(), (l, i) => range(0, n).foldl(l, (acc, j) => {
          val ra = as.slice(i * k, (i + 1) * k)
          val rb = range(0, k).foldl(List(), (x, t) => x.append(bs[t * n + j]))
          val nm = namesOf(st, ra.concat(rb))
          acc.append({ reg: I[4 + i * n + j], e: if (free) expFree(like.ty, sz(like, nm), nm) else dotExp(st, like, ra, rb, D, nm) }) })) }
      }
    }
    else if (op == OP_ASUM) {
      val refs = after(I, 3)
      if (not(allCompatible(st, refs))) REJECT
      else {
        val like = firstObj(st, refs)
        val nm = namesOf(st, refs)
        if (anySpecial(st, refs, D)) mk1(I[2], expFree(like.ty, sz(like, nm), nm))
        else mk1(I[2], midExp(st, like, range(1, refs.length()).foldl(mid(st, opd(refs[0], D), like),
          (acc, t) => midAdd(acc, mid(st, opd(refs[t], D), like), 1)), nm))
      }
    }
    else if (op == OP_APROD) {
      val refs = after(I, 3)
      if (not(allCompatible(st, refs))) REJECT
      else {
        val like = firstObj(st, refs)
        val nm = namesOf(st, refs)
        if (anySpecial(st, refs, D)) mk1(I[2], expFree(like.ty, sz(like, nm), nm))
        else mk1(I[2], midExp(st, like, range(1, refs.length()).foldl(mid(st, opd(refs[0], D), like),
          (acc, t) => midMulR(like, acc, mid(st, opd(refs[t], D), like))), nm))
      }
    }
    else if (op == OP_ADET) {
      val k = I[1]
      val refs = after(I, 3)
      if (not(allCompatible(st, refs))) REJECT
      else {
        val like = firstObj(st, refs)
        val nm = namesOf(st, refs)
        val m = range(0, refs.length()).foldl(List(), (acc, t) => acc.append(mid(st, opd(refs[t], D), like)))
        if (anySpecial(st, refs, D)) mk1(I[2], expFree(like.ty, sz(like, nm), nm))
        else mk1(I[2], midExp(st, like,
          if (k == 2) midAdd(midMul(like, m[0], m[3]), midMul(like, m[1], m[2]), -1)
          else {
            def cof(i: int, j: int): Mid = midAdd(midMul(like, m[3 + i], m[6 + j]), midMul(like, m[3 + j], m[6 + i]), -1)
            midAdd(midAdd(midMulR(like, m[0], cof(1, 2)), midMulR(like, m[1], cof(0, 2)), -1), midMulR(like, m[2], cof(0, 1)), 1)
          }, nm))
      }
    }
    else if (op == OP_ACROSS) {
      val refs = after(I, 4)
      if (not(allCompatible(st, refs))) REJECT
      else {
        val like = firstObj(st, refs)
        { ...NONE, mk: range(0, 3).foldl(List(), (acc, t) => {
          val i = (t + 1) % 3
          val j = (t + 2) % 3
          val used = [refs[i], refs[3 + j], refs[j], refs[3 + i]]
          val nm = namesOf(st, used)
          acc.append({ reg: I[1 + t], e:
            if (anySpecial(st, used, D)) expFree(like.ty, sz(like, nm), nm)
            else midExp(st, like, midAdd(midMul(like, mid(st, opd(refs[i], D), like), mid(st, opd(refs[3 + j], D), like)),
                                         midMul(like, mid(st, opd(refs[j], D), like), mid(st, opd(refs[3 + i], D), like)), -1), nm) }) }) }
      }
    }
    else if (op == OP_ANORM) {
      val refs = after(I, 3)
      if (not(allCompatible(st, refs))) REJECT
      else {
        val like = firstObj(st, refs)
        val nm = namesOf(st, refs)
        val m = refs.slice(1, refs.length()).foldl(midMul(like, mid(st, opd(refs[0], D), like), mid(st, opd(refs[0], D), like)),
          (acc, r) => midAdd(acc, midMul(like, mid(st, opd(r, D), like), mid(st, opd(r, D), like)), 1))
        if (anySpecial(st, refs, D) or m.v[0] == 0) mk1(I[2], expFree(like.ty, sz(like, nm), nm))
        else {
          // the square root's rule on the magnitudes bounds the rounding of the composed expression
          val k = kern1(OP_SQRT, m.v[0], 0)
          val j = chain1(ord(like), like.n, m.v, k)
          val js = chain1(ord(like), like.n, m.s, { ...k, f: k.kf, p: k.kp, q: k.kq })
          mk1(I[2], expReal(like.ty, sz(like, nm), { v: j.v, s: js.v }, nm, List()))
        }
      }
    }
    else if (op == OP_ACMP) {
      val cnt = I[1]
      { ...NONE, ret: range(0, cnt).foldl(List(), (acc, t) => acc.concat(cmpObjs(obj(st, I[2 + t]), obj(st, I[2 + cnt + t])))) }
    }
    else {
      // extraction helpers
      val nd = I[1]
      val shape = I.slice(2, 2 + nd)
      val refs = after(I, 2 + nd)
      val plain = refs.foldl(true, (ok, r) => ok and r >= 1000)
      if (op == OP_MODF) {
        { ...NONE, ret: [retInt(nd)].concat(shape.foldl(List(), (acc, x) => acc.append(retInt(x))))
          .concat(refs.foldl(List(), (acc, r) => acc.append(retBits(if (r >= 1000) D[r - 1000] else word(obj(st, r).w, 0))))) }
      } else {
        val n = if (plain) 0 else {
          val o = firstObj(st, refs)
          if (o.ty.k == 1 or (op == OP_MODDD and o.ty.o < 2)) 0 else o.n }
        val ext = if (op == OP_MODD) [n] else [n, n]
        val sh = shape.concat(ext)
        { ...NONE, ret: [retInt(sh.length())].concat(sh.foldl(List(), (acc, x) => acc.append(retInt(x))))
          .concat(if (n == 0) List() else refs.foldl(List(), (acc, r) =>
            acc.concat(rets(if (op == OP_MODD) entries(obj(st, r)).slice(1, 1 + n) else hmOf(obj(st, r), true)))) ) }
      }
    }

  // the operation a += b abbreviates
  pure def outOf(op: int): int =
    if (op == OP_IADD) OP_ADD else if (op == OP_ISUB) OP_SUB else if (op == OP_IMUL) OP_MUL else if (op == OP_IDIV) OP_DIV
    else if (op == OP_IADDC) OP_ADDC else if (op == OP_ISUBC) OP_SUBC else if (op == OP_IMULC) OP_MULC else OP_DIVC

  pure def effect(st: St, op: int, I: List[int], D: List[int]): Eff =
    if (op >= 60 and op <= 63 or op == OP_ATAN2 or op == OP_HYPOT) {
      val a = obj(st, I[2])
      val b = obj(st, I[3])
      if (not(compatible(a, b))) REJECT else mk1(I[1], ap2(op, a, b))
    }
    else if (op >= 64 and op <= 73 or op >= 100 and op <= 120)
      mk1(I[1], ap1(op, obj(st, I[2]), if (D.length() > 0) D[0] else 0))
    else if (op >= 80 and op <= 83) {
      val a = obj(st, I[1])
      val b = obj(st, I[2])
      if (not(compatible(a, b))) REJECT else up1(st, I[1], ap2(outOf(op), a, b))
    }
    else if (op >= 84 and op <= 87) up1(st, I[1], ap1(outOf(op), obj(st, I[1]), D[0]))
    else if (op >= 88 and op <= 91) {
      val b = obj(st, I[2])
      val e = ap1v(outOf(op - 4), obj(st, I[1]), b.v[I[3]], b.sp)
      up1(st, I[1], { ...e, ln: List() })
    }
    else if (op == OP_HYPOT3) {
      val a = obj(st, I[2])
      val b = obj(st, I[3])
      val c = obj(st, I[4])
      if (not(compatible(a, b)) or not(compatible(a, c))) REJECT else mk1(I[1], ap3(a, b, c))
    }
    else if (op == OP_COPY) { val a = obj(st, I[2]) mk1(I[1], expBits(a.ty, a.n, entries(a), a.nm, a.ln)) }
    else if (op == OP_BIND) { ...NONE, al: [{ dst: I[1], src: I[2] }] }
    else if (op >= 10 and op <= 18) construct(st, op, I, D)
    else if (op == OP_MODVARS) modvars(st, I, D)
    else if (op >= 20 and op <= 22) sparseNew(st, op, I, D)
    else if (op == OP_PADL or op == OP_PADR) {
      val a = obj(st, I[2])
      if (a.ty.sn >= 0 or I[3] < a.n) REJECT
      else if (a.ty.sc == 2) mk1(I[1], expKept(a, a.ty, I[3], if (op == OP_PADL) padLeft(a.ty.o, a.n, I[3], a.v) else padRight(a.ty.o, a.n, I[3], a.v)))
      else mk1(I[1], expBits(a.ty, I[3], if (op == OP_PADL) padLeft(a.ty.o, a.n, I[3], entries(a)) else padRight(a.ty.o, a.n, I[3], entries(a)), Set(), List()))
    }
    else if (op == OP_SIZEOF) {
      if (I[2] == 0) { ...NONE, ret: [retInt(datalen(I[1], I[3]))] }
      else { val s = sizeOfLen(I[1], I[3]) if (s < 0) REJECT else { ...NONE, ret: [retInt(s)] } }
    }
    else if (op >= 30 and op <= 36 or op == OP_HM) reading(st, op, I, D)
    else if (op >= 40 and op <= 50) writing(st, op, I, D)
    else if (op >= 140 and op <= 151) arrays(st, op, I, D)
    else NONE                                          // OP_RESET, OP_FORGET, OP_END: see trace

  // ---- the state after an operation, given the contents adopted for new and updated objects
  pure def rebind(st: St, eff: Eff): St = {
    val s1 = eff.mk.foldl(st, (s, m) => { ...s, env: s.env.put(m.reg, s.nid), nid: s.nid + 1 })
    val s2 = eff.al.foldl(s1, (s, m) => { ...s, env: s.env.put(m.dst, st.env.get(m.src)) })
    eff.hold.foldl(s2, (s, m) => { ...s, views: s.views.put(m.reg, { id: m.id, sel: m.sel }) })
  }
  // expected contents of new and updated objects by id
  pure def expected(st: St, eff: Eff): int -> Exp = {
    val a = eff.mk.foldl({ m: Map(), nid: st.nid }, (acc, x) => { m: acc.m.put(acc.nid, x.e), nid: acc.nid + 1 }).m
    eff.up.foldl(a, (acc, x) => acc.put(x.id, x.e))
  }
  // a name or view disappears
  pure def forgotten(st: St, r: int): St = { ...st, env: st.env.keys().exclude(Set(r)).mapBy(k => st.env.get(k)),
    views: st.views.keys().exclude(Set(r)).mapBy(k => st.views.get(k)) }
  // drop what nothing refers to
  pure def collect(st: St): St = {
    val live = st.env.keys().map(r => st.env.get(r)).union(st.views.keys().map(r => st.views.get(r).id))
    { ...st, heap: live.mapBy(id => st.heap.get(id)) }
  }

  // derivatives of a program's result against central differences of its value semantics
  pure def checkEnd(st: St, o: Obj): { ok: bool, info: List[int] } =
    if (o.ln.length() == 0 or o.sp) { ok: true, info: List() }
    else {
      val n = st.lanes
      val x = if (o.ty.k == 1) o.v.slice(0, 1 + n) else o.v
      val m = fromLanes(if (o.ty.k == 1) 1 else o.ty.o, n, o.ln)
      val tol = (st.amp + ONE) / (if (o.ty.sc == 1) 2^6 else 2^22)
      range(0, x.length()).foldl({ ok: true, info: List() }, (acc, i) =>
        if (not(acc.ok) or abs(x[i] - m[i]) <= tol) acc else { ok: false, info: [i, x[i], m[i]] })
    }
}
