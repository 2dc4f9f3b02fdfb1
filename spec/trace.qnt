// Validation of recorded executions: every recorded call must be a step of the machine.
module trace {
  import fx.* from "./fx"
  import ops.* from "./ops"
  import layout.* from "./layout"
  import jets.* from "./jets"
  import text.* from "./text"
  import machine.* from "./machine"

  // an observed object: kind 0 dense, 1 sparse, 2 array view
  type Seen = { reg: int, kind: int, ty: Ty, n: int, nw: int, w: int }
  type Ev = { op: int, out: int, I: List[int], D: List[int], R: List[int], O: List[Seen] }

  // ---- decoding of one event from its words (little endian in one integer)
  pure def slice64(b: int, at: int, cnt: int): int = (b / (2^(64 * at))) % (2^(64 * cnt))
  pure def decodeEv(b: int): Ev = {
    val h = words(b, 4)
    val cnts = h[3]
    val nI = cnts % 65536
    val nD = (cnts / 65536) % 65536
    val nR = (cnts / 65536 / 65536) % 65536
    val nO = cnts / 65536 / 65536 / 65536
    val I = words(slice64(b, 4, nI), nI).foldl(List(), (acc, w) => acc.append(w - BIAS))
    val D = words(slice64(b, 4 + nI, nD), nD)
    val R = words(slice64(b, 4 + nI + nD, nR), nR)
    val O = range(0, nO).foldl({ at: 4 + nI + nD + nR, l: List() }, (acc, _) => {
      val g = words(slice64(b, acc.at, 3), 3)
      // reg | kind << 16 | scalar << 24 | order << 32 | (fixed size + 1) << 40
      val seen = { reg: g[0] % 65536, kind: (g[0] / 65536) % 256,
        ty: { k: (g[0] / 65536) % 256, sc: (g[0] / 2^24) % 256, o: (g[0] / 2^32) % 256, sn: g[0] / 2^40 - 1 },
        n: g[1] - BIAS, nw: g[2], w: slice64(b, acc.at + 3, g[2]) }
      { at: acc.at + 3 + g[2], l: acc.l.append(seen) }
    }).l
    { op: h[1], out: h[2], I: I, D: D, R: R, O: O }
  }

  // ---- agreement of observed and expected contents
  pure def shiftOf(sc: int): int = if (sc == 0) 2^34 else if (sc == 1) 2^13 else 2^57
  pure def tiny(sc: int): int = if (sc == 1) 2^156 else 2^56
  pure def closeTo(sc: int, x: int, v: int, s: int): bool = abs(x - v) <= s / shiftOf(sc) + tiny(sc)
  // index of the first entry that disagrees, -1 if none
  pure def firstBad(sc: int, obs: List[int], e: Exp): int =
    range(0, obs.length()).foldl(-1, (acc, i) => if (acc >= 0 or obs[i] == e.v[i] or closeTo(sc, obs[i], e.v[i], e.s[i])) acc else i)
  pure def firstDiff(obs: List[int], b: List[int]): int =
    range(0, obs.length()).foldl(-1, (acc, i) => if (acc >= 0 or sameWord(obs[i], b[i])) acc else i)

  type Verdict = { st: St, why: str, info: List[int] }
  pure def wrong(st: St, why: str, info: List[int]): Verdict = { st: st, why: why, info: info }

  // contents of one observed object against its expectation
  pure def checkExp(x: Seen, e: Exp): { why: str, info: List[int], v: List[int], sp: bool } = {
    val cnt = len(e.ty, e.n)
    val nw = if (e.ty.sc == 2) 2 * cnt else cnt
    if (x.kind != e.ty.k or x.ty != e.ty) { why: "type", info: [x.reg, x.kind, x.ty.sc, x.ty.o, x.ty.sn], v: List(), sp: false }
    else if (x.n != e.n) { why: "size", info: [x.reg, x.n, e.n], v: List(), sp: false }
    else if (x.nw != nw) { why: "data length", info: [x.reg, x.nw, nw], v: List(), sp: false }
    else {
      val ws = words(x.w, x.nw)
      val v = decodeAll(ws, e.ty.sc)
      val sp = far(ws, e.ty.sc)
      val i = if (e.mode == 2) -1
        else if (e.mode == 3) (if (isSpecial(ws[0])) -2 else if (closeTo(e.ty.sc, v[0], e.v[0], e.s[0])) -1 else 0)
        else if (e.mode == 1) firstDiff(ws, e.b) else if (sp and infinite(ws)) -2 else firstBad(e.ty.sc, v, e)
      if (i == -1) { why: "", info: List(), v: v, sp: sp }
      else if (i == -2) { why: "entry not finite", info: [x.reg], v: v, sp: sp }
      else if (e.mode == 1) { why: "entry", info: [x.reg, i, ws[i], e.b[i]], v: v, sp: sp }
      else { why: "entry", info: [x.reg, i, v[i], e.v[i], e.s[i]], v: v, sp: sp }
    }
  }

  // returned items; extended precision items take two words
  pure def checkRets(sc: int, R: List[int], ret: List[Ret]): { ok: bool, info: List[int] } = {
    val need = ret.foldl(0, (acc, r) => acc + (if (sc == 2 and r.mode != 1) 2 else 1))
    if (R.length() != need) { ok: false, info: [-1, R.length(), need] }
    else ret.foldl({ at: 0, k: 0, ok: true, info: List() }, (acc, r) => {
      val wide = sc == 2 and r.mode != 1
      val w = R[acc.at]
      val good = if (r.mode == 2) true
        else if (r.mode == 1) sameWord(w, r.b)
        else not(isSpecial(w)) and closeTo(sc, dec(w) + (if (wide) dec(R[acc.at + 1]) else 0), r.v, r.s)
      { at: acc.at + (if (wide) 2 else 1), k: acc.k + 1, ok: acc.ok and good,
        info: if (acc.ok and not(good)) [acc.k, w, if (r.mode == 1) r.b else r.v] else acc.info }
    }).justOk()
  }
  pure def justOk(r: { at: int, k: int, ok: bool, info: List[int] }): { ok: bool, info: List[int] } = { ok: r.ok, info: r.info }

  // names of the sparse universe as they appear in texts
  pure val NAMES: List[List[int]] = [
    [120], // x
    [121], // y
    [98, 95, 49], // b_1
    [97, 108, 112, 104, 97], // alpha
    [90, 50], // Z2
    [195, 169, 32, 113], // é q
    [120, 49], // x1
    [88], // X
    List(), // the empty name
    [120, 49, 48], // x10
    [120, 49, 49], // x11
    [98, 101, 116, 97], // beta
    [98], // b
    [98, 95], // b_
    [112, 48], // p0
    [112, 49], // p1
    [108, 111, 110, 103, 101, 114, 95, 110, 97, 109, 101, 95, 111, 102, 95, 118, 97, 114, 105, 97, 98, 108, 101, 95, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57], // longer_name_of_variable_0123456789
    [65], // A
    [45, 121], // -y
    [49], // 1
    [206, 177] // α
  ]
  // longer names first: a name may be the beginning of another one
  pure val ORDER: List[int] = [16, 3, 5, 11, 2, 9, 10, 4, 6, 13, 14, 15, 18, 20, 0, 1, 7, 12, 17, 19, 8]
  pure def noMinus(t: List[int]): List[int] = if (t.length() > 0 and t[0] == 45) after(t, 1) else t
  pure def termOf(k: int, w: int): List[int] = {
    val t = textOf(w)
    List(32).concat(if (t[0] == 45) t else [43].concat(t)).concat([42, 100]).concat(NAMES[k])
  }
  pure def checkText(o: Obj, R: List[int]): bool =
    if (o.ty.k == 0) {
      val t = textOf(word(o.w, 0)).concat([104, 106])
      R == t or (isNaN(word(o.w, 0)) and noMinus(R) == noMinus(t))
    } else {
      // value, then the terms of its names in any order
      val f = textOf(word(o.w, 0))
      startsWith(R, f) and {
        val e = entries(o)
        // what the term of each name may look like: zero derivatives may be printed with either sign
        val terms = ORDER.select(k => o.nm.contains(k)).foldl(List(), (acc, k) => acc.append({ k: k, ts:
          if (isZeroWord(e[1 + k])) [[32, 43, 48, 42, 100].concat(NAMES[k]), [32, 43, 45, 48, 42, 100].concat(NAMES[k]), [32, 45, 48, 42, 100].concat(NAMES[k])]
          else [termOf(k, e[1 + k])] }))
        val r = range(0, terms.length()).foldl({ rest: after(R, f.length()), left: o.nm }, (acc, _) =>
          terms.foldl(acc, (a, t) =>
            if (a.rest.length() < acc.rest.length() or not(acc.left.contains(t.k))) a
            else t.ts.foldl(a, (c, u) => if (c.rest.length() == a.rest.length() and startsWith(c.rest, u)) { rest: after(c.rest, u.length()), left: c.left.exclude(Set(t.k)) } else c)))
        r.rest.length() == 0 and r.left == Set()
      }
    }

  // ---- one recorded call
  pure def observe(st: St, s2: St, ex: int -> Exp, ev: Ev): Verdict = {
    // s2: bindings after the call, with the old heap
    val regs = s2.env.keys().union(s2.views.keys())
    val seenRegs = ev.O.foldl(Set(), (acc, x) => acc.union(Set(x.reg)))
    if (seenRegs != regs or ev.O.length() != regs.size()) wrong(st, "registers", [ev.O.length(), regs.size()])
    else {
      val r = ev.O.foldl({ heap: s2.heap, done: Set(), amp: s2.amp, why: "", info: List() }, (acc, x) =>
        if (acc.why != "") acc
        else if (x.kind == 2) acc
        else if (not(s2.env.keys().contains(x.reg))) { ...acc, why: "registers", info: [x.reg] }
        else {
          val id = s2.env.get(x.reg)
          if (ex.keys().contains(id) and not(acc.done.contains(id))) {
            val e = ex.get(id)
            val c = checkExp(x, e)
            if (c.why != "") { ...acc, why: c.why, info: c.info }
            else { ...acc,
              heap: acc.heap.put(id, { ty: e.ty, n: e.n, w: x.w, nw: x.nw, v: c.v, sp: c.sp, nm: e.nm, ln: e.ln }),
              done: acc.done.union(Set(id)),
              amp: if (s2.lanes == 0) acc.amp else e.s.foldl(c.v.foldl(acc.amp, (m, t) => max2(m, abs(t))), (m, t) => max2(m, t)) }
          } else {
            // untouched, or another name of an object already seen: exactly the same contents
            val o = acc.heap.get(id)
            if (x.ty != o.ty or x.n != o.n or x.nw != o.nw or x.w != o.w) { ...acc, why: "changed without cause", info: [x.reg, x.n, o.n, x.nw, o.nw, x.w, o.w] }
            else acc
          }
        })
      if (r.why != "") wrong(st, r.why, r.info)
      else {
        // an updated object that only views still refer to: its contents are what they must be, and the views must show it
        val orphan = ex.keys().exclude(r.done)
        val exact = orphan.fold(true, (good, id) => good and ex.get(id).mode == 1 and ex.get(id).ty.sc < 2)
        if (not(exact)) wrong(st, "object not observed", List())
        else {
          val heap = orphan.fold(r.heap, (hp, id) => {
            val e = ex.get(id)
            hp.put(id, { ty: e.ty, n: e.n, w: join(e.b), nw: e.b.length(), v: decodeAll(e.b, e.ty.sc), sp: far(e.b, e.ty.sc), nm: e.nm, ln: e.ln })
          })
          val views = ev.O.foldl({ why: "", info: List() }, (acc, x) =>
            if (acc.why != "" or x.kind != 2) acc
            else if (not(s2.views.keys().contains(x.reg))) { why: "registers", info: [x.reg] }
            else {
              val h = s2.views.get(x.reg)
              val o = heap.get(h.id)
              val want = if (h.sel == 0) o.w else slice64(o.w, 1, o.n)
              val cnt = if (h.sel == 0) o.nw else o.n
              if (x.nw != cnt or x.w != want) { why: "array view disagrees with its number", info: [x.reg] } else acc
            })
          if (views.why != "") wrong(st, views.why, views.info)
          else { st: collect({ ...s2, heap: heap, amp: r.amp }), why: "", info: List() }
        }
      }
    }
  }

  pure def judge(st: St, ev: Ev): Verdict =
    if (ev.op == OP_RESET) { st: { ...st0, lanes: ev.I[0] }, why: "", info: List() }
    else if (ev.out == 2) wrong(st, "crash", List())
    else if (ev.op == OP_FORGET) observe(st, forgotten(st, ev.I[0]), Map(), ev)
    else if (ev.op == OP_END) {
      val c = checkEnd(st, obj(st, ev.I[1]))
      if (ev.out != 0) wrong(st, "refused", List())
      else if (c.ok) observe(st, st, Map(), ev) else wrong(st, "not the derivative of the program", c.info)
    }
    else {
      val eff = effect(st, ev.op, ev.I, ev.D)
      if (eff.rej) (if (ev.out == 1) observe(st, st, Map(), ev) else wrong(st, "not refused", List()))
      else if (ev.out != 0) wrong(st, "refused", List())
      else {
        val sc = if (eff.ret.length() > 0 and ev.I.length() > 1 and ev.op < 140 and ev.op >= 30 and ev.op <= 36) obj(st, ev.I[1]).ty.sc else 0
        val rc = if (eff.txt > 0) { ok: checkText(st.heap.get(eff.txt), ev.R), info: ev.R } else checkRets(sc, ev.R, eff.ret)
        if (not(rc.ok)) wrong(st, "result", rc.info)
        else observe(st, rebind(st, eff), expected(st, eff), ev)
      }
    }

  // ---- state machine consuming a recorded trace: blocks of events
  var st: St
  var blk: int
  var at: int
  var pos: int
  var bad: str
  var info: List[int]
  var lastOp: int

  action start = all { st' = st0, blk' = 0, at' = 1, pos' = 0, bad' = "", info' = List(), lastOp' = 0 }
  // blocks: lists of integers, each its own length in words followed by a whole number of events
  action consume(blocks: List[int]): bool = {
    val b = blocks[blk]
    val cnt = slice64(b, at, 1)
    val ev = decodeEv(slice64(b, at, cnt))
    val r = judge(st, ev)
    val last = at + cnt >= slice64(b, 0, 1)
    all {
      st' = r.st, bad' = r.why, info' = r.info, lastOp' = ev.op, pos' = pos + 1,
      blk' = if (last) blk + 1 else blk,
      at' = if (last) 1 else at + cnt
    }
  }
  val ok = bad == ""
}
