// Text of a number as a C++ stream with default settings prints it (six significant digits, general notation),
// from the exact value of the bit pattern. Texts are lists of character codes.
module text {
  import fx.* from "./fx"

  pure val POW2: int = 2^52
  pure def pow10(k: int): int = 10^k
  // the last k decimal digits of d
  pure def digits(d: int, k: int): List[int] =
    range(0, k).foldl(List(), (acc, i) => acc.append(48 + (d / pow10(k - 1 - i)) % 10))
  pure def stripZeros(l: List[int]): List[int] =
    range(0, l.length()).foldl(l, (acc, _) => if (acc.length() > 0 and acc[acc.length() - 1] == 48) acc.slice(0, acc.length() - 1) else acc)
  pure def sig6(num: int, den: int): { d: int, e: int } = {
    // largest e with 10^e * den <= num
    val e0 = fdiv((bitlen(num) - bitlen(den)) * 30103, 100000) - 2
    val e = range(0, 5).foldl(e0, (acc, _) => {
      val t = acc + 1
      if (if (t >= 0) num >= den * pow10(t) else num * pow10(-t) >= den) t else acc })
    // num / den / 10^(e-5), rounded half to even
    val s = e - 5
    val a = if (s >= 0) num else num * pow10(-s)
    val b = if (s >= 0) den * pow10(s) else den
    val q = a / b
    val r = 2 * (a % b)
    val d = if (r > b or (r == b and q % 2 == 1)) q + 1 else q
    if (d == pow10(6)) { d: pow10(5), e: e + 1 } else { d: d, e: e }
  }
  pure def general(num: int, den: int): List[int] = {
    val r = sig6(num, den)
    val ds = digits(r.d, 6)
    if (r.e < -4 or r.e >= 6) {
      val frac = stripZeros(ds.slice(1, 6))
      val x = abs(r.e)
      val mant = if (frac.length() == 0) [ds[0]] else [ds[0], 46].concat(frac)
      mant.concat([101, if (r.e < 0) 45 else 43]).concat(digits(x, if (x >= 100) 3 else 2))
    }
    else if (r.e < 0) {
      val zs = range(0, -r.e - 1).foldl(List(), (acc, _) => acc.append(48))
      [48, 46].concat(zs).concat(stripZeros(ds))
    }
    else {
      val frac = stripZeros(ds.slice(r.e + 1, 6))
      if (frac.length() == 0) ds.slice(0, r.e + 1) else ds.slice(0, r.e + 1).concat([46]).concat(frac)
    }
  }
  pure def textOf(w: int): List[int] = {
    val e = (w / POW2) % 2048
    val m = w % POW2
    val sign = if (negBit(w)) [45] else List()
    if (e == 2047) sign.concat(if (m == 0) [105, 110, 102] else [110, 97, 110])
    else if (e == 0 and m == 0) sign.append(48)
    else {
      val mant = if (e == 0) m else m + POW2
      val sh = (if (e == 0) 1 else e) - 1075
      sign.concat(if (sh >= 0) general(mant * 2^sh, 1) else general(mant, 2^(-sh)))
    }
  }
  pure def startsWith(l: List[int], p: List[int]): bool =
    l.length() >= p.length() and l.slice(0, p.length()) == p
  // removes p from the front of l
  pure def dropFront(l: List[int], k: int): List[int] = l.slice(k, l.length())
}
