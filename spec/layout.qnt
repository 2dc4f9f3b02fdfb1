// Storage layout of a dense number: value, gradient, upper triangle of the Hessian row by row.
module layout {
  pure def datalen(o: int, n: int): int = if (o == 1) 1 + n else ((n + 1) * (n + 2)) / 2
  pure def tri(n: int): int = (n * (n + 1)) / 2
  // position of Hessian entry (i, j) counted from the first Hessian entry
  pure def hidx(n: int, i: int, j: int): int =
    if (i <= j) (i * (2 * n - i + 1)) / 2 + (j - i) else (j * (2 * n - j + 1)) / 2 + (i - j)
  // position in the flat data
  pure def didx(n: int, i: int, j: int): int = 1 + n + hidx(n, i, j)
  // index pairs in storage order
  pure def pairs(n: int): List[{ i: int, j: int }] =
    range(0, n).foldl(List(), (acc, a) => range(a, n).foldl(acc, (l, b) => l.append({ i: a, j: b })))
  // size belonging to a data length, -1 if there is none
  pure def sizeOfLen(o: int, len: int): int =
    if (o == 1) (if (len >= 1) len - 1 else -1)
    else {
      val n = range(0, 32).foldl(0, (acc, k) => if (datalen(2, acc + 2^(31 - k)) <= len) acc + 2^(31 - k) else acc)
      if (datalen(2, n) == len) n else -1
    }
}
