/// Cycle structure of permutations, Walsh spectra, nonlinearity, and the
/// AES and SMS4 substitution tables from their algebraic definitions.
module sboxes {
  import octets.* from "./octets"
  import aes.* from "./aes"

  /// the cycle of `start`, in order of application
  pure def cycleOf(perm: List[int], start: int): List[int] =
    range(0, perm.length()).foldl((List(start), perm[start]), (s, _) =>
      if (s._2 == start) s else (s._1.append(s._2), perm[s._2]))._1
  pure def least(l: List[int]): int = l.foldl(l[0], (m, x) => min2(m, x))
  /// all cycles, each from its smallest element, by increasing smallest element
  pure def cycles(perm: List[int]): List[List[int]] =
    range(0, perm.length()).foldl((List(), Set()), (s, i) =>
      if (s._2.contains(i)) s
      else { val c = cycleOf(perm, i)
        (s._1.append(c), c.foldl(s._2, (z, x) => z.union(Set(x)))) })._1
  /// flattened as (first element, length, elements...)*
  pure def flatCycles(perm: List[int]): List[int] =
    cycles(perm).foldl(List(), (l, c) => l.append(c[0]).append(c.length()).concat(c))
  pure def flatLengths(perm: List[int]): List[int] =
    cycles(perm).foldl(List(), (l, c) => l.append(c[0]).append(c.length()))

  /// exponent k with 2^k = n, -1 if there is none
  pure def log2(n: int): int = range(0, 20).foldl(-1, (r, k) => if (2^k == n) k else r)
  /// Walsh-Hadamard transform of (-1)^t by butterflies; the recursion halves
  /// from the left, so output w is the coefficient of mask w
  pure def walsh(t: List[int]): List[int] = {
    val n = t.length()
    range(0, log2(n)).foldl(t.foldl(List(), (l, b) => l.append(1 - 2 * b)), (v, k) =>
      range(0, n).foldl(List(), (l, i) =>
        if ((i / 2^k) % 2 == 0) l.append(v[i] + v[i + 2^k]) else l.append(v[i - 2^k] - v[i])))
  }
  pure def peak(v: List[int]): int = v.foldl(0, (m, x) => max2(m, absv(x)))
  /// twice the nonlinearity: len - max |W|
  pure def nonlin2(t: List[int]): int = t.length() - peak(walsh(t))
  pure def parity(a: int): int = range(0, 20).foldl((0, a), (s, _) => ((s._1 + s._2) % 2, s._2 / 2))._1
  /// bitwise and of naturals below 2^24
  pure def andNat(a: int, b: int): int = (a + b - xorNat(a, b)) / 2
  /// (min, max) of twice the nonlinearity over all nonzero output masks
  pure def sboxNonlin2(s: List[int]): (int, int) =
    range(1, s.length()).foldl((s.length() * 2, 0), (mm, c) => {
      val x = nonlin2(s.foldl(List(), (l, y) => l.append(parity(andNat(c, y)))))
      (min2(mm._1, x), max2(mm._2, x)) })

  /// SMS4: x -> A * inv(A * x + C) + C over GF(2^8) modulo 0x1f5
  pure def sms4Affine(x: int): int =
    range(0, 8).foldl(0, (r, i) =>
      // row i is 0xA7 rotated left by i (bit i of the result)
      r + 2^i * parity(andNat(rotl8(0xa7, i), x)))
  pure val SMS4: List[int] = range(0, 256).foldl(List(), (l, x) =>
    l.append(xor8(sms4Affine(ginv(xor8(sms4Affine(x), 0xd3), 0x1f5)), 0xd3)))
}
