/// Elementary number theory over unbounded integers.
module numtheory {
  import octets.* from "./octets"

  /// number of binary digits of a natural number
  pure def bits(n: int): int =
    // binary search on the exponent, up to 2^16 bits
    range(0, 17).foldl((0, 65536, n), (s, _) =>
      if (s._3 >= 2^(s._2)) (s._1 + s._2, s._2 / 2, s._3 / 2^(s._2)) else (s._1, s._2 / 2, s._3))._1
      + (if (n > 0) 1 else 0)

  /// base^e mod m for e >= 0, m >= 1
  pure def powmod(b: int, e: int, m: int): int =
    range(0, bits(e)).foldl((1 % m, emod(b, m), e), (s, _) =>
      (if (s._3 % 2 == 1) (s._1 * s._2) % m else s._1, (s._2 * s._2) % m, s._3 / 2))._1

  pure def gcdOf(a: int, b: int): int = {
    val a1 = absv(a)
    val b1 = absv(b)
    range(0, 3 * bits(min2(a1, b1)) / 2 + 3).foldl((a1, b1), (s, _) =>
      if (s._2 == 0) s else (s._2, s._1 % s._2))._1
  }
  pure def lcmOf(a: int, b: int): int = if (a == 0 or b == 0) 0 else absv(a * b) / gcdOf(a, b)

  /// the inverse of a modulo m in [0, m), assuming gcd(a, m) = 1
  pure def invmod(a: int, m: int): int = {
    val r = range(0, 3 * bits(m) / 2 + 3).foldl((m, emod(a, m), 0, 1), (s, _) =>
      if (s._2 == 0) s
      else (s._2, s._1 % s._2, s._4, s._3 - (s._1 / s._2) * s._4))
    emod(r._3, m)
  }

  /// exponent of 2 in n > 0, and the odd part
  pure def splitTwo(n: int): (int, int) =
    range(0, bits(n)).foldl((0, n), (s, _) => if (s._2 % 2 == 0) (s._1 + 1, s._2 / 2) else s)

  /// one round of the strong probable-prime test of odd n > 2 to base a
  pure def strongProbable(n: int, a: int): bool = {
    val d = splitTwo(n - 1)
    val y = powmod(a, d._2, n)
    or { y == 1, y == n - 1,
         range(1, d._1).foldl((false, y), (s, _) => {
           val z = (s._2 * s._2) % n
           (s._1 or z == n - 1, z) })._1 }
  }
  pure val WITNESSES: List[int] =
    List(2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97)
  /// Primality. The first 13 prime bases decide it below 3.3 * 10^24
  /// (Sorenson and Webster); larger numbers take 25 bases.
  pure def isPrime(n: int): bool =
    if (n < 2) false
    else if (WITNESSES.indices().exists(i => n == WITNESSES[i])) true
    else if (WITNESSES.indices().exists(i => n % WITNESSES[i] == 0)) false
    else if (n < 97 * 97) true
    else range(0, if (n < 3317044064679887385961981) 13 else 25).foldl(true, (ok, i) =>
      ok and strongProbable(n, WITNESSES[i]))

  /// Legendre symbol of a modulo an odd prime p, by Euler's criterion
  pure def legendre(a: int, p: int): int = {
    val e = powmod(a, (p - 1) / 2, p)
    if (e == p - 1) -1 else e
  }
  /// Jacobi symbol, n odd and positive
  pure def jacobiOf(a: int, n: int): int = {
    val r = range(0, 2 * bits(n) + 2).foldl((emod(a, n), n, 1, false), (s, _) =>
      if (s._4 or s._1 == 0) (s._1, s._2, s._3, true)
      else {
        val t = splitTwo(s._1)
        val s1 = if (t._1 % 2 == 1 and (s._2 % 8 == 3 or s._2 % 8 == 5)) -s._3 else s._3
        val s2 = if (t._2 % 4 == 3 and s._2 % 4 == 3) -s1 else s1
        (s._2 % t._2, t._2, s2, false)
      })
    if (r._2 == 1) r._3 else 0
  }
  pure def prodPow(ps: List[int], es: List[int]): int =
    range(0, ps.length()).foldl(1, (acc, i) => acc * ps[i]^(es[i]))
  /// a claimed factorization of n >= 1 into increasing primes
  pure def isFactorization(n: int, ps: List[int], es: List[int]): bool = and {
    ps.length() == es.length(),
    range(0, ps.length()).foldl(true, (ok, i) =>
      ok and es[i] >= 1 and isPrime(ps[i]) and (i == 0 or ps[max2(i - 1, 0)] < ps[i])),
    prodPow(ps, es) == n
  }
  pure def eulerPhi(ps: List[int], es: List[int]): int =
    range(0, ps.length()).foldl(1, (acc, i) => acc * (ps[i] - 1) * ps[i]^(es[i] - 1))
  pure def carmichaelOf(ps: List[int], es: List[int]): int =
    range(0, ps.length()).foldl(1, (acc, i) =>
      lcmOf(acc, if (ps[i] == 2 and es[i] > 2) 2^(es[i] - 2) else (ps[i] - 1) * ps[i]^(es[i] - 1)))
  /// multiplicative order of x modulo m > 1, gcd(x, m) = 1, by enumeration
  pure def orderOf(x: int, m: int): int =
    range(1, m).foldl((0, emod(x, m)), (s, k) =>
      if (s._1 > 0) s else if (s._2 == 1) (k, 1) else (0, (s._2 * emod(x, m)) % m))._1
  /// trial factorization of a small n >= 1
  pure def smallFactors(n: int): (List[int], List[int]) = {
    val r = range(2, 2 + n).foldl((List(), List(), n), (s, d) =>
      if (d * d > n or s._3 == 1) s
      else range(0, 12).foldl(s, (t, _) =>
        if (t._3 % d != 0) t
        else if (t._1.length() > 0 and t._1[max2(t._1.length() - 1, 0)] == d)
          (t._1, t._2.replaceAt(t._2.length() - 1, t._2[t._2.length() - 1] + 1), t._3 / d)
        else (t._1.append(d), t._2.append(1), t._3 / d)))
    if (r._3 > 1) (r._1.append(r._3), r._2.append(1)) else (r._1, r._2)
  }
  /// largest divisor of a >= 1 that is coprime to b
  pure def coprimePart(a: int, b: int): int =
    range(0, bits(a) + 1).foldl(a, (x, _) => { val g = gcdOf(x, b)
      if (g <= 1) x else x / g })

  // --- polynomials over Z/p, lists of coefficients of increasing degree ---
  pure def coef(f: List[int], i: int): int = if (i < f.length()) f[i] else 0
  pure def polyNorm(f: List[int], n: int, p: int): List[int] =
    range(0, n).foldl(List(), (l, i) => l.append(emod(coef(f, i), p)))
  /// remainder of f by the monic polynomial m (degree d = length - 1), d coefficients
  pure def polyRem(f: List[int], m: List[int], p: int): List[int] = {
    val d = m.length() - 1
    val r = range(0, max2(f.length() - d, 0)).foldl(f, (g, k) => {
      val top = f.length() - 1 - k
      val c = emod(g[top], p)
      range(0, d + 1).foldl(g, (h, j) => h.replaceAt(top - d + j, emod(h[top - d + j] - c * m[j], p)))
    })
    polyNorm(r, d, p)
  }
  pure def polyMul(f: List[int], g: List[int], p: int): List[int] =
    range(0, f.length()).foldl(polyNorm(List(), f.length() + g.length() - 1, p), (acc, i) =>
      range(0, g.length()).foldl(acc, (a, j) => a.replaceAt(i + j, emod(a[i + j] + f[i] * g[j], p))))
  pure def polyMulRem(f: List[int], g: List[int], m: List[int], p: int): List[int] = polyRem(polyMul(f, g, p), m, p)
  pure def polyPow(f: List[int], e: int, m: List[int], p: int): List[int] =
    range(0, bits(e)).foldl((polyRem(List(1), m, p), polyRem(f, m, p), e), (s, _) =>
      (if (s._3 % 2 == 1) polyMulRem(s._1, s._2, m, p) else s._1, polyMulRem(s._2, s._2, m, p), s._3 / 2))._1
}
