/// Number-theoretic functions, each call judged on its own:
/// C17 (inverse, gcd, lcm, powers), C18 (roots and symbols),
/// C19 (factorizations and derived functions), C20 (primes), C21 (polynomials).
/// Results are accepted by their defining property where there may be
/// several (square roots), by the one right value elsewhere.
module numbers {
  import octets.* from "./octets"
  import numtheory.* from "./numtheory"

  type St = int
  pure val start: St = 0

  pure def gcdAll(l: List[int]): int = l.foldl(0, (g, x) => gcdOf(g, x))
  pure def lcmAll(l: List[int]): int = l.foldl(1, (g, x) => lcmOf(g, x))
  /// a documented error is reported as a call that returned nothing
  pure def documentedError(e: Ev): bool = e.ok and e.ri == List() and e.rs == List()
  pure def says(b: bool, msg: str): str = if (b) "ok" else msg

  pure def isRoot(a: int, p: int, r: int): bool = and { r >= 0, r < p, emod(r * r - a, p) == 0 }
  pure def hasRoot(a: int, p: int): bool = emod(a, p) == 0 or legendre(a, p) == 1

  /// alternating list p1 e1 p2 e2 ...
  pure def evens(l: List[int]): List[int] = range(0, l.length() / 2).foldl(List(), (r, i) => r.append(l[2 * i]))
  pure def odds(l: List[int]): List[int] = range(0, l.length() / 2).foldl(List(), (r, i) => r.append(l[2 * i + 1]))
  pure def weave(f: (List[int], List[int])): List[int] =
    range(0, f._1.length()).foldl(List(), (r, i) => r.append(f._1[i]).append(f._2[i]))

  pure def orderSpec(x: int, m: int): int = if (m <= 1) 0 else orderOf(x, m)
  /// x^k = 1 modulo m > 1, and no proper divisor of k > 0 does it
  pure def isOrder(x: int, m: int, k: int): bool = and {
    m > 1, k > 0, powmod(emod(x, m), k, m) == 1,
    range(1, k).foldl(true, (ok, d) => ok and (k % d != 0 or powmod(emod(x, m), d, m) != 1)) }
  /// numbers with a claimed factorization at hand (arg 1 onward: p1 e1 p2 e2 ...)
  pure def claimed(e: Ev): bool = isFactorization(e.xs[0], evens(from(e.xs, 1)), odds(from(e.xs, 1)))

  /// bits, most significant first, of n flags
  pure def flag(packed: int, n: int, i: int): bool = (packed / 2^(n - 1 - i)) % 2 == 1

  // --- polynomials: p, length of modulus, modulus ..., then the operands ---
  pure def modulusOf(e: Ev): List[int] = range(0, e.xs[1]).foldl(List(), (l, i) => l.append(e.xs[2 + i]))
  pure def restOf(e: Ev): List[int] = from(e.xs, 2 + e.xs[1])
  pure def reducedInputs(l: List[int], p: int): bool = l.foldl(true, (ok, x) => ok and x >= 0 and x < p)
  /// ri: the coefficients of the result, then 1 if the arguments are as they were
  pure def polyResult(e: Ev, want: List[int], inputs: List[int]): str = {
    val p = e.xs[0]
    val d = e.xs[1] - 1
    val k = e.ri.length() - 1
    val got = range(0, k).foldl(List(), (l, i) => l.append(e.ri[i]))
    clauses(List(
      ("raised where a result is defined", e.ok),
      ("no coefficients", k >= 0),
      ("degree of the result", k <= d),
      ("value of the result", polyNorm(got, d, p) == want),
      ("coefficients outside [0, p)", not(reducedInputs(inputs, p)) or reducedInputs(got, p)),
      ("an argument was changed", k >= 0 and e.ri[max2(k, 0)] == 1)))
  }

  pure def judge(e: Ev): str =
    // --- C17 ---
    if (e.op == "inv")           // which, a, m
      if (gcdOf(e.xs[1], e.xs[2]) == 1)
        clauses(List(("raised where a result is defined", e.ok and e.ri.length() == 1),
          ("inverse in [1, m)", first(e.ri, 0) >= 1 and first(e.ri, 0) < e.xs[2]),
          ("product with the argument", emod(first(e.ri, 0) * e.xs[1], e.xs[2]) == 1)))
      else mustRaise(e)
    else if (e.op == "egcd")     // a, b: g, x, y with a x + b y = g
      clauses(List(("raised where a result is defined", e.ok and e.ri.length() == 3),
        ("greatest common divisor", first(e.ri, -1) == gcdOf(e.xs[0], e.xs[1])),
        ("coefficients", e.ri.length() == 3 and e.xs[0] * e.ri[1] + e.xs[1] * e.ri[2] == first(e.ri, -1))))
    else if (e.op == "gcd") returns(e, List(gcdAll(from(e.xs, 1))), List())     // form, numbers
    else if (e.op == "lcm") returns(e, List(lcmAll(from(e.xs, 1))), List())
    else if (e.op == "pow")      // base, exponent, modulus
      if (e.xs[1] < 0) says(documentedError(e), "negative exponents raise NegativeExponentError")
      else returns(e, List(powmod(e.xs[0], e.xs[1], e.xs[2])), List())
    // --- C18 ---
    else if (e.op == "sqrt")     // a, p
      if (hasRoot(e.xs[0], e.xs[1])) says(e.ok and e.ri.length() == 1 and isRoot(e.xs[0], e.xs[1], first(e.ri, -1)), "square root")
      else says(documentedError(e), "no square root: SquareRootError")
    else if (e.op == "sqrtAll")  // p: all a, -1 for SquareRootError
      says(e.ok and e.ri.length() == e.xs[0] and range(0, e.xs[0]).foldl(true, (ok, a) => ok and
        (if (hasRoot(a, e.xs[0])) isRoot(a, e.xs[0], e.ri[a]) else e.ri[a] == -1)), "some square root")
    else if (e.op == "msqrt")    // a, p
      says(e.ok and e.ri.length() == 1 and
        (if (hasRoot(e.xs[0], e.xs[1])) isRoot(e.xs[0], e.xs[1], first(e.ri, -1)) else first(e.ri, -1) == 0), "modular_sqrt")
    else if (e.op == "msqrtAll")
      says(e.ok and e.ri.length() == e.xs[0] and range(0, e.xs[0]).foldl(true, (ok, a) => ok and
        (if (hasRoot(a, e.xs[0])) isRoot(a, e.xs[0], e.ri[a]) else e.ri[a] == 0)), "some modular_sqrt")
    else if (e.op == "jacobi")   // a, n; n odd and at least 3
      answers(e, e.xs[1] >= 3 and e.xs[1] % 2 == 1, List(if (e.xs[1] >= 3) jacobiOf(e.xs[0], e.xs[1]) else 0), List())
    else if (e.op == "jacobiAll")  // n, lo, hi
      returns(e, range(e.xs[1], e.xs[2]).foldl(List(), (l, a) => l.append(jacobiOf(a, e.xs[0]))), List())
    else if (e.op == "legendre") returns(e, List(jacobiOf(e.xs[0], e.xs[1])), List())   // a, p
    else if (e.op == "legendreAll")
      returns(e, range(e.xs[1], e.xs[2]).foldl(List(), (l, a) => l.append(jacobiOf(a, e.xs[0]))), List())
    // --- C19 ---
    else if (e.op == "factor")   // n: claimed factorization in the result
      says(e.ok and e.ri.length() % 2 == 0 and isFactorization(e.xs[0], evens(e.ri), odds(e.ri)), "factorization")
    else if (e.op == "factorAll")  // lo, hi: rows of count, p1, e1, ...
      says(e.ok and range(e.xs[0], e.xs[1]).foldl((true, 0), (s, n) => {
        val want = weave(smallFactors(n))
        val fits = s._1 and s._2 < e.ri.length() and e.ri[s._2] == want.length()
          and s._2 + want.length() < e.ri.length()
          and range(0, want.length()).foldl(true, (ok, i) => ok and e.ri[s._2 + 1 + i] == want[i])
        (fits, s._2 + 1 + want.length()) }) == (true, e.ri.length()), "some factorization")
    // n and its factorization, which the generator chose
    else if (e.op == "phi") if (claimed(e)) returns(e, List(eulerPhi(evens(from(e.xs, 1)), odds(from(e.xs, 1)))), List()) else "bad test input"
    else if (e.op == "carm") if (claimed(e)) returns(e, List(carmichaelOf(evens(from(e.xs, 1)), odds(from(e.xs, 1)))), List()) else "bad test input"
    else if (e.op == "carmF") returns(e, List(carmichaelOf(evens(e.xs), odds(e.xs))), List())
    else if (e.op == "carmP") returns(e, List(carmichaelOf(List(e.xs[0]), List(e.xs[1]))), List())
    else if (e.op == "phiAll") returns(e, range(e.xs[0], e.xs[1]).foldl(List(), (l, n) => {
        val f = smallFactors(n)
        l.append(eulerPhi(f._1, f._2)) }), List())
    else if (e.op == "carmAll") returns(e, range(e.xs[0], e.xs[1]).foldl(List(), (l, n) => {
        val f = smallFactors(n)
        l.append(carmichaelOf(f._1, f._2)) }), List())
    else if (e.op == "order" and e.xs.length() > 2)   // x, m > 1, and the order, which the generator knows
      if (isOrder(e.xs[0], e.xs[1], e.xs[2])) returns(e, List(e.xs[2]), List()) else "bad test input"
    else if (e.op == "order")    // x, m
      answers(e, e.xs[1] <= 1 or gcdOf(e.xs[0], e.xs[1]) == 1,
        List(if (e.xs[1] <= 1 or gcdOf(e.xs[0], e.xs[1]) == 1) orderSpec(e.xs[0], e.xs[1]) else 0), List())
    else if (e.op == "orderAll") // m: every x in [0, m), -1 where refused
      returns(e, range(0, e.xs[0]).foldl(List(), (l, x) =>
        l.append(if (gcdOf(x, e.xs[0]) == 1) orderSpec(x, e.xs[0]) else -1)), List())
    else if (e.op == "korder") returns(e, List(orderSpec(e.xs[0], coprimePart(e.xs[1], e.xs[0]))), List())
    else if (e.op == "lfrp") returns(e, List(coprimePart(e.xs[0], e.xs[1])), List())
    else if (e.op == "lfrpAll")  // a: every b in [1, hi)
      returns(e, range(1, e.xs[1]).foldl(List(), (l, b) => l.append(coprimePart(e.xs[0], b))), List())
    // --- C20 ---
    else if (e.op == "prime") returns(e, List(if (isPrime(e.xs[0])) 1 else 0), List())
    else if (e.op == "primes")   // a list of numbers, one flag each
      returns(e, e.xs.foldl(List(), (l, n) => l.append(if (isPrime(n)) 1 else 0)), List())
    // the caller knows these to be products: factors of each number follow
    else if (e.op == "composite") says(e.ok and e.ri == List(0) and e.xs[0] > 1 and e.xs[1] > 1, "a product is taken for a prime")
    else if (e.op == "primeAll") // lo, hi: flags packed in one number
      says(e.ok and e.ri.length() == 1 and range(e.xs[0], e.xs[1]).foldl(true, (ok, n) => ok and
        flag(e.ri[0], e.xs[1] - e.xs[0], n - e.xs[0]) == isPrime(n)), "primality of some number in the range")
    else if (e.op == "next")     // n
      clauses(List(("raised where a result is defined", e.ok and e.ri.length() == 1),
        ("above its argument", first(e.ri, 0) > e.xs[0]),
        ("prime", isPrime(first(e.ri, 0))),
        ("a prime was skipped", range(max2(e.xs[0] + 1, 2), min2(first(e.ri, 0), e.xs[0] + 5000)).foldl(true, (ok, n) => ok and not(isPrime(n))))))
    else if (e.op == "table")    // hi: every prime below hi in order
      returns(e, range(2, e.xs[0]).foldl(List(), (l, n) => if (isPrime(n)) l.append(n) else l), List())
    else if (e.op == "fermat") returns(e, List(if (powmod(e.xs[1], e.xs[0] - 1, e.xs[0]) == 1) 1 else 0), List())  // p, a
    else if (e.op == "rabin")    // n (odd, > 2), a
      answers(e, e.xs[1] >= 1 and e.xs[1] < e.xs[0], List(if (strongProbable(e.xs[0], e.xs[1])) 1 else 0), List())
    else if (e.op == "fermatAll")  // n: every base in [0, n)
      says(e.ok and e.ri.length() == 1 and range(0, e.xs[0]).foldl(true, (ok, a) => ok and
        flag(e.ri[0], e.xs[0], a) == (powmod(a, e.xs[0] - 1, e.xs[0]) == 1)), "Fermat test for some base")
    else if (e.op == "rabinAll")   // n: every base in [1, n)
      says(e.ok and e.ri.length() == 1 and range(1, e.xs[0]).foldl(true, (ok, a) => ok and
        flag(e.ri[0], e.xs[0], a) == strongProbable(e.xs[0], a)), "Rabin-Miller test for some base")
    // --- C21 ---
    else if (e.op == "polyRed") { val f = restOf(e)
      polyResult(e, polyRem(f, modulusOf(e), e.xs[0]), f) }
    else if (e.op == "polyMul") {  // rest: length of the first factor, first, second
      val r = restOf(e)
      val n1 = r[0]
      val f = range(0, n1).foldl(List(), (l, i) => l.append(r[1 + i]))
      val g = from(r, 1 + n1)
      polyResult(e, polyMulRem(f, g, modulusOf(e), e.xs[0]), f.concat(g)) }
    else if (e.op == "polyExp") {  // rest: exponent, base
      val r = restOf(e)
      polyResult(e, polyPow(from(r, 1), r[0], modulusOf(e), e.xs[0]), from(r, 1)) }
    else "unknown call"
  pure def apply(s: St, e: Ev): { st: St, v: str } = { st: s, v: judge(e) }
}
