/// The string and the fractions of pi (C23).
module pidigits {
  import octets.* from "./octets"
  import piexpansion.* from "./piexpansion"

  type St = int
  pure val start: St = 0
  pure def digitsOf(o: Oct): int = bytesOf(o).foldl(0, (v, c) => if (v < 0 or c < 48 or c > 57) -1 else 10 * v + c - 48)
  pure def judge(e: Ev): str =
    // pi(k), 0: all digits; numerator and denominator
    if (e.op == "pi") {
      val k = if (e.xs[0] == 0) DIGITS else e.xs[0]
      if (k > DIGITS) mustRaise(e)
      else clauses(List(("raised where a result is defined", e.ok and e.ri.length() == 2),
        ("denominator", e.ri.length() == 2 and e.ri[1] > 0),
        ("value", e.ri.length() == 2 and CERTAIN and e.ri[0] * 10^k == piDigits(k) * e.ri[1])))
    }
    // decimals lo .. hi-1 of the string; the length of the string and its first two characters
    else if (e.op == "piText")
      clauses(List(("raised where a result is defined", e.ok and e.rs.length() == 2 and e.ri.length() == 1),
        ("length of the string", first(e.ri, 0) == DIGITS + 2),
        ("start of the string", e.rs.length() == 2 and e.rs[0] == { n: 2, v: 0x332e }),
        ("a decimal", e.rs.length() == 2 and e.rs[1].n == e.xs[1] - e.xs[0]
          and digitsOf(e.rs[1]) == piDigits(e.xs[1]) % 10^(e.xs[1] - e.xs[0]))))
    else "unknown call"
  pure def apply(s: St, e: Ev): { st: St, v: str } = { st: s, v: judge(e) }
}
