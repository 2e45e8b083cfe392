/// The decimal expansion of pi by Machin's formula, in integers.
module piexpansion {
  import octets.* from "./octets"
  pure val DIGITS: int = 50000
  pure val GUARD: int = 20
  pure val ONE: int = 10^(DIGITS + GUARD)
  /// ONE * arctan(1/x), each term truncated: error below the number of terms
  pure def arctanInv(x: int, terms: int): int =
    range(0, terms).foldl((0, ONE / x, 1), (s, k) =>
      if (s._2 == 0) s
      else (s._1 + s._3 * (s._2 / (2 * k + 1)), s._2 / (x * x), -s._3))._1
  // 5^(2 terms) > 10^50020 needs 35,782 terms; 239^(2 terms) 10,516
  pure val RAW: int = 16 * arctanInv(5, 36000) - 4 * arctanInv(239, 11000)
  /// the truncation error (below 2^21) does not reach the kept decimals
  pure val CERTAIN: bool = (RAW - 2^21) / 10^GUARD == (RAW + 2^21) / 10^GUARD
  /// floor(pi * 10^50000)
  pure val PI: int = RAW / 10^GUARD
  pure def piDigits(k: int): int = PI / 10^(DIGITS - k)
}
