/// Integer / octet-string conversion (X9.62) and positional text encodings.
module encoding {
  import octets.* from "./octets"
  import numtheory.* from "./numtheory"

  /// octets of the shortest form; zero takes one octet
  pure def minLen(v: int): int = max2(1, ceilDiv(bits(v), 8))
  /// is the conversion defined? pad = 0 means no padding requested
  pure def convertible(v: int, pad: int): bool = v >= 0 and (pad == 0 or minLen(v) <= pad)
  pure def intOctets(v: int, pad: int): Oct = { n: max2(minLen(v), pad), v: v }

  // alphabets, most readable as ASCII octet strings
  pure val A27: List[int] = bytesOf({ n: 27, v: 0x4142434445464748_4a4b4d4e50515254_5758595a32333436_373839 })
  pure val A85: List[int] =
    range(48, 58).concat(range(65, 91)).concat(range(97, 123)).concat(
      bytesOf({ n: 23, v: 0x21232425262829_2a2b2d3b3c3d3e3f40_5e5f607b7c7d7e }))
  pure val A94: List[int] = range(33, 127)
  pure def alphabet(base: int): List[int] = if (base == 27) A27 else if (base == 85) A85 else A94

  /// number of base-b digits of v (none for zero)
  pure def digitCount(v: int, b: int): int =
    range(0, bits(v) / 4 + 2).foldl((0, v), (s, _) => if (s._2 == 0) s else (s._1 + 1, s._2 / b))._1
  pure def textOf(v: int, base: int): Oct = {
    val a = alphabet(base)
    val d = range(0, digitCount(v, base)).foldl((0, v, 1), (s, _) =>
      (s._1 + a[s._2 % base] * s._3, s._2 / base, s._3 * 256))
    { n: digitCount(v, base), v: d._1 }
  }
  /// index of a character in the alphabet, -1 if it is none
  pure def digitOf(c: int, a: List[int]): int =
    a.indices().fold(-1, (r, i) => if (a[i] == c) i else r)
  /// value of a text, -1 if it has a character outside the alphabet
  pure def valueOf(t: Oct, base: int): int = {
    val a = alphabet(base)
    bytesOf(t).foldl(0, (v, c) => { val d = digitOf(c, a)
      if (v < 0 or d < 0) -1 else v * base + d })
  }
}
