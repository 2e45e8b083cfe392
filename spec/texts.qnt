/// Conversions between integers, octet strings and text: C08 and C09.
/// Stateless: every call is judged on its own.
module texts {
  import octets.* from "./octets"
  import encoding.* from "./encoding"

  type St = int
  pure val start: St = 0

  /// Texts are decoded in pieces so that long ones stay cheap; -1: not a text.
  pure def decoded(t: Oct, base: int): int = valueOf(t, base)

  // module numbers: 0 cipher.encoding, 1 cipher.common, 2 ecc.ecc (conversions);
  // 0 common.xor, 1 common.xor_min, 2 aes_cmac.xor (exclusive-or)
  pure def judge(e: Ev): str =
    if (e.op == "i2s")            // module, value, padto (0: none)
      answers(e, convertible(e.xs[1], e.xs[2]), List(),
        List(if (convertible(e.xs[1], e.xs[2])) intOctets(e.xs[1], e.xs[2]) else EMPTY))
    else if (e.op == "s2i")       // module; octets
      returns(e, List(e.ss[0].v), List())
    else if (e.op == "xor")       // module; two strings
      if (e.xs[0] == 1) { val k = min2(e.ss[0].n, e.ss[1].n)
        returns(e, List(), List(xorOct(take(e.ss[0], k), take(e.ss[1], k)))) }
      else answers(e, e.ss[0].n == e.ss[1].n, List(), List(xorOct(e.ss[0], e.ss[1])))
    else if (e.op == "enc")       // base; octets
      returns(e, List(), List(textOf(e.ss[0].v, e.xs[0])))
    else if (e.op == "dec") {     // base, padto; text
      val v = decoded(e.ss[0], e.xs[0])
      val fine = v >= 0 and convertible(v, e.xs[1])
      answers(e, fine, List(), List(if (fine) intOctets(v, e.xs[1]) else EMPTY))
    }
    else if (e.op == "roundtrip") // base; octets -> text, decoded text padded to the original length
      clauses(List(("raised where a result is defined", e.ok),
        ("number of results", e.rs.length() == 2),
        ("encoded text", e.rs.length() == 2 and e.rs[0] == textOf(e.ss[0].v, e.xs[0])),
        ("decoded octets", e.rs.length() == 2 and e.rs[1] == e.ss[0])))
    else if (e.op == "i2s2i")     // module, value, padto -> the value again
      answers(e, convertible(e.xs[1], e.xs[2]), List(e.xs[1]), List())
    else "unknown call"
  pure def apply(s: St, e: Ev): { st: St, v: str } = { st: s, v: judge(e) }
}
