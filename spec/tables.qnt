/// Permutation cycles, Walsh spectra and nonlinearity (C30) and the digits of
/// pi (C23): pure functions, each call judged on its own.
module tables {
  import octets.* from "./octets"
  import sboxes.* from "./sboxes"
  import aes as aes from "./aes"

  type St = int
  pure val start: St = 0
  pure def judge(e: Ev): str =
    // first argument: which of the modules offering the function
    if (e.op == "orbits") returns(e, flatCycles(from(e.xs, 1)), List())      // keys in increasing order
    else if (e.op == "lengths") returns(e, flatLengths(from(e.xs, 1)), List())
    else if (e.op == "walsh") answers(e, log2(e.xs.length() - 1) >= 0,
      if (log2(e.xs.length() - 1) >= 0) walsh(from(e.xs, 1)) else List(), List())
    else if (e.op == "nonlin") returns(e, List(nonlin2(from(e.xs, 1))), List())   // twice the value
    else if (e.op == "sboxNonlin") { val r = sboxNonlin2(from(e.xs, 1))
      returns(e, List(r._1, r._2), List()) }
    else if (e.op == "table") returns(e, if (e.xs[1] == 0) aes::SBOX else SMS4, List())
    else "unknown call"
  pure def apply(s: St, e: Ev): { st: St, v: str } = { st: s, v: judge(e) }
}
