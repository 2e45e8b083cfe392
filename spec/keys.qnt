/// Private keys (C16): a machine that remembers the keys handed out.
module keys {
  import octets.* from "./octets"
  import numtheory.* from "./numtheory"

  /// per curve order: the keys seen from a regular random source
  type St = { seen: int -> Set[int] }
  pure val start: St = { seen: Map() }
  pure def sofar(s: St, n: int): Set[int] = if (s.seen.keys().contains(n)) s.seen.get(n) else Set()

  // key   xs: order n, 1 if the random source is a regular one (0: forced to an
  //       extreme value first); answers the key and the random bits drawn
  // spread xs: order n; ri: for a small n, how often each of 1..n-1 came in a
  //       row of draws
  pure def apply(s: St, e: Ev): { st: St, v: str } =
    if (e.op == "key") {
      val n = e.xs[0]
      val good = e.ok and e.ri.length() == 2
      val k = if (good) e.ri[0] else 0
      { st: if (good and e.xs[1] == 1) { seen: s.seen.put(n, sofar(s, n).union(Set(k))) } else s,
        v: clauses(List(
          ("raised where a result is defined", good),
          ("key not in [1, n-1]", k >= 1 and k < n),
          ("fewer random bits than n has", not(good) or e.ri[1] >= bits(n - 1)),
          ("a key came twice", e.xs[1] == 0 or bits(n) < 64 or not(sofar(s, n).contains(k))))) }
    }
    // the keys so far are in both halves and quarters of the range
    else if (e.op == "range") {
      val n = e.xs[0]
      val ks = sofar(s, n)
      { st: s, v: clauses(List(
          ("keys confined to a part of the range", 0.to(7).forall(i => ks.exists(k => k * 8 >= i * n and k * 8 < (i + 1) * n))),
          ("keys of one parity", ks.exists(k => k % 2 == 0) and ks.exists(k => k % 2 == 1)))) }
    }
    else if (e.op == "spread") {
      val draws = e.ri.foldl(0, (t, c) => t + c)
      { st: s, v: clauses(List(
          ("raised where a result is defined", e.ok and e.ri.length() == e.xs[0] - 1),
          ("a key never or rarely comes", e.ri.indices().forall(i => 2 * e.ri[i] * (e.xs[0] - 1) >= draws)))) }
    }
    else { st: s, v: "unknown call" }
}
