/// Expressions over GF(p): the register machine behind C22.
/// State: the fields made so far, each with its prime and its registers
/// (which hold elements of that field), and which of them is in use.
module fields {
  import octets.* from "./octets"
  import numtheory.* from "./numtheory"

  type Field = { p: int, regs: int -> int }
  type St = { p: int, regs: int -> int, k: int, kept: int -> Field }
  pure val start: St = { p: 2, regs: Map(), k: 0, kept: Map() }
  pure def banks(s: St): int -> Field = s.kept.put(s.k, { p: s.p, regs: s.regs })
  /// to field k, which is made with the prime p if it is new
  pure def change(s: St, k: int, p: int): St = {
    val kept = banks(s)
    val f = if (kept.keys().contains(k)) kept.get(k) else { p: p, regs: Map() }
    { p: f.p, regs: f.regs, k: k, kept: kept } }
  type Resp = { st: St, ok: bool, ri: List[int] }
  pure def no(s: St): Resp = { st: s, ok: false, ri: List() }
  pure def value(s: St, ri: List[int]): Resp = { st: s, ok: true, ri: ri }
  pure def fill(s: St, r: int, v: int): Resp = { st: s.with("regs", s.regs.put(r, v)), ok: true, ri: List(v) }

  /// operators: 0 +, 1 -, 2 *, 3 /, 4 ^, 5 **, on integers a (left) and b (right)
  pure def defined(p: int, op: int, a: int, b: int): bool =
    if (op == 3) emod(b, p) != 0
    else if (op >= 4) b >= 0 or emod(a, p) != 0
    else true
  pure def result(p: int, op: int, a: int, b: int): int =
    if (op == 0) emod(a + b, p) else if (op == 1) emod(a - b, p) else if (op == 2) emod(a * b, p)
    else if (op == 3) emod(a * invmod(b, p), p)
    else if (b >= 0) powmod(a, b, p) else powmod(invmod(a, p), -b, p)

  /// (a register nobody filled holds zero)
  pure def reg(s: St, r: int): int = if (s.regs.keys().contains(r)) s.regs.get(r) else 0
  /// bin: xs = operator, target register, side, left, right.
  /// side 0: both are registers; 1: right is a plain integer; 2: left is one.
  pure def left(s: St, xs: List[int]): int = if (xs[2] == 2) xs[3] else reg(s, xs[3])
  pure def right(s: St, xs: List[int]): int = if (xs[2] == 1) xs[4] else reg(s, xs[4])

  pure def respond(s: St, op: str, xs: List[int]): Resp =
    if (op == "field") { st: { p: xs[0], regs: Map(), k: 0, kept: Map() }, ok: true, ri: List() }
    else if (op == "other") { st: change(s, xs[0], xs[1]), ok: true, ri: List() }
    else if (op == "elem") fill(s, xs[0], emod(xs[1], s.p))
    else if (op == "bin") {
      val a = left(s, xs)
      val b = right(s, xs)
      if (defined(s.p, xs[0], a, b)) fill(s, xs[1], result(s.p, xs[0], a, b)) else no(s)
    }
    else if (op == "neg") fill(s, xs[0], emod(-reg(s, xs[1]), s.p))
    else if (op == "eq")         // side, left, right: the same sides as for bin, from xs[2]
      value(s, List(if (emod(left(s, xs) - right(s, xs), s.p) == 0) 1 else 0))
    else if (op == "text") value(s, List(reg(s, xs[0])))   // the number its text shows
    else if (op == "member") value(s, List(if (xs[0] >= 0 and xs[0] < s.p) 1 else 0))
    else if (op == "dump") value(s, xs.foldl(List(), (l, r) => l.append(reg(s, r))))
    // every pair of a small field: one operator, both sides as given
    else if (op == "binAll")
      value(s, range(0, s.p).foldl(List(), (l, a) => range(0, s.p).foldl(l, (m, b) =>
        m.append(if (defined(s.p, xs[0], a, b)) result(s.p, xs[0], a, b) else -1))))
    else no(s)

  pure def apply(s: St, e: Ev): { st: St, v: str } = {
    val r = respond(s, e.op, e.xs)
    { st: r.st, v: answers(e, r.ok, r.ri, List()) }
  }

  // --- behaviours: random expressions ---
  var st: St
  var ev: Ev
  pure val PRIMES: List[int] = List(2, 3, 5, 7, 13, 101, 65537, 2^127 - 1, 2^255 - 19, 2^521 - 1)
  action done(op: str, xs: List[int]): bool = {
    val r = respond(st, op, xs)
    all { st' = r.st, ev' = { op: op, xs: xs, ss: List(), ok: r.ok, ri: r.ri, rs: List() } }
  }
  action init = {
    nondet i = PRIMES.indices().oneOf()
    all { st' = { p: PRIMES[i], regs: Map(), k: 0, kept: Map() },
          ev' = { op: "field", xs: List(PRIMES[i]), ss: List(), ok: true, ri: List(), rs: List() } }
  }
  pure val REGS: Set[int] = Set(0, 1, 2, 3)
  action elem = {
    nondet r = REGS.oneOf()
    nondet x = (-(2^256)).to(2^256).oneOf()
    nondet small = Set(true, false).oneOf()
    done("elem", List(r, if (small) x % 7 else x))
  }
  action bin = {
    nondet r = REGS.oneOf()
    nondet a = REGS.oneOf()
    nondet b = REGS.oneOf()
    nondet op = Set(0, 1, 2, 3, 4, 5).oneOf()
    nondet side = Set(0, 1, 2).oneOf()
    nondet k = (-(2^64)).to(2^64).oneOf()
    nondet small = Set(true, false).oneOf()
    val x = if (small) k % 5 else k
    all { st.regs.keys().contains(a), st.regs.keys().contains(b),
          done("bin", List(op, r, side, if (side == 2) x else a, if (side == 1) x else b)) }
  }
  action neg = {
    nondet r = REGS.oneOf()
    nondet a = REGS.oneOf()
    all { st.regs.keys().contains(a), done("neg", List(r, a)) }
  }
  action compare = {
    nondet a = REGS.oneOf()
    nondet b = REGS.oneOf()
    nondet side = Set(0, 1, 2).oneOf()
    nondet near = (-3).to(3).oneOf()
    all { st.regs.keys().contains(a), st.regs.keys().contains(b),
          val x = st.regs.get(if (side == 1) a else b) + near / 3 * st.p + near % 3
          done("eq", List(0, 0, side, if (side == 2) x else a, if (side == 1) x else b)) }
  }
  action other = {
    nondet k = Set(0, 1, 2).oneOf()
    nondet i = PRIMES.indices().oneOf()
    done("other", List(k, PRIMES[i]))
  }
  action look = all { st.regs.keys().size() > 0,
    done("dump", range(0, 4).foldl(List(), (l, r) => if (st.regs.keys().contains(r)) l.append(r) else l)) }
  action step = any { elem, elem, bin, bin, bin, neg, compare, look, other }
  val reduced = banks(st).keys().forall(k => val f = banks(st).get(k) { f.regs.keys().forall(r => f.regs.get(r) >= 0 and f.regs.get(r) < f.p) })
}
