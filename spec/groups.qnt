/// A register machine over an elliptic curve group: the state machine behind
/// C10 (Weierstrass), C11 (multiples), C12 (Edwards), C13 (Montgomery and its
/// ladders) and the point constructor, decompression and encoding of C14.
///
/// State: the current curve, all its points if it is small, and registers
/// holding points. Every operation writes one register only; `dump` shows all.
module groups {
  import octets.* from "./octets"
  import numtheory.* from "./numtheory"
  import curves.* from "./curves"

  type St = { c: Curve, size: int, pts: List[Point], regs: int -> Point }
  pure val start: St = { c: { fam: 1, p: 5, a: 1, b: 1 }, size: 1, pts: List(), regs: Map() }
  type Resp = { st: St, ok: bool, ri: List[int] }

  pure def shown(q: Point): List[int] = if (q.inf) List(1, 0, 0) else List(0, q.x, q.y)
  /// all points of a small curve, affine ones by x then y
  pure def allPoints(c: Curve): List[Point] = {
    val aff = range(0, c.p).foldl(List(), (l, x) => range(0, c.p).foldl(l, (m, y) =>
      if (onCurve(c, pt(x, y))) m.append(pt(x, y)) else m))
    if (c.fam == 2) aff else aff.append(INF)
  }
  /// a point of a small curve as one number
  pure def code(c: Curve, q: Point): int = if (q.inf) c.p * c.p else q.x * c.p + q.y
  pure def decode(c: Curve, k: int): Point = if (k == c.p * c.p) INF else pt(k / c.p, k % c.p)
  pure def codes(c: Curve, l: List[Point]): List[int] = l.foldl(List(), (r, q) => r.append(code(c, q)))
  pure def octLen(p: int): int = ceilDiv(bits(p), 8)
  pure def ladderBits(c: Curve): int = max2(255, 8 * octLen(c.p))

  pure def fill(s: St, r: int, q: Point): Resp =
    { st: s.with("regs", s.regs.put(r, q)), ok: true, ri: shown(q) }
  pure def no(s: St): Resp = { st: s, ok: false, ri: List() }
  pure def yes(s: St, ri: List[int]): Resp = { st: s, ok: true, ri: ri }
  /// (a register nobody filled holds the neutral element)
  pure def reg(s: St, r: int): Point = if (s.regs.keys().contains(r)) s.regs.get(r) else neutral(s.c)
  pure def subP(c: Curve, u: Point, v: Point): Point = addP(c, u, negP(c, v))
  pure def mapPts(s: St, f: (Point) => Point): Resp =
    yes(s, codes(s.c, s.pts.foldl(List(), (l, q) => l.append(f(q)))))

  /// operations with one right answer; xs as listed
  pure def respond(s: St, op: str, xs: List[int]): Resp =
    // curve: family, p, a, b, enumerate its points?
    if (op == "curve") {
      val c: Curve = { fam: xs[0], p: xs[1], a: xs[2], b: xs[3] }
      yes({ c: c, size: octLen(c.p), pts: if (xs[4] == 1) allPoints(c) else List(), regs: Map() }, List())
    }
    else if (op == "load")       // register, x, y
      if (onCurve(s.c, pt(xs[1], xs[2]))) fill(s, xs[0], pt(xs[1], xs[2])) else no(s)
    else if (op == "gen") fill(s, xs[0], pt(xs[1], xs[2]))   // the generator, known to be (x, y)
    else if (op == "ident") fill(s, xs[0], neutral(s.c))
    else if (op == "add") fill(s, xs[0], addP(s.c, reg(s, xs[1]), reg(s, xs[2])))
    else if (op == "sub") fill(s, xs[0], subP(s.c, reg(s, xs[1]), reg(s, xs[2])))
    else if (op == "neg") fill(s, xs[0], negP(s.c, reg(s, xs[1])))
    else if (op == "dbl") fill(s, xs[0], addP(s.c, reg(s, xs[1]), reg(s, xs[1])))
    else if (op == "mul" or op == "rmul") fill(s, xs[0], mulP(s.c, xs[2], reg(s, xs[1])))
    else if (op == "eq") yes(s, List(if (pointEq(reg(s, xs[0]), reg(s, xs[1]))) 1 else 0))
    else if (op == "dump") yes(s, xs.foldl(List(), (l, r) => l.concat(shown(reg(s, r)))))
    else if (op == "ladder")     // which, register, scalar
      if (xs[2] >= 0 and bits(xs[2]) <= ladderBits(s.c)) yes(s, List(ladderX(s.c, xs[2], reg(s, xs[1])))) else no(s)
    // small curves: the operation applied to every point at once
    else if (op == "points") yes(s, codes(s.c, s.pts))
    else if (op == "addAll") { val u = decode(s.c, xs[0])
      mapPts(s, q => addP(s.c, u, q)) }
    else if (op == "subAll") { val u = decode(s.c, xs[0])
      mapPts(s, q => subP(s.c, u, q)) }
    else if (op == "negAll") mapPts(s, q => negP(s.c, q))
    else if (op == "dblAll") mapPts(s, q => addP(s.c, q, q))
    else if (op == "mulAll" or op == "rmulAll") mapPts(s, q => mulP(s.c, xs[0], q))
    else if (op == "eqAll") yes(s, s.pts.foldl(List(), (l, q) =>
      l.append(if (pointEq(decode(s.c, xs[0]), q)) 1 else 0)))
    // which, scalar: over the points with x other than zero
    else if (op == "ladderAll") yes(s, s.pts.foldl(List(), (l, q) =>
      if (q.inf or q.x == 0) l else l.append(ladderX(s.c, xs[1], q))))
    else no(s)

  // decompression: a root if there is one, else an error
  pure def rootOk(c: Curve, x: int, y: int): bool =
    and { y >= 0, y < c.p, onCurve(c, pt(x, y)) }
  pure def hasY(c: Curve, x: int): bool = {
    val rhs = emod((x * x + c.a) * x + c.b, c.p)
    rhs == 0 or legendre(rhs, c.p) == 1
  }
  pure def judgeY(c: Curve, x: int, ok: bool, y: int): bool =
    if (hasY(c, x)) ok and rootOk(c, x, y) else not(ok)

  pure def shortest(v: int): Oct = beInt(max2(1, octLen(v)), v)
  pure def decimals(v: int): Oct =
    range(0, 3 * octLen(v) + 1).foldl((v, EMPTY), (s, i) =>
      if (s._1 == 0 and s._2.n > 0) s else (s._1 / 10, cat(byte(48 + s._1 % 10), s._2)))._2
  pure def pointText(c: Curve, q: Point): Oct =
    if (pointEq(q, neutral(c))) { n: 8, v: 0x4944454e54495459 }
    else catAll(List(byte(40), decimals(q.x), byte(44), decimals(q.y), byte(41)))

  pure def apply(s: St, e: Ev): { st: St, v: str } =
    if (e.op == "y")            // decompression of one x
      { st: s, v: if (judgeY(s.c, e.xs[0], e.ok and e.ri.length() == 1, first(e.ri, -1))) "ok" else "decompression" }
    else if (e.op == "yAll")    // of every x of a small curve; -1 where it raised
      { st: s, v: if (e.ok and e.ri.length() == s.c.p and range(0, s.c.p).foldl(true, (ok, x) =>
            ok and judgeY(s.c, x, e.ri[x] >= 0, e.ri[x]))) "ok" else "decompression of some x" }
    else if (e.op == "encode") { val q = reg(s, e.xs[0])
      { st: s, v: returns(e, List(), List({ n: 2 * s.size, v: q.x * 256^(s.size) + q.y })) } }
    else if (e.op == "xoct")       // the x coordinate in its shortest form
      { st: s, v: returns(e, List(), List(shortest(reg(s, e.xs[0]).x))) }
    else if (e.op == "xyoct") { val q = reg(s, e.xs[0])
      { st: s, v: returns(e, List(), List(cat(shortest(q.x), shortest(q.y)))) } }
    else if (e.op == "text")       // (x,y) in decimals
      { st: s, v: returns(e, List(), List(pointText(s.c, reg(s, e.xs[0])))) }
    else if (e.op == "textAll")
      { st: s, v: returns(e, List(), s.pts.foldl(List(), (l, q) => l.append(pointText(s.c, q)))) }
    else if (e.op == "encodeAll")  // every affine point
      { st: s, v: returns(e, List(), s.pts.foldl(List(), (l, q) =>
          if (q.inf) l else l.append({ n: 2 * s.size, v: q.x * 256^(s.size) + q.y }))) }
    else {
      val r = respond(s, e.op, e.xs)
      { st: r.st, v: answers(e, r.ok, r.ri, List()) }
    }

  // --- behaviours: random walks over the group of a small curve ---
  var st: St
  var ev: Ev
  /// the discrete "logarithm" law: a register filled by `mul` of register 0
  var sound: bool
  pure val WALKS: List[(int, int, int, int)] = List(
    (1, 23, 1, 1), (1, 17, 2, 2), (1, 19, 0, 7), (1, 13, -3, 5), (1, 11, 1, 6), (1, 7, 0, 3), (1, 29, 4, 20),
    (2, 13, 1, 2), (2, 17, 1, 3), (2, 29, -1, 2), (2, 37, 4, 5),
    (3, 23, 6, 0), (3, 13, 3, 0), (3, 29, 5, 0), (3, 31, 10, 0), (3, 11, 4, 0))
  action done(op: str, xs: List[int]): bool = {
    val r = respond(st, op, xs)
    all { st' = r.st, ev' = { op: op, xs: xs, ss: List(), ok: r.ok, ri: r.ri, rs: List() },
          // every register holds a canonical point of the curve
          sound' = r.st.regs.keys().forall(k => and {
            onCurve(r.st.c, r.st.regs.get(k)), canonical(r.st.c, r.st.regs.get(k)) }) }
  }
  action begin(fams: Set[int]): bool = {
    nondet w = WALKS.indices().filter(i => fams.contains(WALKS[i]._1)).oneOf()
    val c: Curve = { fam: WALKS[w]._1, p: WALKS[w]._2, a: WALKS[w]._3, b: WALKS[w]._4 }
    val r = respond(start, "curve", List(c.fam, c.p, c.a, c.b, 1))
    all { st' = r.st, sound' = true,
          ev' = { op: "curve", xs: List(c.fam, c.p, c.a, c.b, 1), ss: List(), ok: true, ri: List(), rs: List() } }
  }
  action init = begin(Set(1, 2, 3))
  action init1 = begin(Set(1))
  action init2 = begin(Set(2))
  action init3 = begin(Set(3))
  pure val REGS: Set[int] = Set(0, 1, 2, 3, 4, 5)
  action loadAny = {
    nondet r = REGS.oneOf()
    nondet i = 0.to(200).oneOf()
    val q = st.pts[i % st.pts.length()]
    all { not(q.inf), done("load", List(r, q.x, q.y)) }
  }
  action loadBad = {
    nondet r = REGS.oneOf()
    nondet x = 0.to(40).oneOf()
    nondet y = 0.to(40).oneOf()
    all { x < st.c.p, y < st.c.p, not(onCurve(st.c, pt(x, y))), done("load", List(r, x, y)) }
  }
  action identAny = {
    nondet r = REGS.oneOf()
    done("ident", List(r))
  }
  action two = {
    nondet r = REGS.oneOf()
    nondet a = REGS.oneOf()
    nondet b = REGS.oneOf()
    nondet op = Set("add", "sub").oneOf()
    all { st.regs.keys().contains(a), st.regs.keys().contains(b), done(op, List(r, a, b)) }
  }
  action one = {
    nondet r = REGS.oneOf()
    nondet a = REGS.oneOf()
    nondet op = Set("neg", "dbl").oneOf()
    all { st.regs.keys().contains(a), done(op, List(r, a)) }
  }
  action scale = {
    nondet r = REGS.oneOf()
    nondet a = REGS.oneOf()
    nondet k = (-70).to(70).oneOf()
    nondet op = Set("mul", "rmul").oneOf()
    all { st.regs.keys().contains(a), done(op, List(r, a, k)) }
  }
  action compare = {
    nondet a = REGS.oneOf()
    nondet b = REGS.oneOf()
    all { st.regs.keys().contains(a), st.regs.keys().contains(b), done("eq", List(a, b)) }
  }
  action look = all {
    st.regs.keys().size() > 0,
    done("dump", range(0, 6).foldl(List(), (l, r) => if (st.regs.keys().contains(r)) l.append(r) else l))
  }
  action step = any { loadAny, loadAny, loadBad, identAny, two, two, two, one, scale, compare, look }
  val closed = sound
}
