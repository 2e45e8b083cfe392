/// The predefined curves (C15): every observed parameter set is judged against
/// the table of the standards and against what a domain parameter set must
/// satisfy (which also judges curves the table does not know).
module params {
  import octets.* from "./octets"
  import numtheory.* from "./numtheory"
  import curves.* from "./curves"
  import hashes.* from "./hashes"
  import curvetable.* from "./curvetable"

  type St = int
  pure val start: St = 0

  // --- provenance of seeds ---
  pure val SCALE: int = 2^1300
  pure def arctan(x: int): int =
    range(0, 700).foldl((0, SCALE / x, 1), (s, k) =>
      (s._1 + s._3 * (s._2 / (2 * k + 1)), s._2 / (x * x), -s._3))._1
  pure val PI281: int = (16 * arctan(5) - 4 * arctan(239)) / 2^180
  pure val E281: int = range(1, 250).foldl((SCALE, SCALE), (s, k) => (s._1 + s._2 / k, s._2 / k))._1 / 2^180
  pure def segment(r: int, i: int): int = (r / 16^(281 - 40 * (i + 1))) % 16^40
  pure val PRIMESIZES: List[int] = List(160, 192, 224, 256, 320, 384, 512)
  /// the number of the Brainpool curve over a prime of this many bits
  pure def ordinal(b: int): int = PRIMESIZES.indices().filter(i => PRIMESIZES[i] == b).fold(-1, (_, i) => i)
  /// ANSI X9.62 A.3.3.1: the value SHA-1 makes of a seed
  pure def x962(seed: int, t: int): int = {
    val s = (t - 1) / 160
    val v = t - 160 * s
    range(1, s + 1).foldl(sha1(beInt(20, seed)).v % 2^(v - 1),
      (c, i) => c * 2^160 + sha1(beInt(20, (seed + i) % 2^160)).v)
  }

  type Seen = { fam: int, p: int, a: int, b: int, xG: int, yG: int, n: int, h: int, size: int, gx: int, gy: int,
    extras: List[int], oid: List[int] }
  // xs of the answer: family, p, a, b or d, xG, yG, n, h, coordinate size,
  // x and y of generator(), six extras, object identifier
  pure def seen(l: List[int]): Seen =
    { fam: l[0], p: l[1], a: l[2], b: l[3], xG: l[4], yG: l[5], n: l[6], h: l[7], size: l[8], gx: l[9], gy: l[10],
      extras: range(11, 17).foldl(List(), (r, i) => r.append(l[i])), oid: from(l, 17) }
  pure def shape(s: Seen): Curve =
    { fam: if (s.fam <= 2) 1 else if (s.fam <= 4) 2 else 3, p: s.p, a: s.a, b: s.b }
  pure def order(c: Curve, q: Point, n: int): bool = mulP(c, n, q) == neutral(c)

  pure def sound(s: Seen): str = {
    val c = shape(s)
    val q = pt(s.xG, s.yG)
    if (s.p < 5 or s.p % 2 == 0 or not(isPrime(s.p))) "p is not prime"
    else if (s.n < 2 or not(isPrime(s.n))) "n is not prime"
    else clauses(List(
      ("singular curve", nonSingular(c)),
      ("Koblitz curve with a", s.fam != 2 or s.a == 0),
      ("Edwards curve with a", s.fam != 4 or s.a == 1),
      ("incomplete Edwards curve", complete(c)),
      ("coordinates of the generator", canonical(c, q)),
      ("generator not on the curve", onCurve(c, q)),
      ("order of the generator", not(onCurve(c, q)) or order(c, q, s.n)),
      ("cofactor", s.h > 0 and (s.h * s.n - s.p - 1) * (s.h * s.n - s.p - 1) <= 4 * s.p),
      ("coordinate size", s.size == (bits(s.p) + 7) / 8),
      ("generator()", s.gx == s.xG and s.gy == s.yG)))
  }
  pure def known(s: Seen, r: Row, id: Oct): str = clauses(List(
    ("family", s.fam == r.fam), ("p", s.p == r.p), ("a", emod(s.a - r.a, r.p) == 0), ("b", emod(s.b - r.b, r.p) == 0),
    ("xG", s.xG == r.xG), ("yG", s.yG == r.yG), ("n", s.n == r.n), ("h", s.h == r.h),
    ("identifier", id == r.id), ("object identifier", s.oid == r.oid), ("seed values", s.extras == r.extras)))
  /// what the seeds and the twist of a curve promise
  pure def provenance(s: Seen, r: Row): str = {
    val k = ordinal(bits(s.p))
    val z = s.extras[4]
    clauses(List(
      ("seed_c", s.extras[1] < 0 or emod(s.extras[1] * s.b * s.b + 27, s.p) == 0),
      ("seed", s.extras[1] < 0 or x962(s.extras[0], bits(s.p)) == s.extras[1]),
      ("seed_p", s.extras[2] < 0 or (k >= 0 and s.extras[2] == segment(PI281, k))),
      ("seed_ab", s.extras[3] < 0 or (k >= 0 and s.extras[3] == segment(E281, k))),
      // z takes the curve before it in the table (r1) to this one (t1)
      ("z", z < 0 or {
        val u = twinOf(r)
        and { u.p == s.p, emod(u.a * powmod(z, 4, s.p) - s.a, s.p) == 0, emod(u.b * powmod(z, 6, s.p) - s.b, s.p) == 0,
              emod(u.xG * powmod(z, 2, s.p) - s.xG, s.p) == 0, emod(u.yG * powmod(z, 3, s.p) - s.yG, s.p) == 0,
              u.n == s.n }
      })))
  }
  pure def twinOf(r: Row): Row =
    // brainpoolPNNNt1 -> brainpoolPNNNr1: the third last octet of the class name
    if (ROWAT.keys().contains({ n: r.name.n, v: r.name.v - 512 })) ROWAT.get({ n: r.name.n, v: r.name.v - 512 }) else r

  pure def names(fam: int): List[Oct] =
    ROWS.foldl(List(), (l, r) => if (not(r.alias) and (fam == 0 or r.fam == fam)) l.append(r.name) else l)
  pure def count(l: List[Oct], o: Oct): int = l.foldl(0, (n, x) => if (x == o) n + 1 else n)

  pure def judge(e: Ev): str =
    if (e.op == "params") {       // ss: class name; answers rs: curveId
      if (not(e.ok) or e.ri.length() < 17 or e.rs.length() != 1) "raised where a result is defined"
      else {
        val s = seen(e.ri)
        val a = sound(s)
        if (a != "ok") a
        else if (ROWAT.keys().contains(e.ss[0])) {
          val b = known(s, ROWAT.get(e.ss[0]), e.rs[0])
          if (b != "ok") b else provenance(s, ROWAT.get(e.ss[0]))
        } else "ok"
      }
    }
    // xs: 0 allCurves, 1-5 the list of that family; answers class names
    else if (e.op == "list") clauses(List(
      ("raised where a result is defined", e.ok),
      ("a curve is missing or listed twice", names(e.xs[0]).foldl(true, (b, o) => b and count(e.rs, o) == 1)),
      ("listed twice", e.rs.foldl(true, (b, o) => b and count(e.rs, o) == 1)),
      ("a curve of another family or an alias", e.rs.foldl(true, (b, o) => b and
        (not(ROWAT.keys().contains(o)) or count(names(e.xs[0]), o) == 1)))))
    // every class by its name
    else if (e.op == "classes") clauses(List(
      ("raised where a result is defined", e.ok),
      ("a curve is missing", ROWS.foldl(true, (b, r) => b and count(e.rs, r.name) >= 1))))
    // the identifiers of all listed curves
    else if (e.op == "ids") clauses(List(
      ("raised where a result is defined", e.ok),
      ("identifier used twice", e.rs.foldl(true, (b, o) => b and count(e.rs, o) == 1))))
    else "unknown call"
  pure def apply(s: St, e: Ev): { st: St, v: str } = { st: s, v: judge(e) }

  /// the table itself is sound
  pure def rowVerdict(r: Row): str = {
    val s = { fam: r.fam, p: r.p, a: r.a, b: r.b, xG: r.xG, yG: r.yG, n: r.n, h: r.h, size: r.size,
              gx: r.xG, gy: r.yG, extras: r.extras, oid: r.oid }
    val a = sound(s)
    if (a == "ok") provenance(s, r) else a
  }
  run tableTest = ROWS.indices().forall(i => rowVerdict(ROWS[i]) == "ok")
  run namesTest = all { ROWAT.keys().size() == ROWS.length(),
    ROWS.foldl(Set(), (s, r) => s.union(Set(r.id))).size() == ROWS.length() }
}
