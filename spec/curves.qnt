/// Elliptic-curve groups over prime fields, in the four shapes the library
/// offers. Points are affine or the identity; multiples are computed in
/// projective coordinates, results are compared without division.
module curves {
  import octets.* from "./octets"
  import numtheory.* from "./numtheory"

  /// family 1: y^2 = x^3 + a x + b     2: a x^2 + y^2 = 1 + d x^2 y^2 (b holds d)
  /// family 3: y^2 = x^3 + a x^2 + x
  type Curve = { fam: int, p: int, a: int, b: int }
  type Point = { inf: bool, x: int, y: int }
  pure val INF: Point = { inf: true, x: 0, y: 0 }
  pure def pt(x: int, y: int): Point = { inf: false, x: x, y: y }
  /// the group's neutral element as the library names it
  pure def neutral(c: Curve): Point = if (c.fam == 2) pt(0, 1) else INF

  pure def onCurve(c: Curve, q: Point): bool =
    if (q.inf) c.fam != 2
    else if (c.fam == 1) emod(q.y * q.y - (q.x * q.x + c.a) * q.x - c.b, c.p) == 0
    else if (c.fam == 2) emod(c.a * q.x * q.x + q.y * q.y - 1 - c.b * q.x * q.x * q.y * q.y, c.p) == 0
    else emod(q.y * q.y - ((q.x + c.a) * q.x + 1) * q.x, c.p) == 0
  pure def canonical(c: Curve, q: Point): bool =
    q.inf or and { q.x >= 0, q.x < c.p, q.y >= 0, q.y < c.p }
  pure def nonSingular(c: Curve): bool =
    if (c.fam == 1) emod(4 * c.a * c.a * c.a + 27 * c.b * c.b, c.p) != 0
    else if (c.fam == 2) and { emod(c.a, c.p) != 0, emod(c.b, c.p) != 0, emod(c.a - c.b, c.p) != 0 }
    else emod(c.a * c.a - 4, c.p) != 0
  /// the Edwards addition law has no exceptions: a is a square and d is not
  pure def complete(c: Curve): bool =
    c.fam != 2 or (legendre(c.a, c.p) == 1 and legendre(c.b, c.p) == -1)

  // --- affine group law (chord and tangent / Edwards addition) ---
  pure def negP(c: Curve, q: Point): Point =
    if (q.inf) q else if (c.fam == 2) pt(emod(-q.x, c.p), emod(q.y, c.p)) else pt(emod(q.x, c.p), emod(-q.y, c.p))
  pure def addP(c: Curve, u: Point, v: Point): Point =
    if (c.fam == 2) {
      val t = c.b * u.x * v.x * u.y * v.y
      pt(emod((u.x * v.y + v.x * u.y) * invmod(1 + t, c.p), c.p),
         emod((u.y * v.y - c.a * u.x * v.x) * invmod(1 - t, c.p), c.p))
    }
    else if (u.inf) v else if (v.inf) u
    else if (emod(u.x - v.x, c.p) == 0 and emod(u.y + v.y, c.p) == 0) INF
    else {
      val same = emod(u.x - v.x, c.p) == 0
      val a2 = if (c.fam == 3) c.a else 0
      val a4 = if (c.fam == 3) 1 else c.a
      val l = if (same) emod((3 * u.x * u.x + 2 * a2 * u.x + a4) * invmod(2 * u.y, c.p), c.p)
              else emod((v.y - u.y) * invmod(v.x - u.x, c.p), c.p)
      val x = emod(l * l - a2 - u.x - v.x, c.p)
      pt(x, emod(l * (u.x - x) - u.y, c.p))
    }

  // --- multiples ---
  // fam 1 and 3: Jacobian-style (X, Y, Z), x = X/Z^2, y = Y/Z^3, Z = 0 neutral;
  // the Montgomery curve is moved to short Weierstrass form with x' = x + a/3.
  type Jac = { X: int, Y: int, Z: int }
  pure def jdbl(a: int, p: int, u: Jac): Jac =
    if (u.Z == 0 or u.Y == 0) { X: 1, Y: 1, Z: 0 }
    else {
      val yy = (u.Y * u.Y) % p
      val s = (4 * u.X * yy) % p
      val zz = (u.Z * u.Z) % p
      val m = (3 * u.X * u.X + a * zz * zz) % p
      val x = emod(m * m - 2 * s, p)
      { X: x, Y: emod(m * (s - x) - 8 * yy * yy, p), Z: (2 * u.Y * u.Z) % p }
    }
  pure def jadd(a: int, p: int, u: Jac, v: Jac): Jac =
    if (u.Z == 0) v else if (v.Z == 0) u
    else {
      val z1 = (u.Z * u.Z) % p
      val z2 = (v.Z * v.Z) % p
      val u1 = (u.X * z2) % p
      val u2 = (v.X * z1) % p
      val s1 = (u.Y * v.Z * z2) % p
      val s2 = (v.Y * u.Z * z1) % p
      if (u1 == u2) { if (s1 == s2) jdbl(a, p, u) else { X: 1, Y: 1, Z: 0 } }
      else {
        val h = emod(u2 - u1, p)
        val r = emod(s2 - s1, p)
        val hh = (h * h) % p
        val hhh = (h * hh) % p
        val w = (u1 * hh) % p
        val x = emod(r * r - hhh - 2 * w, p)
        { X: x, Y: emod(r * (w - x) - s1 * hhh, p), Z: (u.Z * v.Z * h) % p }
      }
    }
  pure def jmul(a: int, p: int, k: int, q: Jac): Jac =
    range(0, bits(k)).foldl(({ X: 1, Y: 1, Z: 0 }, q, k), (s, _) =>
      (if (s._3 % 2 == 1) jadd(a, p, s._1, s._2) else s._1, jdbl(a, p, s._2), s._3 / 2))._1
  pure def unJac(p: int, u: Jac): Point =
    if (u.Z == 0) INF else {
      val zi = invmod(u.Z, p)
      pt((u.X * zi * zi) % p, (u.Y * zi * zi * zi) % p)
    }
  // fam 2: projective (X : Y : Z)
  pure def eadd(c: Curve, u: Jac, v: Jac): Jac = {
    val p = c.p
    val a = (u.Z * v.Z) % p
    val b = (a * a) % p
    val cc = (u.X * v.X) % p
    val d = (u.Y * v.Y) % p
    val e = emod(c.b * cc * d, p)
    val f = emod(b - e, p)
    val g = (b + e) % p
    { X: emod(a * f * ((u.X + u.Y) * (v.X + v.Y) - cc - d), p),
      Y: emod(a * g * (d - c.a * cc), p), Z: (f * g) % p }
  }
  pure def mulP(c: Curve, k: int, q0: Point): Point = {
    val q = if (k < 0) negP(c, q0) else q0
    val n = absv(k)
    if (c.fam == 2) {
      val r = range(0, bits(n)).foldl(({ X: 0, Y: 1, Z: 1 }, { X: emod(q.x, c.p), Y: emod(q.y, c.p), Z: 1 }, n), (s, _) =>
        (if (s._3 % 2 == 1) eadd(c, s._1, s._2) else s._1, eadd(c, s._2, s._2), s._3 / 2))._1
      val zi = invmod(r.Z, c.p)
      pt((r.X * zi) % c.p, (r.Y * zi) % c.p)
    }
    else if (q.inf) INF
    else if (c.fam == 1) unJac(c.p, jmul(emod(c.a, c.p), c.p, n, { X: emod(q.x, c.p), Y: emod(q.y, c.p), Z: 1 }))
    else {
      val t = emod(c.a * invmod(3, c.p), c.p)
      val aw = emod(1 - c.a * t, c.p)
      val r = unJac(c.p, jmul(aw, c.p, n, { X: emod(q.x + t, c.p), Y: emod(q.y, c.p), Z: 1 }))
      if (r.inf) r else pt(emod(r.x - t, c.p), r.y)
    }
  }
  /// x coordinate of a multiple, 0 for the identity, as the ladders return it
  pure def ladderX(c: Curve, k: int, q: Point): int = { val r = mulP(c, k, q)
    if (r.inf) 0 else r.x }

  pure def pointEq(u: Point, v: Point): bool = u.inf == v.inf and (u.inf or (u.x == v.x and u.y == v.y))
}
