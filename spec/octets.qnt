/// Octet strings, machine words and the event record shared by every
/// module of the specification.
///
/// An octet string is its length and its big-endian value, so that
/// arbitrarily long strings are compared, cut and joined arithmetically.
module octets {
  type Oct = { n: int, v: int }

  /// One observed call of the implementation: operation name, integer
  /// arguments, octet-string arguments, and what came back: whether the call
  /// returned (ok) or raised, the integers and the octet strings returned.
  type Ev = { op: str, xs: List[int], ss: List[Oct],
              ok: bool, ri: List[int], rs: List[Oct] }

  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def absv(a: int): int = if (a < 0) -a else a
  /// floor division and non-negative remainder for a positive divisor
  pure def emod(a: int, m: int): int = { val r = a % m
    if (r < 0) r + m else r }
  pure def ediv(a: int, m: int): int = (a - emod(a, m)) / m

  pure val EMPTY: Oct = { n: 0, v: 0 }
  pure def wellFormed(o: Oct): bool = and { o.n >= 0, o.v >= 0, o.v < 256^(o.n) }
  pure def octAt(o: Oct, i: int): int = (o.v / 256^(o.n - 1 - i)) % 256
  /// octets [lo, hi)
  pure def cut(o: Oct, lo: int, hi: int): Oct =
    if (hi <= lo) EMPTY else { n: hi - lo, v: (o.v / 256^(o.n - hi)) % 256^(hi - lo) }
  pure def take(o: Oct, k: int): Oct = cut(o, 0, min2(k, o.n))
  pure def drop(o: Oct, k: int): Oct = cut(o, min2(k, o.n), o.n)
  pure def cat(a: Oct, b: Oct): Oct = { n: a.n + b.n, v: a.v * 256^(b.n) + b.v }
  pure def catAll(l: List[Oct]): Oct = l.foldl(EMPTY, (a, b) => cat(a, b))
  pure def zeros(k: int): Oct = { n: k, v: 0 }
  pure def byte(b: int): Oct = { n: 1, v: b }
  pure def rep(k: int, b: int): Oct = { n: k, v: (b * (256^k - 1)) / 255 }
  pure def beInt(k: int, v: int): Oct = { n: k, v: v }
  pure def bytesOf(o: Oct): List[int] = range(0, o.n).foldl(List(), (l, i) => l.append(octAt(o, i)))
  pure def fromBytes(l: List[int]): Oct = { n: l.length(), v: l.foldl(0, (a, b) => a * 256 + b) }
  /// big-endian value of the reversed string
  pure def leVal(o: Oct): int =
    range(0, o.n).foldl((0, o.v, 256^max2(o.n - 1, 0)), (s, _) => (s._1 + (s._2 % 256) * s._3, s._2 / 256, s._3 / 256))._1
  pure def leOct(k: int, v: int): Oct = { n: k, v: leVal({ n: k, v: v % 256^k }) }
  /// consecutive pieces of k octets (the last one may be shorter); long strings
  /// are cut in two stages so that the cost stays linear
  pure def pieces(o: Oct, k: int): List[Oct] =
    range(0, ceilDiv(o.n, k)).foldl(List(), (l, i) => l.append(cut(o, i * k, min2((i + 1) * k, o.n))))
  pure def chunks(o: Oct, k: int): List[Oct] =
    if (o.n <= 32 * k) pieces(o, k)
    else pieces(o, 32 * k).foldl(List(), (l, c) => l.concat(pieces(c, k)))
  pure def ceilDiv(a: int, b: int): int = (a + b - 1) / b

  /// exclusive-or of two 6-bit digits, tabulated
  pure def xorBits(a: int, b: int, k: int): int =
    range(0, k).foldl((0, a, b, 1), (s, _) =>
      (s._1 + (if (s._2 % 2 == s._3 % 2) 0 else s._4), s._2 / 2, s._3 / 2, s._4 * 2))._1
  pure val X6: List[int] = range(0, 4096).foldl(List(), (l, i) => l.append(xorBits(i / 64, i % 64, 6)))
  pure def xor8(a: int, b: int): int = X6[(a % 64) * 64 + b % 64] + 64 * X6[(a / 64) * 64 + b / 64]
  pure def xor16(a: int, b: int): int =
    X6[(a % 64) * 64 + b % 64] + 64 * X6[((a / 64) % 64) * 64 + (b / 64) % 64]
    + 4096 * X6[(a / 4096) * 64 + b / 4096]
  pure def xor32(a: int, b: int): int =
    X6[(a % 64) * 64 + b % 64] + 64 * X6[((a / 64) % 64) * 64 + (b / 64) % 64]
    + 4096 * X6[((a / 4096) % 64) * 64 + (b / 4096) % 64]
    + 262144 * X6[((a / 262144) % 64) * 64 + (b / 262144) % 64]
    + 16777216 * X6[((a / 16777216) % 64) * 64 + (b / 16777216) % 64]
    + 1073741824 * X6[(a / 1073741824) * 64 + b / 1073741824]
  pure def and32(a: int, b: int): int = (a + b - xor32(a, b)) / 2
  pure def or32(a: int, b: int): int = (a + b + xor32(a, b)) / 2
  pure def not32(a: int): int = 4294967295 - a
  pure def add32(a: int, b: int): int = (a + b) % 4294967296
  pure def rotl32(a: int, p: int): int = { val q = 4294967296 / p
    (a % q) * p + a / q }
  /// exclusive-or of naturals of any size
  pure def xorNat(a: int, b: int): int = {
    val m = max2(a, b)
    // number of 30-bit digits, by doubling
    val k = range(0, 24).foldl(1, (c, _) => if (m >= 1073741824^c) c * 2 else c)
    range(0, k).foldl((0, a, b, 1), (s, _) =>
      if (s._2 == 0 and s._3 == 0) s
      else (s._1 + s._4 * xor32(s._2 % 1073741824, s._3 % 1073741824),
            s._2 / 1073741824, s._3 / 1073741824, s._4 * 1073741824))._1
  }
  pure def xorOct(a: Oct, b: Oct): Oct = { n: a.n, v: xorNat(a.v, b.v) }

  /// The verdict of a conjunction of named clauses: the first one that fails.
  pure def clauses(l: List[(str, bool)]): str =
    l.foldl("ok", (acc, c) => if (acc != "ok") acc else if (c._2) "ok" else c._1)
  /// A call that must return exactly these results.
  pure def returns(e: Ev, ri: List[int], rs: List[Oct]): str =
    if (not(e.ok)) "raised where a result is defined"
    else if (e.ri == ri and e.rs == rs) "ok" else "wrong result"
  pure def mustRaise(e: Ev): str = if (e.ok) "returned where the call must be refused" else "ok"

  // --- shape of every state machine of the specification ---
  // A machine offers: type St, start: St, and
  //   apply(s: St, e: Ev): { st: St, v: str }
  // the state after the observed call and the verdict on its outcome.
  pure def first(l: List[int], d: int): int = if (l.length() > 0) l[0] else d
  pure def arg(e: Ev, i: int): int = if (i < e.xs.length()) e.xs[i] else 0
  pure def str8(e: Ev, i: int): Oct = if (i < e.ss.length()) e.ss[i] else EMPTY
  pure def from(l: List[int], i: int): List[int] = range(i, l.length()).foldl(List(), (r, k) => r.append(l[k]))
  pure def fromO(l: List[Oct], i: int): List[Oct] = range(i, l.length()).foldl(List(), (r, k) => r.append(l[k]))
  /// a call with a defined answer when `defined`, refused otherwise
  pure def answers(e: Ev, defined: bool, ri: List[int], rs: List[Oct]): str =
    if (defined) returns(e, ri, rs) else mustRaise(e)
  pure val NOEV: Ev = { op: "", xs: List(), ss: List(), ok: true, ri: List(), rs: List() }
}
