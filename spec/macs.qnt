/// HMAC objects and what is built on them: the state machine behind C27, and
/// PBKDF2 (C28) and the 802.11 PRF (C29).
///
/// State: for every HMAC object its hash, its key if it has one, and the
/// octets taken in since the last start.
module macs {
  import octets.* from "./octets"
  import hashes.* from "./hashes"

  type Obj = { h: Hash, keyed: bool, key: Oct, buf: Oct }
  type St = { objs: int -> Obj }
  pure val start: St = { objs: Map() }
  type Resp = { st: St, ok: bool, rs: List[Oct] }
  pure def no(s: St): Resp = { st: s, ok: false, rs: List() }
  pure def gives(s: St, rs: List[Oct]): Resp = { st: s, ok: true, rs: rs }
  pure def write(s: St, i: int, o: Obj): Resp = gives({ objs: s.objs.put(i, o) }, List())

  /// hash numbers: 1 SHA-1, 0 toy hash of the given block and digest size;
  /// 11 and 12 are the predefined HMAC_SHA1 (SHA-1) and HMAC_MD5, for which
  /// the harness supplies a toy hash of MD5's sizes
  pure def pick(kind: int, blk: int, sz: int): Hash =
    if (kind == 1 or kind == 11) SHA1 else if (kind == 12) toyHash(64, 16) else toyHash(blk, sz)

  pure def respond(s: St, op: str, xs: List[int], ss: List[Oct]): Resp =
    if (op == "new")             // handle, hash, block, digest size, key given?; key
      write(s, xs[0], { h: pick(xs[1], xs[2], xs[3]), keyed: xs[4] == 1, key: if (xs[4] == 1) ss[0] else EMPTY, buf: EMPTY })
    else if (not(s.objs.keys().contains(xs[0]))) no(s)
    else {
      val o = s.objs.get(xs[0])
      if (op == "setKey") write(s, xs[0], o.with("keyed", true).with("key", ss[0]).with("buf", EMPTY))
      else if (not(o.keyed)) no(s)
      else if (op == "reset") write(s, xs[0], o.with("buf", EMPTY))
      else if (op == "update") write(s, xs[0], o.with("buf", cat(o.buf, ss[0])))
      else if (op == "digest") gives(s, List(hmac(o.h, o.key, o.buf)))
      else if (op == "call")     // the whole message in one call
        { st: { objs: s.objs.put(xs[0], o.with("buf", ss[0])) }, ok: true, rs: List(hmac(o.h, o.key, ss[0])) }
      else no(s)
    }

  pure def apply(s: St, e: Ev): { st: St, v: str } =
    // one shot: hash, block, digest size; key, message
    if (e.op == "hmac")
      { st: s, v: returns(e, List(), List(hmac(pick(e.xs[0], e.xs[1], e.xs[2]), e.ss[0], e.ss[1]))) }
    // hash, block, digest size, iterations, key size; password, salt
    else if (e.op == "pbkdf2") {
      val fine = e.ss[0].n <= 63 and e.xs[4] <= 10000
      { st: s, v: answers(e, fine, List(),
          List(if (fine) pbkdf2(pick(e.xs[0], e.xs[1], e.xs[2]), e.ss[0], e.ss[1], e.xs[3], e.xs[4]) else EMPTY)) }
    }
    // hash; pass phrase, ssid
    else if (e.op == "psk") {
      val fine = e.ss[0].n >= 8 and e.ss[0].n <= 63
      { st: s, v: answers(e, fine, List(),
          List(if (fine) pbkdf2(pick(e.xs[0], 64, 20), e.ss[0], e.ss[1], 4096, 32) else EMPTY)) }
    }
    // bits; key, label, data
    else if (e.op == "prf" or e.op == "prfN")
      { st: s, v: answers(e, e.xs[0] % 8 == 0, List(),
          List(if (e.xs[0] % 8 == 0) prf(SHA1, e.ss[0], e.ss[1], e.ss[2], e.xs[0]) else EMPTY)) }
    else {
      val r = respond(s, e.op, e.xs, e.ss)
      { st: r.st, v: answers(e, r.ok, List(), r.rs) }
    }

  // --- behaviours: objects used in every order ---
  var st: St
  var ev: Ev
  pure val HASHES: List[(int, int, int)] = List((1, 64, 20), (0, 64, 20), (0, 16, 16), (0, 32, 8), (0, 24, 24), (11, 64, 20), (12, 64, 16))
  pure val LENGTHS: Set[int] = Set(0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 80, 128, 130)
  action done(op: str, xs: List[int], ss: List[Oct]): bool = {
    val r = respond(st, op, xs, ss)
    all { st' = r.st, ev' = { op: op, xs: xs, ss: ss, ok: r.ok, ri: List(), rs: r.rs } }
  }
  action init = all { st' = start, ev' = NOEV }
  action make = {
    nondet i = Set(1, 2, 3).oneOf()
    nondet h = HASHES.indices().oneOf()
    nondet k = Set(0, 1, 1).oneOf()
    nondet n = LENGTHS.oneOf()
    nondet fill = 0.to(2^256).oneOf()
    done("new", List(i, HASHES[h]._1, HASHES[h]._2, HASHES[h]._3, k), List({ n: n, v: (fill * fill * fill * fill) % 256^n }))
  }
  action use = {
    nondet i = Set(1, 2, 3).oneOf()
    nondet what = Set("setKey", "reset", "update", "digest", "call").oneOf()
    nondet n = LENGTHS.oneOf()
    nondet fill = 0.to(2^256).oneOf()
    val o = { n: n, v: (fill * fill * fill * fill) % 256^n }
    all { st.objs.keys().contains(i),
          done(what, List(i), if (what == "reset" or what == "digest") List() else List(o)) }
  }
  /// updates and digests of objects that have a key
  action feed = {
    nondet i = Set(1, 2, 3).oneOf()
    nondet what = Set("update", "digest").oneOf()
    nondet n = LENGTHS.oneOf()
    nondet fill = 0.to(2^256).oneOf()
    all { st.objs.keys().contains(i), st.objs.get(i).keyed,
          done(what, List(i), if (what == "digest") List() else List({ n: n, v: (fill * fill * fill * fill) % 256^n })) }
  }
  action step = any { make, use, use, feed, feed, feed }
  /// a keyless object never takes anything in
  val quiet = st.objs.keys().forall(i => st.objs.get(i).keyed or st.objs.get(i).buf.n == 0)
}
