/// ChaCha stream objects: the state machine behind C01 and C02.
///
/// State: for every live object its key, nonce and next block number. A call
/// consumes ceil(len/64) blocks of its own object; nothing else changes.
module streams {
  import octets.* from "./octets"
  import chacha.* from "./chacha"

  /// known: the nonce is known (given, or seen at the random source)
  type Stream = { key: Oct, nonce: Oct, next: int, known: bool }
  type St = { objs: int -> Stream, fresh: Set[Oct] }
  pure val start: St = { objs: Map(), fresh: Set() }
  type Resp = { st: St, ok: bool, rs: List[Oct] }

  pure def accepted(key: Oct, nonce: Oct): bool = key.n == 32 and nonce.n == 12
  pure def output(s: Stream, text: Oct): Oct = crypt(s.key, s.next, s.nonce, text)
  pure def advance(s: Stream, len: int): Stream = s.with("next", s.next + ceilDiv(len, 64))

  /// the deterministic response to the calls with a known nonce
  pure def respond(s: St, op: str, xs: List[int], ss: List[Oct]): Resp =
    if (op == "new")
      if (accepted(ss[0], ss[1]))
        { st: s.with("objs", s.objs.put(xs[0], { key: ss[0], nonce: ss[1], next: xs[1], known: true })), ok: true, rs: List() }
      else { st: s, ok: false, rs: List() }
    else if (op == "crypt" and s.objs.keys().contains(xs[0])) {
      val o = s.objs.get(xs[0])
      { st: s.with("objs", s.objs.set(xs[0], advance(o, ss[0].n))), ok: true, rs: List(output(o, ss[0])) }
    }
    else { st: s, ok: false, rs: List() }

  /// oneshot: xs = counter, direction; ss = key, nonce, text
  /// long: the same, compared on the blocks named in xs[1..]
  pure def window(whole: Oct, text: Oct, key: Oct, nonce: Oct, counter: int, i: int): bool = {
    val part = cut(text, 64 * i, min2(64 * i + 64, text.n))
    cut(whole, 64 * i, min2(64 * i + 64, text.n)) == xorOct(part, take(block(key, counter + i, nonce), part.n))
  }
  pure def apply(s: St, e: Ev): { st: St, v: str } =
    if (e.op == "oneshot")
      { st: s, v: answers(e, accepted(e.ss[0], e.ss[1]), List(),
          List(if (accepted(e.ss[0], e.ss[1])) crypt(e.ss[0], e.xs[0], e.ss[1], e.ss[2]) else EMPTY)) }
    else if (e.op == "long")
      { st: s, v: clauses(List(
          ("raised where a result is defined", e.ok),
          ("length of the ciphertext", e.rs.length() == 1 and e.rs[0].n == e.ss[2].n),
          ("a block of the ciphertext", e.rs.length() == 1 and from(e.xs, 1).foldl(true, (ok, i) =>
             ok and window(e.rs[0], e.ss[2], e.ss[0], e.ss[1], e.xs[0], i))))) }
    else if (e.op == "newRandom") {
      // rs: what the object drew from the operating system, if it drew at all
      val known = e.ok and e.rs.length() == 1 and e.rs[0].n == 12
      val o = { key: e.ss[0], nonce: if (known) e.rs[0] else EMPTY, next: e.xs[1], known: known }
      { st: s.with("objs", s.objs.put(e.xs[0], o)), v: if (e.ok) "ok" else "an object without nonce cannot be made" }
    }
    else if (e.op == "crypt" and s.objs.keys().contains(e.xs[0]) and not(s.objs.get(e.xs[0]).known)) {
      val o = s.objs.get(e.xs[0])
      { st: s.with("objs", s.objs.set(e.xs[0], advance(o, e.ss[0].n))),
        v: if (e.ok and e.rs.length() == 1 and e.rs[0].n == e.ss[0].n) "ok" else "ciphertext length" }
    }
    else if (e.op == "qr") {       // a, b, c, d: one quarter round
      val q = qr(e.xs, 0, 1, 2, 3)
      { st: s, v: answers(e, true, q, List()) }
    }
    else if (e.op == "fresh")
      // rs[0]: 32 octets of key stream of a new object without nonce
      { st: s.with("fresh", s.fresh.union(Set(e.rs[0]))),
        v: if (not(e.ok)) "raised where a result is defined"
           else if (s.fresh.contains(e.rs[0])) "two objects without nonce share their key stream" else "ok" }
    else {
      val r = respond(s, e.op, e.xs, e.ss)
      { st: r.st, v: answers(e, r.ok, List(), r.rs) }
    }

  // --- behaviours: objects are made and used in every order ---
  var st: St
  var ev: Ev
  /// blocks consumed so far, as (key, nonce, block number)
  var used: Set[(Oct, Oct, int)]
  var reuse: bool
  pure val KEYS: List[Oct] = List(zeros(32), rep(32, 255), beInt(32, 2^255 + 12345), beInt(32, 1))
  pure val NONCES: List[Oct] = List(zeros(12), rep(12, 255), beInt(12, 1), beInt(12, 2^95), beInt(12, 2^64 + 7))
  pure val STARTS: List[int] = List(0, 1, 255, 65535, 2147483647, 4294967040)
  pure val LENGTHS: Set[int] = Set(0, 1, 63, 64, 65, 100, 128, 130, 192, 200)

  action done(op: str, xs: List[int], ss: List[Oct]): bool = {
    val r = respond(st, op, xs, ss)
    all { st' = r.st, ev' = { op: op, xs: xs, ss: ss, ok: r.ok, ri: List(), rs: r.rs } }
  }
  action init = all { st' = start, ev' = NOEV, used' = Set(), reuse' = false }
  action create = {
    nondet h = Set(1, 2, 3).oneOf()
    nondet k = KEYS.indices().oneOf()
    nondet n = NONCES.indices().oneOf()
    nondet c = STARTS.indices().oneOf()
    all { not(st.objs.keys().contains(h)), done("new", List(h, STARTS[c]), List(KEYS[k], NONCES[n])),
          used' = used, reuse' = reuse }
  }
  action refuse = {
    nondet kn = Set(0, 16, 31, 33).oneOf()
    nondet nn = Set(8, 11, 13, 12).oneOf()
    all { done("new", List(9, 0), List(rep(kn, 7), rep(nn, 9))), used' = used, reuse' = reuse }
  }
  action use = {
    nondet h = Set(1, 2, 3).oneOf()
    nondet len = LENGTHS.oneOf()
    nondet dir = Set(0, 1).oneOf()
    nondet fill = 0.to(2^200).oneOf()
    all {
      st.objs.keys().contains(h),
      done("crypt", List(h, dir), List({ n: len, v: (fill * fill * fill * fill * fill * fill * fill * fill) % 256^len })),
      val o = st.objs.get(h)
      val blocks = range(0, ceilDiv(len, 64)).foldl(Set(), (z, i) => z.union(Set((o.key, o.nonce, o.next + i))))
      val others = st.objs.keys().filter(x => x != h and st.objs.get(x).key == o.key and st.objs.get(x).nonce == o.nonce)
      all { used' = used.union(blocks),
            // within one object no block is ever used twice
            reuse' = or { reuse, others.size() == 0 and blocks.exists(x => used.contains(x)) } }
    }
  }
  action step = any { create, use, use, refuse }
  val noBlockTwice = not(reuse)
}
