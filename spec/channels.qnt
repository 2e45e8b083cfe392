/// Authenticated channels with an adversary between sender and receiver:
/// the state machine behind C03 (one-time keys and tags), C04 (AEAD),
/// C05 (sealed messages), C06 (CMAC) and C07 (SIV).
///
/// State: the channel objects that exist. Channels have no memory, so a call's
/// answer depends on the object's key and the arguments only, whatever was
/// sealed, tampered with or refused before.
module channels {
  import octets.* from "./octets"
  import chacha.* from "./chacha"
  import poly1305 as poly from "./poly1305"
  import cmac.* from "./cmac"

  /// kind 1: AEAD with explicit tag, 2: sealed messages, 3: SIV
  type Chan = { kind: int, key: Oct, constant: Oct }
  type St = { chans: int -> Chan }
  pure val start: St = { chans: Map() }
  type Resp = { st: St, ok: bool, rs: List[Oct] }

  pure def half1(k: Oct): Oct = cut(k, 0, k.n / 2)
  pure def half2(k: Oct): Oct = cut(k, k.n / 2, k.n)
  pure def sivMac(c: Chan): Cipher = aesCipher(half1(c.key))
  pure def sivCtr(c: Chan): Cipher = aesCipher(half2(c.key))
  pure def refuse(s: St): Resp = { st: s, ok: false, rs: List() }
  pure def gives(s: St, rs: List[Oct]): Resp = { st: s, ok: true, rs: rs }

  /// AEAD and sealed messages: is the nonce complete?
  pure def nonceOk(c: Chan, iv: Oct): bool = c.key.n == 32 and c.constant.n + iv.n == 12

  pure def protect(s: St, c: Chan, ss: List[Oct]): Resp =
    if (c.kind == 3) { val ads = fromO(ss, 1)
      gives(s, List(sivEncrypt(sivMac(c), sivCtr(c), ss[0], ads)).concat(ads)) }
    else if (not(nonceOk(c, ss[1]))) refuse(s)
    else {
      val nonce = cat(c.constant, ss[1])
      val ct = poly::aeadCrypt(c.key, nonce, ss[2])
      val tag = poly::aeadTag(c.key, nonce, ss[0], ct)
      gives(s, if (c.kind == 1) List(ct, tag) else List(catAll(List(ss[1], ct, tag))))
    }
  pure def receive(s: St, c: Chan, ss: List[Oct]): Resp =
    if (c.kind == 3) { val ads = fromO(ss, 1)
      val r = sivDecrypt(sivMac(c), sivCtr(c), ss[0], ads)
      if (ss[0].n >= 16 and r._1) gives(s, List(r._2).concat(ads)) else refuse(s) }
    else if (c.kind == 1)
      if (not(nonceOk(c, ss[1]))) refuse(s)
      else { val nonce = cat(c.constant, ss[1])
        gives(s, List(poly::aeadCrypt(c.key, nonce, ss[2]), poly::aeadTag(c.key, nonce, ss[0], ss[2]))) }
    else {
      val r = poly::opens(c.key, c.constant, ss[0], ss[1])
      if (r._1) gives(s, List(r._2)) else refuse(s)
    }

  /// open  xs = handle, kind; ss = key, constant
  /// protect  AEAD/sealed: ss = additional data, iv, plaintext; SIV: plaintext, additional data...
  /// receive  AEAD: additional data, iv, ciphertext; sealed: additional data, message;
  ///          SIV: message, additional data... (the lists come back unchanged)
  pure def respond(s: St, op: str, xs: List[int], ss: List[Oct]): Resp =
    if (op == "open")
      gives({ chans: s.chans.put(xs[0], { kind: xs[1], key: ss[0], constant: if (ss.length() > 1) ss[1] else EMPTY }) }, List())
    else if (not(s.chans.keys().contains(xs[0]))) refuse(s)
    else if (op == "protect") protect(s, s.chans.get(xs[0]), ss)
    else if (op == "receive") receive(s, s.chans.get(xs[0]), ss)
    else refuse(s)

  pure def apply(s: St, e: Ev): { st: St, v: str } =
    // single functions
    if (e.op == "polyTag")
      { st: s, v: returns(e, List(), List(poly::mac(e.ss[1], e.ss[0]))) }
    else if (e.op == "polyKey")
      { st: s, v: answers(e, e.ss[0].n == 32 and e.ss[1].n == 12, List(),
          List(if (e.ss[0].n == 32 and e.ss[1].n == 12) poly::keyGen(e.ss[0], e.ss[1]) else EMPTY)) }
    else if (e.op == "cmac")      // xs = toy
      { st: s, v: returns(e, List(), List(cmacOf(cipherOf(e.xs[0] == 1, e.ss[0]), e.ss[1]))) }
    else if (e.op == "s2v")       // key, strings... (which come back unchanged)
      { st: s, v: returns(e, List(), List(s2v(aesCipher(e.ss[0]), fromO(e.ss, 1))).concat(fromO(e.ss, 1))) }
    else if (e.op == "subkeys") { val k = subkeys(cipherOf(e.xs[0] == 1, e.ss[0]))
      { st: s, v: returns(e, List(), List(k._1, k._2)) } }
    else {
      val r = respond(s, e.op, e.xs, e.ss)
      { st: r.st, v: answers(e, r.ok, List(), r.rs) }
    }

  // --- behaviours: channels, senders, receivers and the adversary ---
  type Sent = { h: int, ss: List[Oct], rs: List[Oct] }
  var st: St
  var ev: Ev
  var wire: List[Sent]
  /// what the adversary holds: the arguments of a receive call not yet made
  var held: { h: int, ss: List[Oct], pt: Oct }
  /// the last step was a receive call: genuine or not, answered or not
  var last: (bool, bool, bool)
  pure val NONE = { h: 0, ss: List(), pt: EMPTY }
  pure val CH: List[(int, Oct, Oct)] = List(
    (1, rep(32, 0x80), beInt(4, 7)), (2, rep(32, 0x80), beInt(4, 7)), (2, rep(32, 0x81), beInt(4, 7)),
    (2, rep(32, 0x80), beInt(4, 8)), (2, zeros(32), EMPTY), (2, rep(32, 3), beInt(12, 2^90)),
    (3, beInt(32, 2^255 + 99), EMPTY), (3, beInt(48, 2^383 + 2^100 + 5), EMPTY), (3, beInt(64, 2^511 + 2^300 + 77), EMPTY),
    (3, beInt(32, 2^255 + 98), EMPTY), (1, zeros(32), EMPTY), (1, beInt(32, 12345678901234567890), beInt(8, 2^63 + 3)))

  action done(op: str, xs: List[int], ss: List[Oct]): bool = {
    val r = respond(st, op, xs, ss)
    all { st' = r.st, ev' = { op: op, xs: xs, ss: ss, ok: r.ok, ri: List(), rs: r.rs } }
  }
  pure def argsOf(m: Sent, kind: int): List[Oct] =
    if (kind == 1) List(m.ss[0], m.ss[1], m.rs[0])
    else if (kind == 2) List(m.ss[0], m.rs[0])
    else List(m.rs[0]).concat(fromO(m.ss, 1))
  pure def plainOf(m: Sent, kind: int): Oct = if (kind == 3) m.ss[0] else m.ss[2]

  action init = all { st' = start, ev' = NOEV, wire' = List(), held' = NONE, last' = (false, false, false) }
  action openKind(kinds: Set[int]): bool = {
    nondet h = CH.indices().filter(i => kinds.contains(CH[i]._1)).oneOf()
    all { not(st.chans.keys().contains(h)), done("open", List(h, CH[h]._1), List(CH[h]._2, CH[h]._3)),
          wire' = wire, held' = held, last' = (false, false, false) }
  }
  action send = {
    nondet h = CH.indices().oneOf()
    nondet la = Set(0, 1, 12, 15, 16, 17, 33).oneOf()
    nondet lp = Set(0, 1, 15, 16, 17, 32, 63, 64, 65).oneOf()
    nondet na = 0.to(3).oneOf()
    nondet fill = 0.to(2^256).oneOf()
    all {
      st.chans.keys().contains(h),
      val c = st.chans.get(h)
      val pt = { n: lp, v: (fill * fill * fill) % 256^lp }
      val ad = { n: la, v: (fill * fill) % 256^la }
      val ivn = 12 - c.constant.n
      val ss = if (c.kind == 3) List(pt).concat(range(0, na).foldl(List(), (l, i) => l.append(take(ad, max2(la - i * 5, 0)))))
               else List(ad, { n: ivn, v: fill % 256^ivn }, pt)
      val r = respond(st, "protect", List(h), ss)
      all {
        done("protect", List(h), ss),
        val m = { h: h, ss: ss, rs: r.rs }
        all { wire' = wire.append(m), held' = { h: h, ss: argsOf(m, c.kind), pt: plainOf(m, c.kind) } },
        last' = (false, false, false)
      }
    }
  }
  /// the adversary holds an old message again (replay)
  action fetch = {
    nondet i = wire.indices().oneOf()
    all { wire.length() > 0,
          val m = wire[i]
          held' = { h: m.h, ss: argsOf(m, st.chans.get(m.h).kind), pt: plainOf(m, st.chans.get(m.h).kind) },
          st' = st, ev' = NOEV, wire' = wire, last' = (false, false, false) }
  }
  /// one of the held strings has a bit flipped, is cut or extended
  action tamper = {
    nondet i = Set(0, 1, 2, 3).oneOf()
    nondet bit = 0.to(700).oneOf()
    nondet how = Set(0, 0, 0, 1, 2, 3, 4).oneOf()
    all {
      i < held.ss.length(),
      val o = held.ss[i]
      val o2 = if (how == 0 and o.n > 0) { n: o.n, v: { val b = 2^(bit % (8 * o.n))
                   if ((o.v / b) % 2 == 1) o.v - b else o.v + b } }
               else if (how == 1 and o.n > 0) take(o, o.n - 1)
               else if (how == 2) cat(o, byte(bit % 256))
               else if (how == 3 and o.n > 0) drop(o, 1)
               else cat(byte(bit % 256), o)
      held' = held.with("ss", held.ss.replaceAt(i, o2)),
      st' = st, ev' = NOEV, wire' = wire, last' = (false, false, false)
    }
  }
  /// the held message is sent to another channel of the same kind
  action misdirect = {
    nondet h = CH.indices().oneOf()
    all { held.ss.length() > 0, st.chans.keys().contains(h), h != held.h,
          st.chans.get(h).kind == st.chans.get(held.h).kind, st.chans.get(h).kind != 1,
          held' = held.with("h", h),
          st' = st, ev' = NOEV, wire' = wire, last' = (false, false, false) }
  }
  action deliver = all {
    held.ss.length() > 0, st.chans.keys().contains(held.h),
    val r = respond(st, "receive", List(held.h), held.ss)
    // genuine: exactly what was sent over this channel with this plaintext
    val genuine = wire.foldl(false, (g, m) => g or (m.h == held.h and plainOf(m, CH[m.h]._1) == held.pt
                                                     and argsOf(m, CH[m.h]._1) == held.ss))
    all { done("receive", List(held.h), held.ss),
          last' = (true, genuine, r.ok and (r.rs[0] == held.pt or st.chans.get(held.h).kind == 1)) },
    held' = held, wire' = wire
  }
  action traffic(kinds: Set[int]): bool = any {
    openKind(kinds), openKind(kinds), send, send, fetch, tamper, tamper, misdirect, deliver, deliver, deliver }
  action step1 = traffic(Set(1))
  action step2 = traffic(Set(2))
  action step3 = traffic(Set(3))
  action step = traffic(Set(1, 2, 3))
  /// what is received is what was sent, and nothing else is accepted
  /// (AEAD channels return the tag to compare instead of refusing)
  val authentic = not(last._1) or held.h == 0 or CH[held.h]._1 == 1 or last._2 == last._3
}
