/// The 802.11i keyed objects: Michael and TKIP MIC objects (C24), the TKIP
/// key mixing (C25) and mixers with their phase 1 key (C26).
///
/// State: for every object its key (and address); a mixer caches the phase 1
/// key, which the specification does not: the answer depends only on the key
/// and address in force and the packet number of the call.
module wireless {
  import octets.* from "./octets"
  import dot11.* from "./dot11"

  /// kind 0 Michael, 2 and 3 TKIP MIC of version D2 and D3, 4 mixer
  type Obj = { kind: int, hasKey: bool, key: Oct, hasTa: bool, ta: Oct }
  type St = { objs: int -> Obj }
  pure val start: St = { objs: Map() }
  type Resp = { st: St, ok: bool, rs: List[Oct] }
  pure def no(s: St): Resp = { st: s, ok: false, rs: List() }
  pure def gives(s: St, rs: List[Oct]): Resp = { st: s, ok: true, rs: rs }
  pure def keySize(kind: int): int = if (kind == 4) 16 else 8
  pure def write(s: St, h: int, o: Obj): Resp = gives({ objs: s.objs.put(h, o) }, List())

  pure def respond(s: St, op: str, xs: List[int], ss: List[Oct]): Resp =
    // new: handle, kind, key given?, address given?, packet number given?; key, address, packet number
    if (op == "new")
      if ((xs[2] == 1 and ss[0].n != keySize(xs[1])) or (xs[1] == 4 and xs[3] == 1 and ss[1].n != 6)
          or (xs[1] == 4 and xs[4] == 1 and ss[2].n != 6)) no(s)
      else write(s, xs[0], { kind: xs[1], hasKey: xs[2] == 1, key: if (xs[2] == 1) ss[0] else EMPTY,
                            hasTa: xs[3] == 1, ta: if (xs[3] == 1) ss[1] else EMPTY })
    else if (not(s.objs.keys().contains(xs[0]))) no(s)
    else {
      val o = s.objs.get(xs[0])
      if (op == "setKey")
        if (ss[0].n == keySize(o.kind)) write(s, xs[0], o.with("hasKey", true).with("key", ss[0])) else no(s)
      else if (op == "setTA")
        if (o.kind == 4 and ss[0].n == 6) write(s, xs[0], o.with("hasTa", true).with("ta", ss[0])) else no(s)
      else if (op == "setPn") if (o.kind == 4 and ss[0].n == 6) gives(s, List()) else no(s)
      else if (op == "newKey")   // packet number
        if (o.kind == 4 and o.hasKey and o.hasTa and ss[0].n == 6) gives(s, List(mixedKey(o.key, o.ta, ss[0]))) else no(s)
      else if (op == "hash" or op == "call")     // data: a Michael value
        if (o.kind == 0 and o.hasKey) gives(s, List(michael(o.key, ss[0]))) else no(s)
      else if (op == "mic")      // handle, priority; source, destination, data
        if (o.kind >= 2 and o.kind <= 3 and o.hasKey and ss[0].n == 6 and ss[1].n == 6 and xs[1] >= 0 and xs[1] <= 15)
          gives(s, List(tkipMic(o.kind, o.key, ss[0], ss[1], xs[1], ss[2]))) else no(s)
      else no(s)
    }
  /// the first three octets: packet number octets 0 and 1 around a filler
  /// that keeps RC4 away from its weak keys
  pure def seedOk(pn: Oct, k: Oct): bool = and {
    k.n == 16, octAt(k, 0) == octAt(pn, 0), octAt(k, 2) == octAt(pn, 1),
    octAt(k, 1) >= 32, octAt(k, 1) < 128, (octAt(k, 1) / 32) % 2 == 1 }
  pure def apply(s: St, e: Ev): { st: St, v: str } =
    if (e.op == "mix")          // key, address, packet number: a new mixer, asked once
      { st: s, v: if (e.ok and e.rs.length() == 1 and not(seedOk(e.ss[2], e.rs[0]))) "weak key octets"
                  else returns(e, List(), List(mixedKey(e.ss[0], e.ss[1], e.ss[2]))) }
    else {
      val r = respond(s, e.op, e.xs, e.ss)
      { st: r.st, v: answers(e, r.ok, List(), r.rs) }
    }

  // --- behaviours ---
  var st: St
  var ev: Ev
  pure val KEYS: List[Oct] = List(beInt(16, 0x000102030405060708090a0b0c0d0e0f), rep(16, 255), zeros(16),
    beInt(16, 2^127 + 77), rep(15, 3))
  pure val TAS: List[Oct] = List(beInt(6, 0x102233445566), rep(6, 255), zeros(6), beInt(6, 1), rep(5, 9))
  /// packet numbers that share some of the upper octets (octets 2 to 5)
  pure val PNS: List[Oct] = List(zeros(6), beInt(6, 0x010000000000), beInt(6, 0xfffe00000000), beInt(6, 0x00ff00000001),
    beInt(6, 0x000001000000), beInt(6, 0x000000010000), beInt(6, 0x000000000100), beInt(6, 0x000000000001),
    beInt(6, 0x123401000000), rep(6, 255), beInt(6, 0xffff00000001), rep(7, 1))
  pure val MKEYS: List[Oct] = List(zeros(8), rep(8, 255), beInt(8, 0x82925c1ca1d130b8), beInt(8, 0x80000000), rep(7, 1), rep(9, 1), EMPTY)
  action done(op: str, xs: List[int], ss: List[Oct]): bool = {
    val r = respond(st, op, xs, ss)
    all { st' = r.st, ev' = { op: op, xs: xs, ss: ss, ok: r.ok, ri: List(), rs: r.rs } }
  }
  action init = all { st' = start, ev' = NOEV }
  pure def has(s: St, h: int, kinds: Set[int]): bool = s.objs.keys().contains(h) and kinds.contains(s.objs.get(h).kind)

  action makeMixer = {
    nondet h = Set(1, 2).oneOf()
    nondet k = KEYS.indices().oneOf()
    nondet t = TAS.indices().oneOf()
    nondet n = PNS.indices().oneOf()
    nondet g = 0.to(7).oneOf()
    done("new", List(h, 4, g % 2, (g / 2) % 2, g / 4), List(KEYS[k], TAS[t], PNS[n]))
  }
  action setMixer = {
    nondet h = Set(1, 2).oneOf()
    nondet k = KEYS.indices().oneOf()
    nondet t = TAS.indices().oneOf()
    nondet n = PNS.indices().oneOf()
    nondet what = Set(0, 1, 2).oneOf()
    all { has(st, h, Set(4)),
          if (what == 0) done("setKey", List(h), List(KEYS[k])) else if (what == 1) done("setTA", List(h), List(TAS[t]))
          else done("setPn", List(h), List(PNS[n])) }
  }
  action mix = {
    nondet h = Set(1, 2).oneOf()
    nondet n = PNS.indices().oneOf()
    all { has(st, h, Set(4)), done("newKey", List(h), List(PNS[n])) }
  }
  action mixers = any { makeMixer, setMixer, setMixer, mix, mix, mix }

  action makeMic = {
    nondet h = Set(1, 2, 3).oneOf()
    nondet kind = Set(0, 2, 3).oneOf()
    nondet k = MKEYS.indices().oneOf()
    nondet keyedNow = Set(0, 1, 1).oneOf()
    done("new", List(h, kind, keyedNow, 0, 0), List(MKEYS[k]))
  }
  action rekey = {
    nondet h = Set(1, 2, 3).oneOf()
    nondet k = MKEYS.indices().oneOf()
    all { has(st, h, Set(0, 2, 3)), done("setKey", List(h), List(MKEYS[k])) }
  }
  action digest = {
    nondet h = Set(1, 2, 3).oneOf()
    nondet n = Set(0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 64, 100).oneOf()
    nondet fill = 0.to(2^256).oneOf()
    nondet pr = (-1).to(16).oneOf()
    nondet adr = Set(6, 6, 6, 6, 5, 7).oneOf()
    val data = { n: n, v: (fill * fill * fill * fill) % 256^n }
    all { has(st, h, Set(0, 2, 3)),
          if (st.objs.get(h).kind == 0) done("hash", List(h), List(data))
          else done("mic", List(h, pr), List({ n: adr, v: fill % 256^adr }, { n: 6, v: (fill / 2^64) % 256^6 }, data)) }
  }
  action mics = any { makeMic, rekey, digest, digest, digest }
  action step = any { mixers, mics }
  val keysFit = st.objs.keys().forall(h => not(st.objs.get(h).hasKey) or st.objs.get(h).key.n == keySize(st.objs.get(h).kind))
}
