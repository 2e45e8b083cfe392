// -*- mode: Bluespec; -*-
/// Why the loops and caches of the library compute what the other modules
/// define: one small machine each, with an inductive invariant that Apalache
/// proves for integers of any size (vf/proofs.py, thorough tier).
/// Conjuncts of the form x.in(...) give the variables their types.

/// Weierstrass multiples (X9.62 D.3.2, C11): from the left, the bits of 3e and
/// of e. The point is 1, so the register holds the multiple reached.
module signedDigits {
  var e3: int   // the leading bits of 3e read so far
  var e: int    // the same of e
  var r: int    // the register
  action init = all { e3' = 1, e' = 0, r' = 1 }
  action step = {
    nondet b3 = oneOf(Set(0, 1))
    nondet b = oneOf(Set(0, 1))
    all {
      e3' = 2 * e3 + b3,
      e' = 2 * e + b,
      r' = 2 * r + (if (b3 == 1 and b == 0) 1 else 0) - (if (b3 == 0 and b == 1) 1 else 0),
    }
  }
  // at the end all bits but the last have been read, and 3e/2 - e/2 = e
  val inv = and { e3.in(Int), e.in(Int), r.in(Int), r == e3 - e }
}

/// Edwards and Montgomery multiples (C11): double and add, from the right.
module rightToLeft {
  var scalar: int
  var q: int
  var point: int
  var asked: int
  action init = {
    nondet k = Int.oneOf()
    nondet g = Int.oneOf()
    all { k >= 0, scalar' = k, q' = 0, point' = g, asked' = k * g }
  }
  action step = all {
    scalar > 0,
    scalar' = scalar / 2,
    q' = if (scalar % 2 == 1) q + point else q,
    point' = 2 * point,
    asked' = asked,
  }
  val inv = and { scalar.in(Int), q.in(Int), point.in(Int), asked.in(Int),
                  scalar >= 0, q + scalar * point == asked }
}

/// the ladders (C13): the registers differ by the point, which is 1
module ladder {
  var read: int    // the leading bits of the scalar
  var r0: int
  var r1: int
  action init = all { read' = 0, r0' = 0, r1' = 1 }
  action step = {
    nondet bit = oneOf(Set(0, 1))
    all {
      read' = 2 * read + bit,
      r0' = if (bit == 1) r0 + r1 else 2 * r0,
      r1' = if (bit == 1) 2 * r1 else r0 + r1,
    }
  }
  val inv = and { read.in(Int), r0.in(Int), r1.in(Int), r0 == read, r1 == r0 + 1 }
}

/// Euclid's algorithm with coefficients (C17)
module euclid {
  var a: int
  var m: int
  var c: int
  var d: int
  var uc: int
  var vc: int
  var ud: int
  var vd: int
  action init = {
    nondet x = Int.oneOf()
    nondet y = Int.oneOf()
    all { x >= 0, y > x, a' = x, m' = y, c' = x, d' = y, uc' = 1, vc' = 0, ud' = 0, vd' = 1 }
  }
  action step = {
    nondet q = Int.oneOf()     // the quotient and the remainder of d by c
    nondet rest = Int.oneOf()
    all {
      c > 0, rest >= 0, rest < c, d == q * c + rest,
      a' = a, m' = m, c' = rest, d' = c,
      uc' = ud - q * uc, vc' = vd - q * vc, ud' = uc, vd' = vc,
    }
  }
  val inv = and { a.in(Int), m.in(Int), c.in(Int), d.in(Int), uc.in(Int), vc.in(Int), ud.in(Int), vd.in(Int),
                  c >= 0, d > c, c == uc * a + vc * m, d == ud * a + vd * m }
}

/// text from octets and back (C08, C09): digits of base n, from the right
module digits {
  var n: int
  var rest: int
  var weight: int
  var text: int     // the value of the digits written
  var asked: int
  action init = {
    nondet v = Int.oneOf()
    nondet b = oneOf(Set(27, 85, 94, 256))
    all { v >= 0, n' = b, rest' = v, weight' = 1, text' = 0, asked' = v }
  }
  action step = {
    nondet q = Int.oneOf()
    nondet digit = Int.oneOf()
    all {
      rest > 0, digit >= 0, digit < n, rest == q * n + digit,
      n' = n, rest' = q, text' = text + digit * weight, weight' = weight * n, asked' = asked,
    }
  }
  val inv = and { n.in(Set(27, 85, 94, 256)), rest.in(Int), weight.in(Int), text.in(Int), asked.in(Int),
                  rest >= 0, weight > 0, text >= 0, text < weight, rest * weight + text == asked }
}

/// trial division (C19): what is left times what was found is the number
module trial {
  var left: int
  var found: int
  var asked: int
  action init = {
    nondet v = Int.oneOf()
    all { v > 0, left' = v, found' = 1, asked' = v }
  }
  action step = {
    nondet d = Int.oneOf()
    nondet q = Int.oneOf()
    all { d >= 2, q >= 1, left == q * d, left' = q, found' = found * d, asked' = asked }
  }
  val inv = and { left.in(Int), found.in(Int), asked.in(Int), left > 0, found > 0, left * found == asked }
}

/// the phase 1 key a TKIP mixer keeps (C26): the code's cache against the
/// mixer of wireless.qnt, which keeps none. -1: not set.
module mixerCache {
  var tk: int
  var ta: int
  var upper: int          // of the packet number set last
  var cachedUpper: int    // upper4SequenceOctets
  var pTk: int            // what phase1Key was computed from
  var pTa: int
  var pUpper: int
  var right: bool         // were all keys mixed from what was set at the time?
  action phase1(k, t, u) = all { pTk' = k, pTa' = t, pUpper' = u }
  action kept = phase1(pTk, pTa, pUpper)
  action init = {
    nondet u = Int.oneOf()
    all { u >= 0, tk' = -1, ta' = -1, upper' = u, cachedUpper' = u, phase1(-1, -1, -1), right' = true }
  }
  action setKey = {
    nondet k = Int.oneOf()
    all {
      k >= 0, tk' = k, ta' = ta, upper' = upper, right' = right,
      cachedUpper' = if (ta >= 0) upper else cachedUpper,
      if (ta >= 0) phase1(k, ta, upper) else kept,
    }
  }
  action setTA = {
    nondet t = Int.oneOf()
    all {
      t >= 0, ta' = t, tk' = tk, upper' = upper, right' = right,
      cachedUpper' = if (tk >= 0) upper else cachedUpper,
      if (tk >= 0) phase1(tk, t, upper) else kept,
    }
  }
  action setPn = {
    nondet u = Int.oneOf()
    all { u >= 0, upper' = u, tk' = tk, ta' = ta, cachedUpper' = cachedUpper, kept, right' = right }
  }
  action newKey = {
    nondet u = Int.oneOf()
    all {
      u >= 0, tk >= 0, ta >= 0, tk' = tk, ta' = ta, upper' = u, cachedUpper' = u,
      if (u != cachedUpper) phase1(tk, ta, u) else kept,
      right' = (right and (u != cachedUpper or (pTk == tk and pTa == ta and pUpper == u))),
    }
  }
  action step = any { setKey, setTA, setPn, newKey }
  val inv = and { tk.in(Int), ta.in(Int), upper.in(Int), cachedUpper.in(Int), pTk.in(Int), pTa.in(Int), pUpper.in(Int), right.in(Bool),
                  tk >= -1, ta >= -1, upper >= 0, right,
                  (tk >= 0 and ta >= 0) implies and { pTk == tk, pTa == ta, pUpper == cachedUpper } }
}

/// key streams (C02): any one block of any one object is used at most once.
/// The block watched is chosen first and stands for all.
module streamBlocks {
  var upTo: int       // the first unused block of the watched object
  var watched: int
  var uses: int
  action init = {
    nondet n = Int.oneOf()
    nondet w = Int.oneOf()
    all { n >= 0, upTo' = n, watched' = w, uses' = 0 }
  }
  action crypt = {    // a message of some blocks on this object
    nondet k = Int.oneOf()
    all {
      k >= 0, upTo' = upTo + k, watched' = watched,
      uses' = if (upTo <= watched and watched < upTo + k) uses + 1 else uses,
    }
  }
  action other = all { upTo' = upTo, watched' = watched, uses' = uses }
  action step = any { crypt, other }
  val inv = and { upTo.in(Int), watched.in(Int), uses.in(Int),
                  uses == 0 or uses == 1, uses == 1 implies watched < upTo }
}

/// HMAC objects (C27): what the hash holds is the padded key and the octets
/// since the last reset. Messages are numbers, one digit more per octet.
module hmacHistory {
  var keyed: int        // the key set last; -1: none
  var pad: int          // k_xor_ipad, k_xor_opad
  var innerPad: int     // what the inner hash was begun with
  var inner: int        // and what it was given since
  var said: int         // what the user said since
  action init = all { keyed' = -1, pad' = -1, innerPad' = -1, inner' = 1, said' = 1 }
  action setKey = {
    nondet k = Int.oneOf()
    all { k >= 0, keyed' = k, pad' = k, innerPad' = k, inner' = 1, said' = 1 }
  }
  action reset = all { keyed >= 0, keyed' = keyed, pad' = pad, innerPad' = pad, inner' = 1, said' = 1 }
  action update = {
    nondet o = 0.to(255).oneOf()
    all { keyed >= 0, keyed' = keyed, pad' = pad, innerPad' = innerPad, inner' = 256 * inner + o, said' = 256 * said + o }
  }
  action digest = all { keyed >= 0, keyed' = keyed, pad' = pad, innerPad' = innerPad, inner' = inner, said' = said }
  action step = any { setKey, reset, update, digest }
  val inv = and { keyed.in(Int), pad.in(Int), innerPad.in(Int), inner.in(Int), said.in(Int),
                  keyed >= 0 implies and { pad == keyed, innerPad == keyed, inner == said } }
}

/// S-box orbits (C30): the cycles of a permutation, found in one pass. Six
/// elements, all permutations.
module orbits {
  pure val N = 6
  pure val ALL = 0.to(N - 1)
  var perm: int -> int
  var i: int               // cycles starting before i are complete
  var element: int
  var done: Set[int]       // the elements of the complete cycles
  var cycle: Set[int]      // the elements of the current one
  var fits: bool           // the inner loop was never cut short
  action init = {
    nondet f = ALL.setOfMaps(ALL).oneOf()
    all { ALL.forall(x => ALL.exists(y => f.get(y) == x)),
          perm' = f, i' = 0, element' = 0, done' = Set(), cycle' = Set(), fits' = true }
  }
  action walk = all {
    i < N, not(i.in(done)), cycle == Set() or element != i,
    perm' = perm, i' = i, done' = done,
    cycle' = cycle.union(Set(element)), element' = perm.get(element),
    fits' = (fits and cycle.size() < N - i),
  }
  action close = all {
    i < N, cycle != Set(), element == i,
    perm' = perm, i' = i, done' = done.union(cycle), cycle' = Set(), element' = i, fits' = fits,
  }
  action skip = all {
    i < N, i.in(done), cycle == Set(),
    perm' = perm, i' = i + 1, done' = done, cycle' = Set(), element' = i + 1, fits' = fits,
  }
  action step = any { walk, close, skip }
  val inv = and {
    perm.in(ALL.setOfMaps(ALL)), i.in(0.to(N)), element.in(0.to(N)), done.in(ALL.powerset()), cycle.in(ALL.powerset()), fits.in(Bool),
    ALL.forall(x => ALL.exists(y => perm.get(y) == x)),
    fits,
    done.forall(x => perm.get(x).in(done)),
    ALL.forall(x => x < i implies x.in(done)),
    cycle == Set() implies element == i,
    cycle != Set() implies and {
      i.in(cycle), element.in(ALL), element == i or not(element.in(cycle)),
      cycle.intersect(done) == Set(),
      cycle.exists(x => perm.get(x) == element),
      cycle.forall(x => perm.get(x).in(cycle) or perm.get(x) == element),
      // all but the smallest are reached from others
      cycle.forall(x => x == i or cycle.exists(y => perm.get(y) == x)),
    },
    // each complete cycle is one, not a union: nothing is added twice
    i == N implies done == ALL,
  }
}

/// the block counter of the 802.11 PRF (C29) fits one octet and the stream is
/// long enough, up to 255 blocks
module expansion {
  var asked: int
  var blocks: int
  var made: int
  action init = {
    nondet n = 0.to(5100).oneOf()
    all { asked' = n, blocks' = 0, made' = 0 }
  }
  action step = all {
    made <= asked,       // the last counter used is blocks
    asked' = asked, blocks' = blocks + 1, made' = made + 20,
  }
  val inv = and { asked.in(Int), blocks.in(Int), made.in(Int), asked >= 0, asked <= 5100, blocks >= 0,
                  made == 20 * blocks, made <= asked + 20, made <= asked implies blocks < 256 }
}

/// Tonelli and Shanks' square root (C18), in exponents of a primitive root:
/// p - 1 = s 2^6, x = root * g^(s y), b = g^(s f), and so on, so that x^2 = a b
/// reads 2y = f modulo 64
module tonelli {
  pure def pow2(k) = if (k == 0) 1 else if (k == 1) 2 else if (k == 2) 4 else if (k == 3) 8 else if (k == 4) 16 else if (k == 5) 32 else 64
  var y: int
  var f: int
  var g: int
  var r: int
  action init = {
    nondet a = 0.to(63).oneOf()
    nondet odd = 0.to(31).oneOf()
    all { y' = a, f' = (2 * a) % 64, g' = 2 * odd + 1, r' = 6 }
  }
  action step = {
    nondet m = 1.to(6).oneOf()   // the order of b is 2^m
    all {
      m < r, (f * pow2(m)) % 64 == 0, (f * pow2(m - 1)) % 64 != 0,
      y' = (y + g * pow2(r - m - 1)) % 64,
      g' = (g * pow2(r - m)) % 64,
      f' = (f + g * pow2(r - m)) % 64,
      r' = m,
    }
  }
  val inv = and {
    y.in(0.to(63)), f.in(0.to(63)), g.in(0.to(63)), r.in(1.to(6)),
    (2 * y) % 64 == f,
    // the order of g is 2^r, the order of b at most half of it: the loop ends
    (g * pow2(r)) % 64 == 0, (g * pow2(r - 1)) % 64 == 32, (f * pow2(r - 1)) % 64 == 0,
  }
}
