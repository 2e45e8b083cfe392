/// SHA-1, a toy hash, HMAC (RFC 2104), PBKDF2 (RFC 2898) and the 802.11 PRF.
module hashes {
  import octets.* from "./octets"

  // --- SHA-1 (FIPS 180) ---
  type H5 = { a: int, b: int, c: int, d: int, e: int }
  pure val SHA1_START: H5 = { a: 0x67452301, b: 0xefcdab89, c: 0x98badcfe, d: 0x10325476, e: 0xc3d2e1f0 }
  pure def sha1Pad(o: Oct, total: int): Oct = {
    val z = emod(55 - o.n, 64)
    { n: o.n + 1 + z + 8, v: (o.v * 256 + 128) * 256^(z + 8) + 8 * total }
  }
  pure def sha1Words(blk: Oct): List[int] =
    range(16, 80).foldl(range(0, 16).foldl(List(), (l, i) => l.append((blk.v / 4294967296^(15 - i)) % 4294967296)),
      (w, i) => w.append(rotl32(xor32(xor32(w[i - 3], w[i - 8]), xor32(w[i - 14], w[i - 16])), 2)))
  pure def sha1Step(h: H5, blk: Oct): H5 = {
    val w = sha1Words(blk)
    val r = range(0, 80).foldl(h, (s, i) => {
      val f = if (i < 20) xor32(s.d, and32(s.b, xor32(s.c, s.d)))
              else if (i < 40 or i >= 60) xor32(xor32(s.b, s.c), s.d)
              else or32(and32(s.b, s.c), and32(s.d, xor32(s.b, s.c)))
      val k = if (i < 20) 0x5a827999 else if (i < 40) 0x6ed9eba1 else if (i < 60) 0x8f1bbcdc else 0xca62c1d6
      { a: (rotl32(s.a, 32) + f + s.e + k + w[i]) % 4294967296,
        b: s.a, c: rotl32(s.b, 1073741824), d: s.c, e: s.d }
    })
    { a: add32(h.a, r.a), b: add32(h.b, r.b), c: add32(h.c, r.c), d: add32(h.d, r.d), e: add32(h.e, r.e) }
  }
  pure def sha1From(h: H5, o: Oct, total: int): Oct = {
    val r = chunks(sha1Pad(o, total), 64).foldl(h, (s, b) => sha1Step(s, b))
    { n: 20, v: (((r.a * 4294967296 + r.b) * 4294967296 + r.c) * 4294967296 + r.d) * 4294967296 + r.e }
  }
  pure def sha1(o: Oct): Oct = sha1From(SHA1_START, o, o.n)

  // --- hash functions as data ---
  /// kind 1: SHA-1.  kind 0: a toy hash with any block and digest size whose
  /// value depends on every octet and the length.
  type Hash = { kind: int, block: int, size: int }
  pure val SHA1: Hash = { kind: 1, block: 64, size: 20 }
  pure def toyHash(block: int, sz: int): Hash = { kind: 0, block: block, size: sz }
  pure def toyDigest(sz: int, o: Oct): Oct =
    { n: sz, v: ((o.v * 0x9E3779B97F4A7C15F39CC0605CEDC835 + o.n * 0x243F6A8885A308D313198A2E03707345 + 0x2545F491)
                   % (256^sz - 189)) }
  pure def hashOf(h: Hash, o: Oct): Oct = if (h.kind == 1) sha1(o) else toyDigest(h.size, o)

  // --- HMAC ---
  pure def hmacKey(h: Hash, key: Oct): Oct = {
    val k = if (key.n > h.block) hashOf(h, key) else key
    { n: h.block, v: k.v * 256^(h.block - k.n) }
  }
  pure def hmac(h: Hash, key: Oct, msg: Oct): Oct = {
    val k = hmacKey(h, key)
    hashOf(h, cat(xorOct(k, rep(h.block, 0x5c)), hashOf(h, cat(xorOct(k, rep(h.block, 0x36)), msg))))
  }

  /// a keyed HMAC with its two pads prepared (and their SHA-1 states)
  type Keyed = { h: Hash, ipad: Oct, opad: Oct, hi: H5, ho: H5 }
  pure def keyed(h: Hash, key: Oct): Keyed = {
    val k = hmacKey(h, key)
    val ip = xorOct(k, rep(h.block, 0x36))
    val op = xorOct(k, rep(h.block, 0x5c))
    { h: h, ipad: ip, opad: op,
      hi: if (h.kind == 1) sha1Step(SHA1_START, ip) else SHA1_START,
      ho: if (h.kind == 1) sha1Step(SHA1_START, op) else SHA1_START }
  }
  pure def mac(k: Keyed, msg: Oct): Oct =
    if (k.h.kind == 1) sha1From(k.ho, sha1From(k.hi, msg, msg.n + 64), 84)
    else hashOf(k.h, cat(k.opad, hashOf(k.h, cat(k.ipad, msg))))

  // --- PBKDF2 ---
  pure def pbkdf2Block(k: Keyed, salt: Oct, iterations: int, i: int): Oct = {
    val u1 = mac(k, cat(salt, beInt(4, i)))
    val r = range(1, iterations).foldl((u1, u1.v), (s, _) => {
      val u = mac(k, s._1)
      (u, xorNat(s._2, u.v)) })
    { n: k.h.size, v: r._2 }
  }
  pure def pbkdf2(h: Hash, password: Oct, salt: Oct, iterations: int, sz: int): Oct = {
    val k = keyed(h, password)
    take(catAll(range(1, ceilDiv(sz, h.size) + 1).foldl(List(), (l, i) =>
      l.append(pbkdf2Block(k, salt, iterations, i)))), sz)
  }

  // --- IEEE 802.11i PRF-n ---
  pure def prf(h: Hash, key: Oct, label: Oct, data: Oct, nbits: int): Oct = {
    val k = keyed(h, key)
    take(catAll(range(0, ceilDiv(nbits, 8 * h.size)).foldl(List(), (l, i) =>
      l.append(mac(k, catAll(List(label, byte(0), data, byte(i))))))), nbits / 8)
  }
}
