/// The AES block cipher (FIPS 197), encryption direction, and the S-box from
/// its algebraic definition.
module aes {
  import octets.* from "./octets"

  pure def xtime(a: int, poly: int): int = if (a >= 128) xorNat(2 * a, poly) else 2 * a
  pure def gmul(a: int, b: int, poly: int): int =
    range(0, 8).foldl((0, a, b), (s, _) =>
      (if (s._3 % 2 == 1) xor8(s._1, s._2) else s._1, xtime(s._2, poly), s._3 / 2))._1
  /// inverse in GF(2^8) by exponentiation, a^254 (and 0 for 0)
  pure def ginv(a: int, poly: int): int = {
    val a2 = gmul(a, a, poly)
    range(0, 6).foldl((a2, a2), (s, _) => {
      val q = gmul(s._1, s._1, poly)
      (q, gmul(s._2, q, poly))
    })._2
  }
  pure def rotl8(a: int, k: int): int = ((a * 2^k) % 256) + a / 2^(8 - k)
  pure val SBOX: List[int] = range(0, 256).foldl(List(), (l, i) => {
    val b = ginv(i, 0x11b)
    l.append(xor8(xor8(xor8(b, rotl8(b, 1)), xor8(rotl8(b, 2), rotl8(b, 3))), xor8(rotl8(b, 4), 0x63)))
  })
  /// SubBytes and MixColumns of one octet, as a column (most significant first)
  pure val T0: List[int] = SBOX.foldl(List(), (l, s) => {
    val s2 = xtime(s, 0x11b)
    l.append(((s2 * 256 + s) * 256 + s) * 256 + xor8(s2, s))
  })
  pure val T1: List[int] = T0.foldl(List(), (l, w) => l.append(rotl32(w, 16777216)))
  pure val T2: List[int] = T0.foldl(List(), (l, w) => l.append(rotl32(w, 65536)))
  pure val T3: List[int] = T0.foldl(List(), (l, w) => l.append(rotl32(w, 256)))

  pure def subWord(w: int): int =
    ((SBOX[w / 16777216] * 256 + SBOX[(w / 65536) % 256]) * 256 + SBOX[(w / 256) % 256]) * 256 + SBOX[w % 256]
  pure val RCON: List[int] = range(0, 10).foldl((List(), 1), (s, _) => (s._1.append(s._2 * 16777216), xtime(s._2, 0x11b)))._1

  pure def schedule(key: Oct): List[int] = {
    val nk = key.n / 4
    val w0 = range(0, nk).foldl(List(), (l, i) => l.append((key.v / 4294967296^(nk - 1 - i)) % 4294967296))
    range(nk, 4 * (nk + 7)).foldl(w0, (w, i) => {
      val t = w[i - 1]
      val u = if (i % nk == 0) xor32(subWord(rotl32(t, 256)), RCON[i / nk - 1])
              else if (nk > 6 and i % nk == 4) subWord(t) else t
      w.append(xor32(w[i - nk], u))
    })
  }
  pure def word(b: Oct, i: int): int = (b.v / 4294967296^(3 - i)) % 4294967296
  pure def byteAt(w: int, i: int): int = (w / 256^(3 - i)) % 256
  pure def encryptWith(w: List[int], b: Oct): Oct = {
    val nr = w.length() / 4 - 1
    val s0 = range(0, 4).foldl(List(), (l, i) => l.append(xor32(word(b, i), w[i])))
    val s1 = range(1, nr).foldl(s0, (s, r) =>
      range(0, 4).foldl(List(), (l, i) => l.append(
        xor32(xor32(xor32(T0[s[i] / 16777216], T1[(s[(i + 1) % 4] / 65536) % 256]),
                    xor32(T2[(s[(i + 2) % 4] / 256) % 256], T3[s[(i + 3) % 4] % 256])), w[4 * r + i]))))
    val s2 = range(0, 4).foldl(List(), (l, i) => l.append(
      xor32(((SBOX[s1[i] / 16777216] * 256 + SBOX[(s1[(i + 1) % 4] / 65536) % 256]) * 256
             + SBOX[(s1[(i + 2) % 4] / 256) % 256]) * 256 + SBOX[s1[(i + 3) % 4] % 256], w[4 * nr + i])))
    { n: 16, v: s2.foldl(0, (a, x) => a * 4294967296 + x) }
  }
  pure def aesEncrypt(key: Oct, b: Oct): Oct = encryptWith(schedule(key), b)

  /// A block cipher whose value at zero is the key itself: every subkey case
  /// of the modes below can be reached with it.
  pure def toyEncrypt(key: Oct, b: Oct): Oct =
    { n: 16, v: (b.v * 0x9E3779B97F4A7C15F39CC0605CEDC835 + key.v) % 2^128 }
}
