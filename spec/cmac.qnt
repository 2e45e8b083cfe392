/// CMAC (NIST SP 800-38B, RFC 4493) and SIV (RFC 5297), for any block cipher.
module cmac {
  import octets.* from "./octets"
  import aes.* from "./aes"

  /// a keyed block cipher, AES or the toy cipher, with its key schedule
  type Cipher = { toy: bool, key: Oct, w: List[int] }
  pure def aesCipher(key: Oct): Cipher = { toy: false, key: key, w: schedule(key) }
  pure def toyCipher(key: Oct): Cipher = { toy: true, key: key, w: List() }
  pure def cipherOf(toy: bool, key: Oct): Cipher = if (toy) toyCipher(key) else aesCipher(key)
  pure def enc(c: Cipher, b: Oct): Oct = if (c.toy) toyEncrypt(c.key, b) else encryptWith(c.w, b)

  pure val B128: int = 2^128
  pure def dbl(v: int): int = if (v >= 2^127) xorNat(2 * v - B128, 0x87) else 2 * v
  pure def xo(a: Oct, b: Oct): Oct = { n: 16, v: xorNat(a.v, b.v) }
  pure def pad10(o: Oct): Oct = { n: 16, v: (o.v * 256 + 128) * 256^(15 - o.n) }

  pure def subkeys(c: Cipher): (Oct, Oct) = {
    val k1 = dbl(enc(c, zeros(16)).v)
    ({ n: 16, v: k1 }, { n: 16, v: dbl(k1) })
  }
  pure def cmacOf(c: Cipher, m: Oct): Oct = {
    val k = subkeys(c)
    val nb = max2(1, ceilDiv(m.n, 16))
    val last = cut(m, 16 * (nb - 1), m.n)
    val lastM = if (last.n == 16) xo(last, k._1) else xo(pad10(last), k._2)
    val x = range(0, nb - 1).foldl(zeros(16), (acc, i) => enc(c, xo(acc, cut(m, 16 * i, 16 * i + 16))))
    enc(c, xo(x, lastM))
  }

  pure def s2v(c: Cipher, strings: List[Oct]): Oct =
    if (strings.length() == 0) cmacOf(c, { n: 16, v: 1 })
    else {
      val last = strings[strings.length() - 1]
      val d = range(0, strings.length() - 1).foldl(cmacOf(c, zeros(16)).v, (acc, i) =>
        xorNat(dbl(acc), cmacOf(c, strings[i]).v))
      val t = if (last.n >= 16) { n: last.n, v: xorNat(last.v, d) }
              else { n: 16, v: xorNat(dbl(d), pad10(last).v) }
      cmacOf(c, t)
    }
  /// clear the 31st and 63rd bits (from the right) of the synthetic IV
  pure def ctrStart(iv: int): int = {
    val a = if ((iv / 2^31) % 2 == 1) iv - 2^31 else iv
    if ((a / 2^63) % 2 == 1) a - 2^63 else a
  }
  pure def ctr(c: Cipher, iv: Oct, text: Oct): Oct = {
    val q = ctrStart(iv.v)
    val ks = range(0, ceilDiv(text.n, 16)).foldl(EMPTY, (o, i) => cat(o, enc(c, { n: 16, v: (q + i) % B128 })))
    xorOct(text, take(ks, text.n))
  }
  pure def sivEncrypt(mk: Cipher, ck: Cipher, pt: Oct, ads: List[Oct]): Oct = {
    val iv = s2v(mk, ads.append(pt))
    cat(iv, ctr(ck, iv, pt))
  }
  /// (authentic, plaintext)
  pure def sivDecrypt(mk: Cipher, ck: Cipher, msg: Oct, ads: List[Oct]): (bool, Oct) = {
    val iv = cut(msg, 0, 16)
    val pt = ctr(ck, iv, cut(msg, 16, msg.n))
    if (s2v(mk, ads.append(pt)) == iv) (true, pt) else (false, EMPTY)
  }
}
