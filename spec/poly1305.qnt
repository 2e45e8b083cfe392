/// Poly1305 (RFC 7539 section 2.5) and the AEAD construction (section 2.8).
module poly1305 {
  import octets.* from "./octets"
  import chacha.* from "./chacha"

  pure val P1305: int = 2^130 - 5

  /// clear the top four bits of r[3], r[7], r[11], r[15] and the bottom two
  /// bits of r[4], r[8], r[12]
  pure def clampR(r: int): int =
    range(0, 4).foldl(0, (acc, i) => {
      val w = (r / 4294967296^i) % 268435456
      acc + (if (i == 0) w else w - w % 4) * 4294967296^i
    })

  pure def mac(key: Oct, msg: Oct): Oct = {
    val r = clampR(leVal(cut(key, 0, 16)))
    val s = leVal(cut(key, 16, 32))
    val a = chunks(msg, 16).foldl(0, (acc, b) => ((acc + leVal(b) + 256^(b.n)) * r) % P1305)
    leOct(16, a + s)
  }
  pure def keyGen(key: Oct, nonce: Oct): Oct = cut(block(key, 0, nonce), 0, 32)

  pure def padTo16(o: Oct): Oct = if (o.n % 16 == 0) o else cat(o, zeros(16 - o.n % 16))
  pure def macData(aad: Oct, ct: Oct): Oct =
    catAll(List(padTo16(aad), padTo16(ct), leOct(8, aad.n), leOct(8, ct.n)))
  pure def aeadTag(key: Oct, nonce: Oct, aad: Oct, ct: Oct): Oct =
    mac(keyGen(key, nonce), macData(aad, ct))
  pure def aeadCrypt(key: Oct, nonce: Oct, text: Oct): Oct = crypt(key, 1, nonce, text)

  /// sealed message of the object interface: iv, ciphertext, tag
  pure def seal(key: Oct, constant: Oct, aad: Oct, iv: Oct, pt: Oct): Oct = {
    val nonce = cat(constant, iv)
    val ct = aeadCrypt(key, nonce, pt)
    catAll(List(iv, ct, aeadTag(key, nonce, aad, ct)))
  }
  /// whether a received message is authentic, and the text it carries
  pure def opens(key: Oct, constant: Oct, aad: Oct, msg: Oct): (bool, Oct) = {
    val ivn = 12 - constant.n
    if (msg.n < ivn + 16) (false, EMPTY)
    else {
      val iv = cut(msg, 0, ivn)
      val ct = cut(msg, ivn, msg.n - 16)
      val nonce = cat(constant, iv)
      if (aeadTag(key, nonce, aad, ct) == cut(msg, msg.n - 16, msg.n)) (true, aeadCrypt(key, nonce, ct))
      else (false, EMPTY)
    }
  }
}
