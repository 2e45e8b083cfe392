/// ChaCha20 (RFC 7539 section 2.1-2.4).
module chacha {
  import octets.* from "./octets"

  pure def qr(s: List[int], x: int, y: int, z: int, w: int): List[int] = {
    val a1 = add32(s[x], s[y])
    val d1 = rotl32(xor32(s[w], a1), 65536)
    val c1 = add32(s[z], d1)
    val b1 = rotl32(xor32(s[y], c1), 4096)
    val a2 = add32(a1, b1)
    val d2 = rotl32(xor32(d1, a2), 256)
    val c2 = add32(c1, d2)
    val b2 = rotl32(xor32(b1, c2), 128)
    s.replaceAt(x, a2).replaceAt(y, b2).replaceAt(z, c2).replaceAt(w, d2)
  }
  pure def doubleRound(s0: List[int]): List[int] =
    s0.qr(0, 4, 8, 12).qr(1, 5, 9, 13).qr(2, 6, 10, 14).qr(3, 7, 11, 15)
      .qr(0, 5, 10, 15).qr(1, 6, 11, 12).qr(2, 7, 8, 13).qr(3, 4, 9, 14)

  pure def leWords(o: Oct): List[int] =
    range(0, o.n / 4).foldl(List(), (l, i) => l.append(leVal(cut(o, 4 * i, 4 * i + 4))))

  pure def initialState(key: Oct, counter: int, nonce: Oct): List[int] =
    List(0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)
      .concat(leWords(key)).append(counter).concat(leWords(nonce))

  /// the 64 octets of key stream for one block counter value
  pure def block(key: Oct, counter: int, nonce: Oct): Oct = {
    val s = initialState(key, counter, nonce)
    val w = range(0, 10).foldl(s, (st, _) => doubleRound(st))
    range(0, 16).foldl(EMPTY, (o, i) => cat(o, leOct(4, add32(s[i], w[i]))))
  }
  /// a call starting at block number `counter` stays inside the 32-bit counter
  pure def inRange(counter: int, len: int): bool =
    counter >= 0 and counter + ceilDiv(len, 64) <= 4294967296

  pure def keyStream(key: Oct, counter: int, nonce: Oct, len: int): Oct =
    take(range(0, ceilDiv(len, 64)).foldl(EMPTY, (o, i) => cat(o, block(key, counter + i, nonce))), len)

  pure def crypt(key: Oct, counter: int, nonce: Oct, text: Oct): Oct =
    xorOct(text, keyStream(key, counter, nonce, text.n))
}
