/// IEEE 802.11i: the Michael MIC, the TKIP MIC and the TKIP key mixing function.
module dot11 {
  import octets.* from "./octets"
  import aes.* from "./aes"

  // --- Michael ---
  pure def xswap(l: int): int = (and32(l, 0xff00ff00)) / 256 + (and32(l, 0x00ff00ff)) * 256
  pure def michaelB(s: (int, int)): (int, int) = {
    val r1 = xor32(s._2, rotl32(s._1, 131072))
    val l1 = add32(s._1, r1)
    val r2 = xor32(r1, xswap(l1))
    val l2 = add32(l1, r2)
    val r3 = xor32(r2, rotl32(l2, 8))
    val l3 = add32(l2, r3)
    val r4 = xor32(r3, rotl32(l3, 1073741824))
    (add32(l3, r4), r4)
  }
  pure def michael(key: Oct, m: Oct): Oct = {
    // 0x5a, then four to seven zero octets up to a multiple of four
    val z = 4 + emod(3 - m.n, 4)
    val padded = { n: m.n + 1 + z, v: (m.v * 256 + 0x5a) * 256^z }
    val r = chunks(padded, 4).foldl((leVal(cut(key, 0, 4)), leVal(cut(key, 4, 8))), (s, w) =>
      michaelB((xor32(s._1, leVal(w)), s._2)))
    cat(leOct(4, r._1), leOct(4, r._2))
  }
  /// version 3: with the priority block; version 2: without
  pure def tkipMic(version: int, key: Oct, sa: Oct, da: Oct, priority: int, data: Oct): Oct =
    michael(key, catAll(List(da, sa,
      if (version == 3) cat(byte(priority), zeros(3)) else EMPTY, data)))

  // --- TKIP key mixing ---
  pure def mixS(w: int): int = {
    val lo = SBOX[w % 256]
    val hi = SBOX[(w / 256) % 256]
    val lo2 = xtime(lo, 0x11b)
    val hi2 = xtime(hi, 0x11b)
    xor16(lo2 * 256 + xor8(lo, lo2), xor8(hi, hi2) * 256 + hi2)
  }
  pure def mk16(hi: int, lo: int): int = hi * 256 + lo
  pure def w16(b: List[int], i: int): int = b[i + 1] * 256 + b[i]
  pure def a16(x: int): int = x % 65536
  pure def rotr1(x: int): int = x / 2 + (x % 2) * 32768

  /// phase 1: temporal key, transmitter address, packet number (all octet lists)
  pure def phase1(tk: List[int], ta: List[int], pn: List[int]): List[int] =
    range(0, 8).foldl(List(mk16(pn[3], pn[2]), mk16(pn[5], pn[4]), w16(ta, 0), w16(ta, 2), w16(ta, 4)), (p, i) => {
      val j = 2 * (i % 2)
      val p0 = a16(p[0] + mixS(xor16(p[4], w16(tk, j))))
      val p1 = a16(p[1] + mixS(xor16(p0, w16(tk, j + 4))))
      val p2 = a16(p[2] + mixS(xor16(p1, w16(tk, j + 8))))
      val p3 = a16(p[3] + mixS(xor16(p2, w16(tk, j + 12))))
      val p4 = a16(p[4] + mixS(xor16(p3, w16(tk, j))) + i)
      List(p0, p1, p2, p3, p4)
    })
  pure def phase2(tk: List[int], p: List[int], pn: List[int]): Oct = {
    val q5 = a16(p[4] + mk16(pn[1], pn[0]))
    val k0 = a16(p[0] + mixS(xor16(q5, w16(tk, 0))))
    val k1 = a16(p[1] + mixS(xor16(k0, w16(tk, 2))))
    val k2 = a16(p[2] + mixS(xor16(k1, w16(tk, 4))))
    val k3 = a16(p[3] + mixS(xor16(k2, w16(tk, 6))))
    val k4 = a16(p[4] + mixS(xor16(k3, w16(tk, 8))))
    val k5 = a16(q5 + mixS(xor16(k4, w16(tk, 10))))
    val f0 = a16(k0 + rotr1(xor16(k5, w16(tk, 12))))
    val f1 = a16(k1 + rotr1(xor16(f0, w16(tk, 14))))
    val f2 = a16(k2 + rotr1(f1))
    val f3 = a16(k3 + rotr1(f2))
    val f4 = a16(k4 + rotr1(f3))
    val f5 = a16(k5 + rotr1(f4))
    // second octet: the first with bit 5 set and bit 7 cleared
    val seed1 = { val x = pn[0] % 128
      if ((x / 32) % 2 == 1) x else x + 32 }
    fromBytes(List(pn[0], seed1, pn[1], (xor16(f5, w16(tk, 0)) / 2) % 256,
      f0 % 256, f0 / 256, f1 % 256, f1 / 256, f2 % 256, f2 / 256,
      f3 % 256, f3 / 256, f4 % 256, f4 / 256, f5 % 256, f5 / 256))
  }
  pure def mixedKey(tk: Oct, ta: Oct, pn: Oct): Oct = {
    val t = bytesOf(tk)
    val n = bytesOf(pn)
    phase2(t, phase1(t, bytesOf(ta), n), n)
  }
}
