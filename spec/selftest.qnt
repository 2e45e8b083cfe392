/// Known-answer tests of the specification itself (run by `quint test`).
module selftest {
  import octets.* from "./octets"
  import chacha.* from "./chacha"
  import poly1305 as poly from "./poly1305"
  import aes.* from "./aes"
  import cmac.* from "./cmac"
  import numtheory.* from "./numtheory"
  import curves.* from "./curves"
  import encoding.* from "./encoding"
  import hashes as h from "./hashes"
  import dot11.* from "./dot11"
  import sboxes.* from "./sboxes"

  pure val K = {n:16,v:0x000102030405060708090a0b0c0d0e0f}
  run sym_t1Test = assert(aesEncrypt(K, {n:16,v:0x00112233445566778899aabbccddeeff}).v == 0x69c4e0d86a7b0430d8cdb78070b4c55a)
  run sym_t2Test = assert(aesEncrypt({n:32,v:0x000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f}, {n:16,v:0x00112233445566778899aabbccddeeff}).v == 0x8ea2b7ca516745bfeafc49904b496089)
  run sym_t2bTest = assert(aesEncrypt({n:24,v:0x000102030405060708090a0b0c0d0e0f1011121314151617}, {n:16,v:0x00112233445566778899aabbccddeeff}).v == 0xdda97ca4864cdfe06eaf70a0ec0d7191)
  run sym_t3Test = assert({ val e = aesCipher({n:16,v:0xfffefdfcfbfaf9f8f7f6f5f4f3f2f1f0})
     val f = aesCipher({n:16,v:0xf0f1f2f3f4f5f6f7f8f9fafbfcfdfeff})
     val ad = {n:24, v:0x101112131415161718191a1b1c1d1e1f2021222324252627}
     val pt = {n:14, v:0x112233445566778899aabbccddee}
     val c = sivEncrypt(e, f, pt, List(ad))
     and { c.v == 0x85632d07c6e8f37f950acd320a2ecc9340c02b9690c4dc04daef7f6afe5c, sivDecrypt(e,f,c,List(ad)) == (true, pt) } })
  run sym_t4Test = assert(poly::mac({n:32, v:0x85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b}, {n:34,v:0x43727970746f6772617068696320466f72756d2052657365617263682047726f7570}).v == 0xa8061dc1305136c6c22b8baf0c0127a9)

  pure val P = 2^255-19
  pure val C: Curve = {fam:3,p:P,a:486662,b:0}
  pure val E: Curve = {fam:2,p:P,a:1,b:0x2dfc9311d490018c7338bf8688861767ff8ff5b2bebe27548a14b235eca6874a}
  pure val W: Curve = {fam:1,p:0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,a: -3,b:0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b}
  pure val GW = pt(0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
  pure val NW = 115792089210356248762697446949407573529996955224135760342422259061068512044369
  pure val GC = pt(9, 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9)
  pure val N = 2^252 + 27742317777372353535851937790883648493
  run num_t1Test = assert(bits(0)==0 and bits(1)==1 and bits(255)==8 and bits(256)==9 and bits(2^521)==522)
  run num_t2Test = assert(and {onCurve(C, GC), mulP(C, N, GC) == INF, mulP(C, 3, GC) == addP(C, GC, addP(C, GC, GC)), isPrime(N), isPrime(P), not(isPrime(P*N))})
  run num_t3Test = assert(and {mulP(W, NW, GW) == INF, mulP(W, NW-1, GW) == negP(W, GW), mulP(W,5,GW)==addP(W,GW,mulP(W,4,GW))})
  run num_t4Test = assert({val G = pt(0x6a6597b61bb3c380f9e4c2a8f03b12a4a2eb3745bdac20b63381207f0acc5252, 0x6666666666666666666666666666666666666666666666666666666666666658)
      and {onCurve(E, G), mulP(E, N, G) == neutral(E), complete(E), mulP(E,-5,G)==negP(E, addP(E,G,mulP(E,4,G)))}})
  run num_t5Test = assert(and {gcdOf(12,18)==6, gcdOf(0,5)==5, gcdOf(-4,6)==2, invmod(3,7)==5, invmod(-1,7)==6, jacobiOf(2,15)==1, jacobiOf(7,15)==-1, jacobiOf(5,15)==0,jacobiOf(1001,9907)==-1,
     smallFactors(360)==(List(2,3,5),List(3,2,1)), smallFactors(7)==(List(7),List(1)), smallFactors(1)==(List(),List()), orderOf(2,7)==3, orderOf(8,7)==1, coprimePart(360,6)==5,
     range(0,2000).foldl(true,(ok,n)=> ok and (isPrime(n) == (n>1 and smallFactors(max2(n,1))._1 == List(n))))})
  run num_t6Test = assert(polyPow(List(0,1),5,List(1,0,1),7) == List(0,1))

  pure def s(n: int, v: int): Oct = { n: n, v: v }
  // RFC 7539, 2.3.2: the block function
  run chachaBlockTest = assert(keyStream({n:32,v:0x000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f}, 1, s(12, 0x000000090000004a00000000), 64).v
     == 0x10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e)
  run sha1Test = assert(and { h::sha1(s(3, 0x616263)).v == 0xa9993e364706816aba3e25717850c26c9cd0d89d,
     h::sha1(rep(119, 97)).v == 0xee971065aaa017e0632a8ca6c77bb3bf8b1dfc56,
     h::hmac(h::SHA1, s(4, 0x4a656665), s(28, 0x7768617420646f2079612077616e7420666f72206e6f7468696e673f)).v == 0xeffcdf6ae5eb2fa2d27416d5f184df9c259a7c79,
     h::pbkdf2(h::SHA1, s(8, 0x70617373776f7264), s(4, 0x73616c74), 2, 45).v == 0xea6c014dc72d6f8ccd1ed92ace1d41f0d8de8957cae93136266537a8d7bf4b76c51094cc1ae010b19923ddc439 })
  run prfTest = assert(h::prf(h::SHA1, rep(20, 0x0b), s(6, 0x707265666978), s(8, 0x4869205468657265), 128).v == 0xbcd4c650b30b9684951829e0d75f9d54)
  run hmacAgreesTest = assert(range(0, 20).foldl(true, (ok, i) => and { ok,
     h::mac(h::keyed(h::SHA1, rep(7 * i, i)), rep(11 * i, 3)) == h::hmac(h::SHA1, rep(7 * i, i), rep(11 * i, 3)),
     h::mac(h::keyed(h::toyHash(8, 4), rep(i, i)), rep(i, 3)) == h::hmac(h::toyHash(8, 4), rep(i, i), rep(i, 3)) }))
  run michaelTest = assert(and { michael(s(8,0), EMPTY).v == 0x82925c1ca1d130b8,
     michael(s(8,0x82925c1ca1d130b8), s(1,0x4d)).v == 0x434721ca40639b3f,
     michael(s(8,0xd55e100510128986), s(7,0x4d69636861656c)).v == 0x0a942b124ecaa546 })
  run tkipTest = assert(mixedKey(s(16, 0x000102030405060708090a0b0c0d0e0f), s(6, 0x102233445566), zeros(6)).v == 0x00200033ea8d2f60ca6d1374234a660b)
  run base85Test = assert(and { A27.length() == 27, A85.length() == 85, A94.length() == 94,
     textOf(0x108000000000000000080800200c417a, 85) == s(20, 0x34292b6b264323567a4a3462723e307776255970) })
  run encodingTest = assert(and { valueOf(textOf(123456789, 27), 27) == 123456789, valueOf(s(1, 0x20), 94) == -1, minLen(0) == 1, minLen(255) == 1, minLen(256) == 2 })
  run sboxTest = assert(and { SBOX[0x53] == 0xed, SMS4[0] == 0xd6, SMS4[1] == 0x90, SMS4[255] == 0x48,
     walsh(List(1,1,0,1,0,1,1,1)) == range(0, 8).foldl(List(), (l, w) => l.append(range(0, 8).foldl(0, (a, x) =>
        a + (1 - 2 * ((List(1,1,0,1,0,1,1,1)[x] + parity(andNat(w, x))) % 2))))),
     cycles(List(1,0,2)) == List(List(0,1), List(2)) })
}
