From cea1be072aecbb1dc18d90b4cb8d5e7b8cab93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 01/34] fix: ChaCha20_AEAD.decrypt computes the tag over the
 received ciphertext

RFC 7539 2.8: on decryption Poly1305 runs over the AAD and the ciphertext,
not over the recovered plaintext.
---
 cipher/chacha_poly.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 7ec1698..4199228 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -545,16 +545,25 @@ class ChaCha20_AEAD(object):
         otk = poly1305_key_gen(self.__key, nonce)
         chacha20 = ChaCha(self.__key, counter=1, nonce=nonce)
         cipher_text = chacha20.encrypt( plain_text )
+        return (cipher_text, self._tag(aad, otk, cipher_text))
+
+    def _tag(self, aad, otk, cipher_text):
+        """ the tag always authenticates the ciphertext """
         mac_data = aad + pad16(aad)
         mac_data += cipher_text + pad16(cipher_text)
         mac_data += num_to_8_le_bytes( len(aad) )
         mac_data += num_to_8_le_bytes( len(cipher_text) )
-        tag = poly1305_mac(mac_data, otk)
-        return (cipher_text, tag)
+        return poly1305_mac(mac_data, otk)
     
     def decrypt(self, aad, iv, cipher_text):
-        """ decrypt is same as encrypt """
-        return self.encrypt(aad, iv, cipher_text)
+        """ Returns the plain text and the tag calculated over the received
+            cipher text, to be compared to the received tag.
+        """
+        nonce = self.constant + iv
+        otk = poly1305_key_gen(self.__key, nonce)
+        chacha20 = ChaCha(self.__key, counter=1, nonce=nonce)
+        plain_text = chacha20.decrypt( cipher_text )
+        return (plain_text, self._tag(aad, otk, cipher_text))
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
     """ """
-- 
2.43.0


From a95db1c0d30ae5e8592794810fe582f47414b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 02/34] fix: ChaCha_Poly_AEAD sealed messages can be produced
 and opened

Python 2 super() needs its arguments, and decrypt used undefined names,
took the whole message as IV and never returned the plaintext.
---
 cipher/chacha_poly.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 4199228..a15dc27 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -568,14 +568,20 @@ class ChaCha20_AEAD(object):
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
     """ """
     def encrypt(self, aad, iv, plain_text):
-        cipher_text, tag = super().encrypt(aad, iv, plain_text)
+        cipher_text, tag = super(ChaCha_Poly_AEAD, self).encrypt(aad, iv, plain_text)
         return iv + cipher_text + tag
     
     def decrypt(self, aad, iv_cipher_text_tag):
-        iv = iv_cipher_text_tag[0:]
+        iv_length, tag_length = 12 - len(self.constant), 16
+        if len(iv_cipher_text_tag) < iv_length + tag_length:
+            raise ValueError('message too short')
+        iv = iv_cipher_text_tag[:iv_length]
+        cipher_text = iv_cipher_text_tag[iv_length:-tag_length]
         tag = iv_cipher_text_tag[-tag_length:]
-        plain_text, calculated_tag = super().encrypt(aad, iv, plain_text)
-        assert tag == calculated_tag
+        plain_text, calculated_tag = super(ChaCha_Poly_AEAD, self).decrypt(aad, iv, cipher_text)
+        if tag != calculated_tag:
+            raise ValueError('authentication failed')
+        return plain_text
 
 
     """
-- 
2.43.0


From 09ab735a1301558877a03a85d96b2ff0db1e5bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 03/34] fix: b27decode, b85decode and b94decode honour padto

---
 cipher/encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cipher/encoding.py b/cipher/encoding.py
index 01e50a8..a580f3a 100644
--- a/cipher/encoding.py
+++ b/cipher/encoding.py
@@ -68,7 +68,7 @@ def b27encode(octet_string):
     
 def b27decode(text_string, padto=None):
     """Decode a text string 's' using 27 characters. """
-    return base_N_decode(text_string, _b27chars )
+    return base_N_decode(text_string, _b27chars, padto )
 
 _b85chars = "0123456789" \
             "ABCDEFGHIJKLMNOPQRSTUVWXYZ" \
@@ -85,7 +85,7 @@ def b85encode(octet_string):
 
 def b85decode(text_string, padto=None):
     """Decode a text string 's' using 85 character alphabet. """
-    return base_N_decode(text_string, _b85chars )
+    return base_N_decode(text_string, _b85chars, padto )
     
 ascii_printable = ''.join( [chr(i) for i in range(33,127)] )    
 def b94encode(octet_string):
@@ -94,7 +94,7 @@ def b94encode(octet_string):
 
 def b94decode(text_string, padto=None):
     """Decode a text string using all ASCII non-space printable characters. """
-    return base_N_decode(text_string, ascii_printable )    
+    return base_N_decode(text_string, ascii_printable, padto )    
     
 if __name__ == '__main__':
     """ Examples of text encodings for 128 bit and 48 bits (USID and SID)
-- 
2.43.0


From a27b6059bd9acddfcc278a6ae147dcf4af044446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 04/34] fix: Point encodings no longer fail on the missing
 int_to_string

---
 ecc/ellipticcurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecc/ellipticcurve.py b/ecc/ellipticcurve.py
index eb6d2fc..f215c63 100755
--- a/ecc/ellipticcurve.py
+++ b/ecc/ellipticcurve.py
@@ -98,6 +98,7 @@ class Point(object):
     # === below should be refactored ===
     def encode(self, encode='raw'):
         """ Encode a point (usually for public keys) """
+        from ecc import int_to_string  # ecc imports this module
         if encode == 'raw':   # encode both x and y sequentially
             return int_to_string(self.x, padto=self.curve.coord_size) + int_to_string(self.y, padto=self.curve.coord_size)
         else:
@@ -105,10 +106,12 @@ class Point(object):
 
     def toOctets(self):
         """ Encode point as x coordinate """
+        from ecc import int_to_string  # ecc imports this module
         return int_to_string(self.x)
 
     def to_octetstring(self): # Used???
         """ Encode point as x and y octetstring """
+        from ecc import int_to_string  # ecc imports this module
         octetstring = int_to_string(self.x) + int_to_string(self.y)
         return octetstring
 
-- 
2.43.0


From 7dd91cf6f606481d61271d61ce6b32223be2ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 05/34] fix: ecc.int_to_string pads zero like every other value

A point with a zero coordinate otherwise encodes to fewer octets.
---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index e51ac1a..bc902dc 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -309,8 +309,8 @@ def int_to_string( x, padto=None ):
         If 'padto' defined, result is zero padded to this length.
     """
     assert x >= 0
-    if x == 0: return chr(0)
     result = ""
+    if x == 0: result = chr(0)
     while x > 0:
         q, r = divmod( x, 256 )
         result = chr( r ) + result
-- 
2.43.0


From 5cd2b12b4009be580c48f045e16406701233bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 06/34] fix: Weierstrass negation and doubling handle identity
 and 2-torsion

Negation also reduces y, so that (n-1)*P == -P.
---
 ecc/ecc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index bc902dc..8bfee54 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -62,13 +62,17 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
 
     def negate(curve, point):
         """ Negate a point """
-        return curve.point( point.x, -point.y )
+        if point == curve.IDENTITY:
+            return point
+        return curve.point( point.x, -point.y % curve.p )
 
     def double_point(curve, point):
         """Return a new point that is twice the old (X9.62 B.3)."""
         p = curve.p; a = curve.a; inv = curve.inverse
         x = point.x; y = point.y
 
+        if point == curve.IDENTITY or y % p == 0:
+            return curve.IDENTITY
         l = ( (3*x*x + a) * inv(2*y) ) % p
         x3 = (l*l - 2*x) % p
         y3 = (l * (x - x3) - y) % p
-- 
2.43.0


From 5026dac406a51d000e48cdf24314067b1cf6efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 07/34] fix: Weierstrass scalar multiplication does not reduce
 by the order of G

A point outside the subgroup of G has another order: on a curve with a
cofactor (or the test curve of test_ecc.py) the reduction gave wrong multiples.
---
 ecc/ecc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 8bfee54..72d2971 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -88,15 +88,16 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
             return result / 2
 
         e = scalar
-        e = e % point.curve.n
         if e == 0:
             return INFINITY
         if point == INFINITY:
             return INFINITY
-        assert e > 0
+        if e < 0:
+            point = -point
+            e = -e
 
         e3 = 3 * e
-        negative_self = curve.point( point.x, -point.y )
+        negative_self = -point
         i = leftmost_bit( e3 ) / 2
         result = point
         while i > 1:
-- 
2.43.0


From 81bcd188191a9c2263b8571f30add0bd8c273b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 08/34] fix: Edwards curve membership uses the curve equation

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 72d2971..2938a6e 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -148,7 +148,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
         #return  (a*x**2 + y*y - 1 - d*x*x*y*y)  % p == 0
         xx = x*x
-        return  (a*xx - 1 + y*(1 - d*xx*y))  % p == 0
+        return  (a*xx - 1 + y*y*(1 - d*xx))  % p == 0
 
     def add_points(curve, p1, p2):
         """ Add two points on the curve """
-- 
2.43.0


From f8479b4c279ea4f0ba676db94847e22cf8e51f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 09/34] fix: Edwards identity, negation and scalar
 multiplication

The identity is (0,1); negation gives a reduced coordinate; scalar_multiple
called a method that does not exist.
---
 ecc/ecc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 2938a6e..fc416f9 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -162,7 +162,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def negate(curve, p):
         """ Negate a point """
-        return curve.point(-p.x, p.y)
+        return curve.point(-p.x % curve.p, p.y)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old """
@@ -179,7 +179,9 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
     def scalar_multiple(curve, point, scalar):
         if scalar == 0:
             return curve.IDENTITY
-        q = curve.scalarmult(point, scalar/2)
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
+        q = curve.scalar_multiple(point, scalar/2)
         q = q + q
         if scalar & 1:
             q = q + point
@@ -187,7 +189,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def identity(curve):
         """ The additive identity """
-        return curve.point(0,-1)
+        return curve.point(0, 1)
 
 class EdwardsCurveFp( TwistedEdwardsCurveFp ):
     """ An Edwards curve is a Twisted Edwards curve with a = 1
-- 
2.43.0


From 9b2cfdc203ab54d137a26fea62c88e7017a7cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 10/34] fix: Montgomery curves have a group identity and a
 correct group law

(0,-1) is not on the curve, so no Montgomery curve could be instantiated;
negation flipped x, and adding a point to its inverse returned the point.
---
 ecc/ecc.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index fc416f9..5100ab9 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -205,8 +205,11 @@ class MontgomeryCurveFp( EllipticCurveFp ):
     """
     def on_curve(curve, g):
         """ Is the point 'g' on the curve? """
-        x = g.x; y = g.y; a = curve.a; p = curve.p; x_sqrd = x*x
+        x = g.x; y = g.y; a = curve.a; p = curve.p
 
+        if x is None and y is None: # point at infinity
+            return True
+        x_sqrd = x*x
         return (y*y) % p == (x*x_sqrd + a*x_sqrd + x) % p
 
     def add_points(curve, p1, p2):
@@ -220,11 +223,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         a = curve.a; p = curve.p; inv = curve.inverse
 
         if x1 == x2:
-            if y1 == y2:
-                return p1.double()
+            if ( y1 + y2 ) % p == 0:
+                return curve.IDENTITY
             else:
-                assert y1 + y2 == 0
-                return p1
+                return p1.double()
         l = (y2-y1)*inv(x2-x1)
         x3 = l**2 - a - x1 - x2
         y3 = l*(x1 - x3) - y1
@@ -232,7 +234,9 @@ class MontgomeryCurveFp( EllipticCurveFp ):
 
     def negate(curve, p1):
         """ Negate a point """
-        return curve.point(-p1.x % p, p1.y)
+        if p1 == curve.IDENTITY:
+            return p1
+        return curve.point(p1.x, -p1.y % curve.p)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old
@@ -240,6 +244,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         x1 = point.x; y1 = point.y; a = curve.a; inv = curve.inverse
         p = curve.p
 
+        if point == curve.IDENTITY or y1 % p == 0:
+            return curve.IDENTITY
         l = (3*x1*x1 + 2*a*x1 + 1)*inv(2*y1)
         x3 = l*l - a - 2*x1
         y3 = l*(x1 - x3) - y1
@@ -248,6 +254,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
     def scalar_multiple(curve, point, scalar):
         if scalar == 0:
             return curve.IDENTITY
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
         q = curve.scalar_multiple(point, scalar/2)
         q = q + q
         if scalar & 1:
@@ -255,8 +263,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         return q
 
     def identity(curve):
-        """ The additive identity """
-        return curve.point(0,-1)
+        """ The additive identity, the point at infinity """
+        return curve.point(None, None, validate=False)
 
     def montgomery_ladder(curve, scalar, point):
         """ Scalar multiplication on a Montgomery curve
-- 
2.43.0


From 53b456dd0f0f0c3f366dcda23a77d19ba29e2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 11/34] fix: the Montgomery ladders finish and return the x
 coordinate

Nothing was reduced modulo p, montgomery_ladder2 used an undefined name, a
wrong start and a wrong final exponent, and both cut scalars at 255 bits on
the larger curves.
---
 ecc/ecc.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 5100ab9..a1bfd9a 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -272,15 +272,15 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         x1 = point.x; a = curve.a; p = curve.p
 
         x2,z2,x3,z3 = 1, 0, point.x, 1
-        for i in reversed(range(255)):
+        for i in reversed(range(max(255, 8*curve.coord_size))):
             bit = 1 & (scalar >> i)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-            x3, z3 = ((x2*x3 - z2*z3)**2,  x1*(x2*z3 - z2*x3)**2)
-            x2, z2 = ((x2**2 - z2**2)**2,  4*x2*z2*(x2**2 + a*x2*z2+z2**2))
+            x3, z3 = ((x2*x3 - z2*z3)**2 % p,  x1*(x2*z3 - z2*x3)**2 % p)
+            x2, z2 = ((x2**2 - z2**2)**2 % p,  4*x2*z2*(x2**2 + a*x2*z2+z2**2) % p)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-        return ( x2*z2**(p-2) ) % p
+        return ( x2*pow(z2, p-2, p) ) % p
 
     def montgomery_ladder2(curve, scalar, point):
         """
@@ -290,8 +290,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         """
         x1 = point.x; a = curve.a; p = curve.p
         a24 = (a - 2) / 4
-        x_2, z_2, x_3, z_3 = 0, 1, x_1, 1
-        for t in reversed(range(255)):
+        x_2, z_2, x_3, z_3 = 1, 0, x1, 1
+        for t in reversed(range(max(255, 8*curve.coord_size))):
             s_t = 1 & (scalar >> t)
             (x_2, x_3) = cswap(x_2, x_3, s_t)
             (z_2, z_3) = cswap(z_2, z_3, s_t)
@@ -304,13 +304,13 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             D = x_3 - z_3
             DA = D * A
             CB = C * B
-            x_3 = (DA + CB)**2
-            z_3 = x_1 * (DA - CB)**2
-            x_2 = AA * BB
-            z_2 = E * (AA + a24 * E)   #BB?
+            x_3 = (DA + CB)**2 % p
+            z_3 = x1 * (DA - CB)**2 % p
+            x_2 = AA * BB % p
+            z_2 = E * (AA + a24 * E) % p
             (x_2, x_3) = cswap (x_2, x_3, s_t)
             (z_2, z_3) = cswap (z_2, z_3, s_t)
-        return (x_2 * (z_2**(p - 1))) % p
+        return (x_2 * pow(z_2, p - 2, p)) % p
 
 def cswap(x2, x3, bit):
     """ Swap routine used by Montgomery Ladder """
-- 
2.43.0


From 74840d356a92681e7a252eaa672d2055aceeb7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 12/34] fix: private keys are in [1, n-1]

---
 ecc/ecc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index a1bfd9a..38a775e 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -128,7 +128,8 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         return y
 
     def new_private_key(self):
-        return string_to_int( urandom(self.coord_size) )
+        # the extra octets make the bias of the reduction negligible
+        return string_to_int( urandom(self.coord_size + 8) ) % (self.n - 1) + 1
 
 
 class KoblitzCurveFp( SmallWeierstrassCurveFp ):
-- 
2.43.0


From b9ecd50d9c2d89b74f7f536d917a4e5f2de54af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 13/34] fix: SECP_521r1 is secp521r1

---
 ecc/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index f5b4746..abb4371 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -405,7 +405,7 @@ class NIST_P384(SECP_384r1): # NIST renamed secp384r1
   
 class SECP_521r1( SmallWeierstrassCurveFp ):
     """ Suite B curve for 256 bit security """
-    curveId = 'secp256r1'
+    curveId = 'secp521r1'
     strength = 256
     oid = (1,3,132,0,35)  # {iso(1) identified-organization(3) certicom(132) curve(0) 35}
     # p = 2**251 - 1   #  a Mersenne prime
-- 
2.43.0


From e2c20dd53d162dfd611dbef56e169d5dfb935177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 14/34] fix: Ed25519 has the d and the base point of its own
 curve

d was 1 and the base point was that of the Montgomery form.
---
 ecc/curves.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index abb4371..fd4bf1b 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -668,10 +668,9 @@ class Ed25519( EdwardsCurveFp ):
     strength = 126
     oid = None
     p  = 2**255 - 19
-    d =  1      #  d = (121665/121666) % p
-    xG = 9
-    yG = 14781619447589544791020593568409986887264606134616475288964881837755586237401
-    yG = 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9
+    d  = 0x2dfc9311d490018c7338bf8688861767ff8ff5b2bebe27548a14b235eca6874a  # (121665/121666) % p
+    xG = 0x6a6597b61bb3c380f9e4c2a8f03b12a4a2eb3745bdac20b63381207f0acc5252
+    yG = 0x6666666666666666666666666666666666666666666666666666666666666658  # (4/5) % p
     n  = 2**252 + 27742317777372353535851937790883648493 
     h  = 8     
        
-- 
2.43.0


From 800a5b3c168c40cae2ae8a329a0a20b61e264141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 15/34] fix: n of the GOSTmsg05975 curves is the order of their
 generators

---
 ecc/curves.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index fd4bf1b..9738b36 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -335,11 +335,10 @@ class GOSTmsg05975te( TwistedEdwardsCurveFp ):
     a = 1  # was e in msg
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
-    #???
-    n  = 0x40000000000000000000000000000000000000000000000000000000000000003673245b9af954ffb3cc5600aeb8afd33712561858965ed96b9dc310b80fdaf7
+    n  = q  # order of G; the prime in the message text belongs to the twist
     xG = 0x12
     yG = 0x469AF79D1FB1F5E16B99592B77A01E2A0FDFB0D01794368D9A56117F7B38669522DD4B650CF789EEBF068C5D139732F0905622C04B2BAAE7600303EE73001A3D
-    h = 4  # n = h*q
+    h = 4
     
     # The curve parameters have been generated using random nonce W in such way
     # that a = 1, d = hash(W), where hash() is Russian national standard
@@ -363,6 +362,7 @@ class GOSTmsg05975sw( SmallWeierstrassCurveFp ):
     yG = 0xF5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9BE18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
+    n  = q  # order of G
     h = 4
 
     
-- 
2.43.0


From b01c04da6c2f90a2677673a133b28a13d1a158cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 16/34] fix: M383 and M511 define all parameters of their type

---
 ecc/curves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index 9738b36..4428975 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -692,6 +692,7 @@ class M383( MontgomeryCurveFp ):
     """ y**2 == x**3+2065150*x**2+x mod 2**383-187 """
     curveId = 'm383'
     strength = 190
+    oid = None
     p = 2**383-187
     a = 2065150
     xG = 0xc  #  12
@@ -717,6 +718,7 @@ class M511( MontgomeryCurveFp ):
     strength = 254
     oid = None
     p  = 2**511-187
+    a  = 530438
     xG = 5
     yG = 2500410645565072423368981149139213252211568685173608590070979264248275228603899706950518127817176591878667784247582124505430745177116625808811349787373477
     n  = 2**508 + 10724754759635747624044531514068121842070756627434833028965540808827675062043
-- 
2.43.0


From 7ba10cac5ac9320fa57dcdca5c9ca4322dd853d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 17/34] fix: order_mod reduces its argument before comparing it
 with 1

---
 ecc/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 3b9fc68..056d610 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -446,6 +446,7 @@ def order_mod( x, m ):
     
     assert gcd( x, m ) == 1
     
+    x = x % m
     z = x
     result = 1
     while z != 1:
-- 
2.43.0


From 7cf14168975262fa4630fe0f9722d8e3d79cfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 18/34] fix: polynomial_reduce_mod leaves the argument as it
 was

---
 ecc/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 056d610..f803c10 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -55,6 +55,7 @@ def polynomial_reduce_mod( poly, polymod, p ):
     
     assert len( polymod ) > 1
     
+    poly = list( poly )   # the caller's list is not modified
     while len( poly ) >= len( polymod ):
         if poly[-1] != 0:
             for i in range( 2, len( polymod ) + 1 ):
-- 
2.43.0


From 898059ff5a0268d611c4c243f4d7a45a2da7228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 19/34] fix: GFp.is_element

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 9abfa2a..fec6c0b 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -26,7 +26,7 @@ class GFp:
         return Element_of_GFp(self, value)
         
     def is_element(self, x):
-        return (p > x > 0)
+        return (self.p > x >= 0)
         
     def inverse(self, x):
         return inverse_mod(x, self.p)
-- 
2.43.0


From 421ac54c65c4e6a64a601da82b5ed10ee9515302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 20/34] fix: GF(p) exponentiation is modular and ** works as
 documented

Building value**exponent never finishes for exponents of the size of p, and
negative exponents gave 0 or a float.
---
 fmath/galoisfield.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index fec6c0b..38455e8 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -67,10 +67,17 @@ class Element_of_GFp:
         return self.gf(int(other) * self.gf.inverse(self.value))
     
     def __xor__(self, other):
-        return self.gf(self.value ** int(other))
+        exponent = int(other)
+        if exponent < 0:
+            return self.gf(pow(self.gf.inverse(self.value), -exponent, self.gf.p))
+        return self.gf(pow(self.value, exponent, self.gf.p))
+    
+    __pow__ = __xor__
     
     def __rxor__(self, other):
-        return self.gf(int(other) ** self.value)
+        return self.gf(pow(int(other), self.value, self.gf.p))
+    
+    __rpow__ = __rxor__
     
     def __cmp__(self, other):
         if self.value == int(other) :
-- 
2.43.0


From 60df774fcb680685ab1dacedfec13e62442afeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 21/34] fix: GF(p) inversion of negative integers and modulo
 large primes

Division by a negative integer raised an exception, and the recursion ran
out of stack on large moduli.
---
 fmath/galoisfield.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 38455e8..f344b92 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -93,14 +93,15 @@ class Element_of_GFp:
          
 
 def egcd(a, b):
-    if a == 0:
-        return (b, 0, 1)
-    else:
-        g, y, x = egcd(b % a, a)
-        return (g, x - (b // a) * y, y)
+    x0, x1, y0, y1 = 0, 1, 1, 0
+    while a != 0:
+        q, b, a = b // a, a, b % a
+        x0, x1 = x1, x0 - q * x1
+        y0, y1 = y1, y0 - q * y1
+    return (b, x0, y0)
 
 def inverse_mod(a, m):
-    g, x, y = egcd(a, m)
+    g, x, y = egcd(a % m, m)
     if g != 1:
         raise Exception('modular inverse does not exist')
     else:
-- 
2.43.0


From c780a8fa31e9909d0aa86276edab2d03dc196f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 22/34] fix: HMAC pads a hashed long key to the block size

RFC 2104: the hashed key is extended with zeros like any other short key.
---
 hash/hmac.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hash/hmac.py b/hash/hmac.py
index d13b4ac..916d9f8 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,9 +45,8 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
-            key = self.H(key)   # humm... this is odd, hash can be smaller than B
-        else:                   # should raise error on short key, but breaks tests :-(
-            key =key + (self.B-len(key)) * chr(0)
+            key = self.H(key)
+        key =key + (self.B-len(key)) * chr(0) # should raise error on short key, but breaks tests :-(
         self.k_xor_ipad = ''.join([chr(ord(bchar)^0x36) for bchar in key])
         self.k_xor_opad = ''.join([chr(ord(bchar)^0x5C) for bchar in key])
         self.keyed = 1
-- 
2.43.0


From 5a6e5c611771132728389a6a4c1de7f100fbd9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 23/34] fix: pbkdf2 block count is an integer

range() rejects the float that ceil returns.
---
 hash/pbkdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/pbkdf2.py b/hash/pbkdf2.py
index 848d325..4661d41 100755
--- a/hash/pbkdf2.py
+++ b/hash/pbkdf2.py
@@ -22,7 +22,7 @@ def pbkdf2(password, salt, iterations, keySize, PRF=HMAC_SHA1):
 		raise 'keySize too long for PBKDF2'
 
 	prf = PRF(key=password)  # HMAC_SHA1
-	numBlocks = ceil(1.*keySize/prf.digest_size) # ceiling function
+	numBlocks = int(ceil(1.*keySize/prf.digest_size)) # ceiling function
 	key = ''
 	for block in range(1,numBlocks+1):
 		# Calculate F(P, salt, iterations, i)
-- 
2.43.0


From 3943f2bbb42440603f741d4711cfb1e851d72539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 24/34] fix: prf_dot11 uses the standard hmac module

Inside the package the implicit relative import found hash/hmac.py.
---
 hash/prf_dot11.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/prf_dot11.py b/hash/prf_dot11.py
index c5c5c66..9ae56e2 100755
--- a/hash/prf_dot11.py
+++ b/hash/prf_dot11.py
@@ -7,6 +7,7 @@ The parameter 'prefix' is a string that shall be a unique label for each
 different purpose of the PRF.
 """
 
+from __future__ import absolute_import  # hmac is the standard module, not hash/hmac.py
 import hmac, sha        # available in any Python 2.x
 
 def PRF( key, prefix, data, number_of_bits):
-- 
2.43.0


From 51c1cac852ed3a0e8af08a5893ff0632a4c3571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 25/34] fix: TKIP_Mixer remembers the packet number its phase 1
 key is made of

After setPnBytes followed by setKey or setTA, newKey with the earlier upper
octets used the phase 1 key of the later ones.
---
 hash/tkip_key_mixing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 3a748b1..8b9b6a1 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -56,6 +56,7 @@ class TKIP_Mixer:
         # for readability of subroutines, make tk a list of 1 octet ints
         self.tk = [ord(byte) for byte in key]
         if self.ta != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn)
 
     def setTA(self, taBytes):
@@ -63,6 +64,7 @@ class TKIP_Mixer:
         if len(taBytes) != 6: raise 'Bad size for transmitterAddress'
         self.ta = [ord(byte) for byte in taBytes]
         if self.tk != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn )
 
     def setPnBytes(self, pnBytes):
-- 
2.43.0


From 6f22b04716132eaa7a82e2899e5b027235b722a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:07 +0000
Subject: [PATCH 26/34] fix: CMAC subkeys have 16 octets and use the selected
 cipher

A subkey with leading zero octets (about one key in 128) made the MAC fail,
and the CIPH argument was ignored for the subkeys.
---
 cipher/aes_cmac.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 55b1610..d92f462 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -22,7 +22,7 @@ def aes_cmac(key, M, CIPH=AES):
     block_size = ciph.block_size
     assert block_size == 16 # only 128 bit (16 octet) blocks supported!!
     
-    k1, k2 = subkey(key)
+    k1, k2 = subkey(key, CIPH)
     blocks, leftover = divmod(len(M), block_size)
   
     if leftover == 0 and blocks > 0:         # if last block is a complete block
@@ -54,8 +54,8 @@ def subkey(key, CIPH=AES):
     else:      # xor only if high bit set
         k2 = ((k1<<1) & 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF) ^ 0x87 
 
-    k1 = int_to_string(k1)
-    k2 = int_to_string(k2)
+    k1 = int_to_string(k1, padto=block_size)
+    k2 = int_to_string(k2, padto=block_size)
     return k1, k2
 
 def pad(octet_string, block_size=16):
-- 
2.43.0


From 7a5be8af004729fc9a19cd66deea62da0dfbdf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:07 +0000
Subject: [PATCH 27/34] fix: the permutation class can be used

---
 analysis/permutation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analysis/permutation.py b/analysis/permutation.py
index 3b01743..afbf208 100644
--- a/analysis/permutation.py
+++ b/analysis/permutation.py
@@ -7,6 +7,7 @@
 
 class permutation(object):
 
+    @staticmethod
     def map_orbits_of_permutation(permutation):
         """ Creates a dictionary of permutation orbits indexed by the first element of the cycle/orbit """
         gdict = {}     # a dictionary of the orbits indexed by the first orbit element
@@ -28,10 +29,11 @@ class permutation(object):
                 pass
         return gdict
 
-    def orbit_start_and_length(permutation):
+    @classmethod
+    def orbit_start_and_length(cls, permutation):
         """ Returns a list of tuples (orbit start, orbit size) """
         v=[]
-        z=map_orbits_of_permutation(permutation)
+        z=cls.map_orbits_of_permutation(permutation)
         for i in z.keys():
             v.append( [i, len(z[i])] )
         return v
@@ -108,7 +110,7 @@ sms4_sbbytes = (0xd6,0x90,0xe9,0xfe,0xcc,0xe1,0x3d,0xb7,
 
 
 def main():
-    orbit_tuples = orbit_start_and_length(aes_sbbytes)
+    orbit_tuples = permutation.orbit_start_and_length(aes_sbbytes)
     print
     print 'The AES sbox contains ',
     print len(orbit_tuples),
@@ -116,7 +118,7 @@ def main():
     print 'The AES sbox subgroups (start, length) are:'
     print orbit_tuples
     print
-    orbit_tuples = orbit_start_and_length(sms4_sbbytes)
+    orbit_tuples = permutation.orbit_start_and_length(sms4_sbbytes)
     print 'The SMS4 sbox contains ',
     print len(orbit_tuples),
     print 'permutation subgroups'
-- 
2.43.0


From add5d6524d11b998d3337cc145516742d99c26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:05 +0000
Subject: [PATCH 28/34] fix: montgomery_ladder2 with a - 2 not divisible by 4

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 38a775e..3995e4c 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -290,7 +290,7 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             plus common-subexpression elimination, plus assumption Z1=1.
         """
         x1 = point.x; a = curve.a; p = curve.p
-        a24 = (a - 2) / 4
+        a24 = (a - 2) * curve.inverse(4) % p
         x_2, z_2, x_3, z_3 = 1, 0, x1, 1
         for t in reversed(range(max(255, 8*curve.coord_size))):
             s_t = 1 & (scalar >> t)
-- 
2.43.0


From 6512c569b56176f2fd34c1d3b15b3b3260aa0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:03 +0000
Subject: [PATCH 29/34] fix: Edwards and Montgomery multiples by scalars of
 more than 1000 bits

---
 ecc/ecc.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 3995e4c..6b1440b 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -182,10 +182,12 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
             return curve.IDENTITY
         if scalar < 0:
             return curve.scalar_multiple(-point, -scalar)
-        q = curve.scalar_multiple(point, scalar/2)
-        q = q + q
-        if scalar & 1:
-            q = q + point
+        q = curve.IDENTITY
+        while scalar > 0:   # iterative, scalars may be of any length
+            if scalar & 1:
+                q = q + point
+            point = point + point
+            scalar = scalar >> 1
         return q
 
     def identity(curve):
@@ -257,10 +259,12 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             return curve.IDENTITY
         if scalar < 0:
             return curve.scalar_multiple(-point, -scalar)
-        q = curve.scalar_multiple(point, scalar/2)
-        q = q + q
-        if scalar & 1:
-            q = q + point
+        q = curve.IDENTITY
+        while scalar > 0:   # iterative, scalars may be of any length
+            if scalar & 1:
+                q = q + point
+            point = point + point
+            scalar = scalar >> 1
         return q
 
     def identity(curve):
-- 
2.43.0


From 23a5e0ad3b93760aee13202b47f7de20a3ce2c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:43 +0000
Subject: [PATCH 30/34] fix: Jacobi symbols of numbers of thousands of bits

---
 ecc/numbertheory.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index f803c10..783128a 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -132,17 +132,18 @@ def jacobi( a, n ):
     
     assert n >= 3
     assert n%2 == 1
-    a = a % n
-    if a == 0: return 0
-    if a == 1: return 1
-    a1, e = a, 0
-    while a1%2 == 0:
-        a1, e = a1/2, e+1
-    if e%2 == 0 or n%8 == 1 or n%8 == 7: s = 1
-    else: s = -1
-    if a1 == 1: return s
-    if n%4 == 3 and a1%4 == 3: s = -s
-    return s * jacobi( n % a1, a1 )
+    s = 1
+    while 1:                  # iterative, the numbers may be of any length
+        a = a % n
+        if a == 0: return 0
+        if a == 1: return s
+        a1, e = a, 0
+        while a1%2 == 0:
+            a1, e = a1/2, e+1
+        if e%2 == 1 and ( n%8 == 3 or n%8 == 5 ): s = -s
+        if a1 == 1: return s
+        if n%4 == 3 and a1%4 == 3: s = -s
+        a, n = n, a1
 
 
 def square_root_mod_prime( a, p ):
-- 
2.43.0


From beef9b87d4309d09984d50c7c793f9d30caf07c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:31 +0000
Subject: [PATCH 31/34] fix: GF(p) elements equal every integer they represent

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index f344b92..3416693 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -80,7 +80,7 @@ class Element_of_GFp:
     __rpow__ = __rxor__
     
     def __cmp__(self, other):
-        if self.value == int(other) :
+        if self.value == int(other) % self.gf.p :
             return 0
         else:
             return 1
-- 
2.43.0


From a3ab79584fe05dc7e9909c1c1ee8b696c7a20aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:03 +0000
Subject: [PATCH 32/34] fix: square roots modulo large primes = 1 mod 8 do not
 list all smaller numbers

---
 ecc/numbertheory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 783128a..c07fbe4 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -174,12 +174,14 @@ def square_root_mod_prime( a, p ):
         if d == p-1: return ( 2 * a * modular_exp( 4*a, (p-5)/8, p ) ) % p
         raise RuntimeError, "Shouldn't get here."
     
-    for b in range( 2, p ):
+    b = 2
+    while b < p:    # range( 2, p ) is too long a list for large p
         if jacobi( b*b-4*a, p ) == -1:
             f = ( a, -b, 1 )
             ff = polynomial_exp_mod( ( 0, 1 ), (p+1)/2, f, p )
             assert ff[1] == 0
             return ff[0]
+        b += 1
     raise RuntimeError, "No b found."
 
 def modular_sqrt(a, p):
-- 
2.43.0


From c37336cec155095384abd3acd82ebf77aa2219ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:10 +0000
Subject: [PATCH 33/34] fix: order_mod of negative elements

---
 ecc/numbertheory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index c07fbe4..ccf415e 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -448,9 +448,10 @@ def order_mod( x, m ):
     
     if m <= 1: return 0
     
+    x = x % m
+    
     assert gcd( x, m ) == 1
     
-    x = x % m
     z = x
     result = 1
     while z != 1:
-- 
2.43.0


From 725461b9daeb85a4b3ca6a619786f69e7b6c95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:34 +0000
Subject: [PATCH 34/34] fix: nonlinearity of functions of one value

---
 analysis/sbox_nonlinearity.py | 2 +-
 analysis/walshtransform.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/analysis/sbox_nonlinearity.py b/analysis/sbox_nonlinearity.py
index 42c758d..6c5611a 100644
--- a/analysis/sbox_nonlinearity.py
+++ b/analysis/sbox_nonlinearity.py
@@ -49,7 +49,7 @@ def nonLinearity(t):
     """ Non-linearity of a binary sequence
     """
     wt = walshTransform(t)
-    nl = len(t)/2 - .5*max( [ abs(i) for i in wt ] )
+    nl = .5*( len(t) - max( [ abs(i) for i in wt ] ) )
     return nl
     
 def log2n(l):
diff --git a/analysis/walshtransform.py b/analysis/walshtransform.py
index b78c28e..48fe59f 100644
--- a/analysis/walshtransform.py
+++ b/analysis/walshtransform.py
@@ -32,7 +32,7 @@ def binaryInnerProduct(a,b):
 def nonLinearity(t):
     """ A measure of the non-linearity of a binary sequence """
     wt = walshTransform(t)
-    nl = len(t)/2 - .5*max( [ abs(i) for i in wt ] )
+    nl = .5*( len(t) - max( [ abs(i) for i in wt ] ) )
     return nl
     
 def log2n(l):
-- 
2.43.0

