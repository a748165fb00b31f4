------------------------------- MODULE Words --------------------------------
(* Arithmetic of machine words. TLC's integers have 32 bits, so a word is a
   tuple of 16-bit limbs, the lowest first: two of them for 32 bits, four for
   64 bits.                                                                  *)
EXTENDS Integers, Sequences, Bitwise

P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow2(n) == IF n = 0 THEN 1 ELSE P2[n]

\* ----------------------------------------------------------------- 32 bits
Add32(a, b) == LET l == a[1] + b[1]
               IN <<l % 65536, (a[2] + b[2] + (l \div 65536)) % 65536>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Rotl32(a, n) ==
  IF n >= 16 THEN LET m == Pow2(n - 16)
                      k == Pow2(32 - n)
                  IN IF n = 16 THEN <<a[2], a[1]>>
                     ELSE <<(((a[2] % k) * m) + (a[1] \div k)), (((a[1] % k) * m) + (a[2] \div k))>>
  ELSE LET m == Pow2(n)
           k == Pow2(16 - n)
       IN <<(((a[1] % k) * m) + (a[2] \div k)), (((a[2] % k) * m) + (a[1] \div k))>>
\* bytes, little endian
Of32(b, i) == <<b[i] + 256 * b[i + 1], b[i + 2] + 256 * b[i + 3]>>
Bytes32(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>

\* ----------------------------------------------------------------- 64 bits
Zero64 == <<0, 0, 0, 0>>
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Add64(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div 65536)
      s3 == a[3] + b[3] + (s2 \div 65536)
      s4 == a[4] + b[4] + (s3 \div 65536)
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
LOCAL L(a, i) == IF i < 1 \/ i > 4 THEN 0 ELSE a[i]
Shl64(a, n) ==
  LET q == n \div 16
      r == n % 16
      m == Pow2(r)
      k == Pow2(16 - r)
      f(i) == ((L(a, i - q) % k) * m) + (L(a, i - q - 1) \div k)
  IN IF r = 0 THEN <<L(a, 1 - q), L(a, 2 - q), L(a, 3 - q), L(a, 4 - q)>> ELSE <<f(1), f(2), f(3), f(4)>>
Shr64(a, n) ==
  LET q == n \div 16
      r == n % 16
      m == Pow2(16 - r)
      k == Pow2(r)
      f(i) == (L(a, i + q) \div k) + ((L(a, i + q + 1) % k) * m)
  IN IF r = 0 THEN <<L(a, 1 + q), L(a, 2 + q), L(a, 3 + q), L(a, 4 + q)>> ELSE <<f(1), f(2), f(3), f(4)>>
LOCAL C(i) == ((i - 1) % 4) + 1
Rotr64(a, n) ==
  LET q == n \div 16
      r == n % 16
      m == Pow2(16 - r)
      k == Pow2(r)
      f(i) == (a[C(i + q)] \div k) + ((a[C(i + q + 1)] % k) * m)
  IN IF r = 0 THEN <<a[C(1 + q)], a[C(2 + q)], a[C(3 + q)], a[C(4 + q)]>> ELSE <<f(1), f(2), f(3), f(4)>>
Of64(b, i) == <<b[i] + 256 * b[i + 1], b[i + 2] + 256 * b[i + 3], b[i + 4] + 256 * b[i + 5], b[i + 6] + 256 * b[i + 7]>>
Bytes64(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256, w[3] % 256, w[3] \div 256, w[4] % 256, w[4] \div 256>>
=============================================================================
