------------------------------- MODULE ChaCha -------------------------------
(* The ChaCha20 block function and its keystream as a function of a position:
   original layout with a 64-bit block counter and a 64-bit nonce.           *)
EXTENDS Words

LOCAL QR(s, a, b, c, d) ==
  LET a1 == Add32(s[a], s[b])
      d1 == Rotl32(Xor32(s[d], a1), 16)
      c1 == Add32(s[c], d1)
      b1 == Rotl32(Xor32(s[b], c1), 12)
      a2 == Add32(a1, b1)
      d2 == Rotl32(Xor32(d1, a2), 8)
      c2 == Add32(c1, d2)
      b2 == Rotl32(Xor32(b1, c2), 7)
  IN [s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
LOCAL Double(s0) ==
  LET s1 == QR(s0, 1, 5, 9, 13)   s2 == QR(s1, 2, 6, 10, 14)
      s3 == QR(s2, 3, 7, 11, 15)  s4 == QR(s3, 4, 8, 12, 16)
      s5 == QR(s4, 1, 6, 11, 16)  s6 == QR(s5, 2, 7, 12, 13)
      s7 == QR(s6, 3, 8, 9, 14)
  IN QR(s7, 4, 5, 10, 15)
RECURSIVE Rounds(_, _)
LOCAL Rounds(s, n) == IF n = 0 THEN s ELSE Rounds(Double(s), n - 1)

Sigma == <<101, 120, 112, 97, 110, 100, 32, 51, 50, 45, 98, 121, 116, 101, 32, 107>>  \* expand 32-byte k

\* 64 bytes for a state of 16 words
BlockOf(st) ==
  LET r == Rounds(st, 10)
      w(i) == Bytes32(Add32(r[i], st[i]))
  IN w(1) \o w(2) \o w(3) \o w(4) \o w(5) \o w(6) \o w(7) \o w(8) \o w(9) \o w(10) \o w(11) \o w(12) \o w(13) \o w(14) \o w(15) \o w(16)
\* key: 32 bytes, nonce: 8 bytes, ctr: 64-bit word
Block(key, nonce, ctr) ==
  BlockOf(<<Of32(Sigma, 1), Of32(Sigma, 5), Of32(Sigma, 9), Of32(Sigma, 13),
            Of32(key, 1), Of32(key, 5), Of32(key, 9), Of32(key, 13), Of32(key, 17), Of32(key, 21), Of32(key, 25), Of32(key, 29),
            <<ctr[1], ctr[2]>>, <<ctr[3], ctr[4]>>, Of32(nonce, 1), Of32(nonce, 5)>>)
\* n blocks from block number ctr
RECURSIVE KeyBlocks(_, _, _, _)
KeyBlocks(key, nonce, ctr, n) ==
  IF n = 0 THEN <<>> ELSE Block(key, nonce, ctr) \o KeyBlocks(key, nonce, Add64(ctr, <<1, 0, 0, 0>>), n - 1)
=============================================================================
