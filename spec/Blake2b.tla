------------------------------ MODULE Blake2b -------------------------------
(* BLAKE2b (RFC 7693) without a key: the hash of a byte sequence.            *)
EXTENDS Words, TLC

LOCAL IV == <<
  <<51464, 62396, 58983, 27145>>, <<42811, 33994, 44677, 47975>>, <<63531, 65172, 62322, 15470>>, <<14065, 24349, 62778, 42319>>,
  <<33489, 44518, 21119, 20750>>, <<27679, 11070, 26764, 39685>>, <<48491, 64321, 55723, 8067>>, <<8569, 4990, 52505, 23520>> >>
LOCAL Sig == <<
  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>, <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>,
  <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>, <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>,
  <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>, <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>,
  <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>, <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>,
  <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>, <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>> >>

LOCAL Mix(v, a, b, c, d, x, y) ==
  LET a1 == Add64(Add64(v[a], v[b]), x)
      d1 == Rotr64(Xor64(v[d], a1), 32)
      c1 == Add64(v[c], d1)
      b1 == Rotr64(Xor64(v[b], c1), 24)
      a2 == Add64(Add64(a1, b1), y)
      d2 == Rotr64(Xor64(d1, a2), 16)
      c2 == Add64(c1, d2)
      b2 == Rotr64(Xor64(b1, c2), 63)
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
LOCAL Round(v0, m, s) ==
  LET M(i) == m[s[i + 1] + 1]
      v1 == Mix(v0, 1, 5, 9, 13, M(0), M(1))    v2 == Mix(v1, 2, 6, 10, 14, M(2), M(3))
      v3 == Mix(v2, 3, 7, 11, 15, M(4), M(5))   v4 == Mix(v3, 4, 8, 12, 16, M(6), M(7))
      v5 == Mix(v4, 1, 6, 11, 16, M(8), M(9))   v6 == Mix(v5, 2, 7, 12, 13, M(10), M(11))
      v7 == Mix(v6, 3, 8, 9, 14, M(12), M(13))
  IN Mix(v7, 4, 5, 10, 15, M(14), M(15))
RECURSIVE BRounds(_, _, _)
LOCAL BRounds(v, m, n) == IF n = 12 THEN v ELSE BRounds(Round(v, m, Sig[(n % 10) + 1]), m, n + 1)

\* block: 128 bytes; t: bytes so far (below 65536 * 65536), last
LOCAL Compress(h, block, t, last) ==
  LET m == TLCEval([i \in 1..16 |-> Of64(block, 8 * i - 7)])
      v == h \o <<IV[1], IV[2], IV[3], IV[4], Xor64(IV[5], <<t % 65536, t \div 65536, 0, 0>>), IV[6],
                  IF last THEN Xor64(IV[7], <<65535, 65535, 65535, 65535>>) ELSE IV[7], IV[8]>>
      r == BRounds(v, m, 0)
      x(i) == Xor64(h[i], Xor64(r[i], r[i + 8]))
  IN <<x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8)>>
RECURSIVE Blocks(_, _, _)
LOCAL Blocks(h, b, t) ==
  IF Len(b) - t <= 128
  THEN Compress(h, SubSeq(b, t + 1, Len(b)) \o [i \in 1..(128 - (Len(b) - t)) |-> 0], Len(b), TRUE)
  ELSE Blocks(Compress(h, SubSeq(b, t + 1, t + 128), t + 128, FALSE), b, t + 128)
\* n bytes of hash
Blake(b, n) ==
  LET h == Blocks(<<Xor64(IV[1], <<n, 257, 0, 0>>), IV[2], IV[3], IV[4], IV[5], IV[6], IV[7], IV[8]>>, b, 0)
      all == Bytes64(h[1]) \o Bytes64(h[2]) \o Bytes64(h[3]) \o Bytes64(h[4]) \o Bytes64(h[5]) \o Bytes64(h[6]) \o Bytes64(h[7]) \o Bytes64(h[8])
  IN SubSeq(all, 1, n)
=============================================================================
