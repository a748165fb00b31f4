------------------------------- MODULE Argon2 -------------------------------
(* Argon2 (RFC 9106, version 0x13) as a function of all of its inputs. y is the
   variant: 0 for Argon2d, 1 for Argon2i, 2 for Argon2id.                    *)
EXTENDS Words, Blake2b, Integers, Sequences

LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
LOCAL Field(b) == LE32(Len(b)) \o b

\* what is hashed first: everything, each with its length in front of it
Inputs(y, pass, salt, key, ad, mem, t, p, tag) ==
  LE32(p) \o LE32(tag) \o LE32(mem) \o LE32(t) \o LE32(19) \o LE32(y) \o Field(pass) \o Field(salt) \o Field(key) \o Field(ad)

\* variable length hash
RECURSIVE Chain(_, _)
LOCAL Chain(v, left) == IF left <= 64 THEN Blake(v, left)
                        ELSE LET w == Blake(v, 64) IN SubSeq(w, 1, 32) \o Chain(w, left - 32)
HPrime(b, n) == IF n <= 64 THEN Blake(LE32(n) \o b, n) ELSE Chain(LE32(n) \o b, n)

\* ------------------------------------------------------------- compression
LOCAL Mul16(a, b) == \* <<low, high>> halves of the product
  LET u == a * (b \div 256)
      s == (a * (b % 256)) + ((u % 256) * 256)
  IN <<s % 65536, (u \div 256) + (s \div 65536)>>
\* a + b + 2 * (low half of a) * (low half of b)
LOCAL Bla(a, b) ==
  LET p == Mul16(a[1], b[1])
      q == Mul16(a[1], b[2])
      r == Mul16(a[2], b[1])
      s == Mul16(a[2], b[2])
      t1 == a[1] + b[1] + 2 * p[1]
      t2 == a[2] + b[2] + 2 * (p[2] + q[1] + r[1]) + (t1 \div 65536)
      t3 == a[3] + b[3] + 2 * (q[2] + r[2] + s[1]) + (t2 \div 65536)
      t4 == a[4] + b[4] + 2 * s[2] + (t3 \div 65536)
  IN <<t1 % 65536, t2 % 65536, t3 % 65536, t4 % 65536>>
LOCAL GB(v, a, b, c, d) ==
  LET a1 == Bla(v[a], v[b])
      d1 == Rotr64(Xor64(v[d], a1), 32)
      c1 == Bla(v[c], d1)
      b1 == Rotr64(Xor64(v[b], c1), 24)
      a2 == Bla(a1, b1)
      d2 == Rotr64(Xor64(d1, a2), 16)
      c2 == Bla(c1, d2)
      b2 == Rotr64(Xor64(b1, c2), 63)
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
LOCAL Perm(v0) ==
  LET v1 == GB(v0, 1, 5, 9, 13)    v2 == GB(v1, 2, 6, 10, 14)
      v3 == GB(v2, 3, 7, 11, 15)   v4 == GB(v3, 4, 8, 12, 16)
      v5 == GB(v4, 1, 6, 11, 16)   v6 == GB(v5, 2, 7, 12, 13)
      v7 == GB(v6, 3, 8, 9, 14)
  IN GB(v7, 4, 5, 10, 15)
\* blocks are 128 words
LOCAL XorB(x, y) == TLCEval([i \in 1..128 |-> Xor64(x[i], y[i])])
LOCAL Rows(r) == Perm(SubSeq(r, 1, 16)) \o Perm(SubSeq(r, 17, 32)) \o Perm(SubSeq(r, 33, 48)) \o Perm(SubSeq(r, 49, 64))
              \o Perm(SubSeq(r, 65, 80)) \o Perm(SubSeq(r, 81, 96)) \o Perm(SubSeq(r, 97, 112)) \o Perm(SubSeq(r, 113, 128))
\* column k: words 2k, 2k + 1 of each row
LOCAL Col(q, k) == <<q[2*k+1], q[2*k+2], q[2*k+17], q[2*k+18], q[2*k+33], q[2*k+34], q[2*k+49], q[2*k+50],
                     q[2*k+65], q[2*k+66], q[2*k+81], q[2*k+82], q[2*k+97], q[2*k+98], q[2*k+113], q[2*k+114]>>
LOCAL Cols(q) ==
  LET c == <<Perm(Col(q, 0)), Perm(Col(q, 1)), Perm(Col(q, 2)), Perm(Col(q, 3)), Perm(Col(q, 4)), Perm(Col(q, 5)), Perm(Col(q, 6)), Perm(Col(q, 7))>>
  IN TLCEval([i \in 1..128 |-> c[(((i - 1) % 16) \div 2) + 1][2 * ((i - 1) \div 16) + ((i - 1) % 2) + 1]])
Compression(x, y) == LET r == XorB(x, y) IN XorB(Cols(Rows(r)), r)

LOCAL ZeroB == TLCEval([i \in 1..128 |-> Zero64])
LOCAL OfBytes(b) == TLCEval([i \in 1..128 |-> Of64(b, 8 * i - 7)])
RECURSIVE ToBytes(_, _)
LOCAL ToBytes(w, i) == IF i > Len(w) THEN <<>> ELSE Bytes64(w[i]) \o ToBytes(w, i + 1)

\* ------------------------------------------------------------------ filling
\* high 32 bits of the product of two 32-bit numbers (as limb pairs)
LOCAL MulHigh(a, b) ==
  LET p == Mul16(a[1], b[1])
      q == Mul16(a[1], b[2])
      r == Mul16(a[2], b[1])
      s == Mul16(a[2], b[2])
      t2 == p[2] + q[1] + r[1]
      t3 == q[2] + r[2] + s[1] + (t2 \div 65536)
  IN <<t3 % 65536, s[2] + (t3 \div 65536)>>
LOCAL W32(n) == <<n % 65536, n \div 65536>>
LOCAL W(n) == <<n % 65536, n \div 65536, 0, 0>>

(* m: the blocks, lane after lane of q columns; the block at column j of lane l
   in slice s of pass n                                                      *)
LOCAL At(m, q, l, j) == m[l * q + j + 1]
LOCAL Addresses(y, pass, lane, slice, mem, t, ctr) ==
  LET z == <<W(pass), W(lane), W(slice), W(mem), W(t), W(y), W(ctr)>> \o [i \in 1..121 |-> Zero64]
  IN Compression(ZeroB, Compression(ZeroB, z))
LOCAL FillOne(m, q, p, t, pass, slice, lane, k, addr) ==
  LET seg == q \div 4
      j == slice * seg + k
      prev == At(m, q, lane, IF j = 0 THEN q - 1 ELSE j - 1)
      w == IF addr # <<>> THEN addr[(k % 128) + 1] ELSE prev[1]
      j1 == <<w[1], w[2]>>
      j2 == (w[3] + ((65536 % p) * (w[4] % p))) % p
      rl == IF pass = 0 /\ slice = 0 THEN lane ELSE j2
      size == IF pass = 0 THEN (IF rl = lane THEN j - 1 ELSE (slice * seg) - (IF k = 0 THEN 1 ELSE 0))
              ELSE IF rl = lane THEN (q - seg) + k - 1 ELSE (q - seg) - (IF k = 0 THEN 1 ELSE 0)
      x == MulHigh(W32(size), MulHigh(j1, j1))
      back == x[1] + 65536 * x[2]
      start == IF pass = 0 \/ slice = 3 THEN 0 ELSE (slice + 1) * seg
      ref == At(m, q, rl, (start + (size - 1 - back)) % q)
      new == Compression(prev, ref)
  IN TLCEval([m EXCEPT ![lane * q + j + 1] = IF pass = 0 THEN new ELSE XorB(@, new)])
\* whether the blocks that are referred to do not depend on the passphrase
LOCAL Constant(y, pass, slice) == y = 1 \/ (y = 2 /\ pass = 0 /\ slice < 2)
RECURSIVE FillSeg(_, _, _, _, _, _, _, _, _, _)
LOCAL FillSeg(y, m, q, p, t, pass, slice, lane, k, addr) ==
  LET seg == q \div 4
  IN IF k >= seg THEN m
     ELSE IF pass = 0 /\ slice = 0 /\ k < 2 THEN FillSeg(y, m, q, p, t, pass, slice, lane, k + 1, addr)
     ELSE LET a == IF Constant(y, pass, slice) THEN (IF addr = <<>> \/ k % 128 = 0 THEN Addresses(y, pass, lane, slice, q * p, t, (k \div 128) + 1) ELSE addr) ELSE <<>>
          IN FillSeg(y, FillOne(m, q, p, t, pass, slice, lane, k, a), q, p, t, pass, slice, lane, k + 1, a)
RECURSIVE FillAll(_, _, _, _, _, _, _, _)
LOCAL FillAll(y, m, q, p, t, pass, slice, lane) ==
  IF pass = t THEN m
  ELSE IF slice = 4 THEN FillAll(y, m, q, p, t, pass + 1, 0, 0)
  ELSE IF lane = p THEN FillAll(y, m, q, p, t, pass, slice + 1, 0)
  ELSE FillAll(y, FillSeg(y, m, q, p, t, pass, slice, lane, 0, <<>>), q, p, t, pass, slice, lane + 1)

RECURSIVE LastXor(_, _, _, _)
LOCAL LastXor(m, q, l, acc) == IF l < 0 THEN acc ELSE LastXor(m, q, l - 1, XorB(acc, At(m, q, l, q - 1)))

Argon2(y, pass, salt, key, ad, mem, t, p, tag) ==
  LET h0 == Blake(Inputs(y, pass, salt, key, ad, mem, t, p, tag), 64)
      q == 4 * (mem \div (4 * p))
      first == TLCEval([i \in 1..(q * p) |->
                 LET l == (i - 1) \div q
                     j == (i - 1) % q
                 IN IF j < 2 THEN OfBytes(HPrime(h0 \o LE32(j) \o LE32(l), 1024)) ELSE ZeroB])
      m == FillAll(y, first, q, p, t, 0, 0, 0)
  IN HPrime(ToBytes(LastXor(m, q, p - 2, At(m, q, p - 1, q - 1)), 1), tag)

\* ------------------------------------------------ the documented parameters
LOCAL Salt == <<112, 97, 115, 115, 103, 101, 110>>  \* passgen
DeriveWith(y, blocks, passes, lanes, pass, domain, token) == Argon2(y, pass, Salt, domain, token, blocks, passes, lanes, 32)
DeriveKey(pass, domain, token) == DeriveWith(2, 8, 8, 1, pass, domain, token)
=============================================================================
