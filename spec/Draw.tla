-------------------------------- MODULE Draw --------------------------------
(* Bounded random numbers from a stream of bytes. A stream is a finite script
   followed by zeroes; positions count from 1. A bounded draw masks each
   candidate to the width of the bound and takes the first below it.         *)
EXTENDS Integers, Sequences, BigNat

ByteAt(src, pos) == IF pos <= Len(src) THEN src[pos] ELSE 0
Bytes(src, pos, n) == [k \in 1..n |-> ByteAt(src, pos + k - 1)]

\* all ones up to the highest bit of b
Smear(b) == IF b = <<>> THEN <<>>
            ELSE [k \in 1..Len(b) |-> IF k = Len(b) THEN SmearByte(b[k]) ELSE 255]
Mask(bytes, m) == BTrim([k \in 1..Len(m) |-> BAndByte(bytes[k], m[k])])

\* an integer of w bytes
UDraw(src, pos, w) == [v |-> BTrim(Bytes(src, pos, w)), pos |-> pos + w]

\* a number below a nonzero bound, from candidates of w bytes
RECURSIVE MaxDraw(_, _, _, _)
MaxDraw(src, pos, w, bound) ==
  LET v == Mask(Bytes(src, pos, w), Smear(bound))
  IN IF BLess(v, bound) THEN [v |-> v, pos |-> pos + w]
     ELSE MaxDraw(src, pos + w, w, bound)

BoolOf(byte) == byte < 128
BoolDraw(src, pos) == [v |-> BoolOf(ByteAt(src, pos)), pos |-> pos + 1]
=============================================================================
