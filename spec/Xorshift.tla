------------------------------ MODULE Xorshift ------------------------------
(* The 64-bit xorshift generator with shifts 13, 7, 17: each step yields the
   eight bytes of the new state, little endian.                              *)
EXTENDS Words
XStep(x) ==
  LET a == Xor64(x, Shl64(x, 13))
      b == Xor64(a, Shr64(a, 7))
  IN Xor64(b, Shl64(b, 17))
RECURSIVE XBlocks(_, _)
XBlocks(x, n) == IF n = 0 THEN <<>> ELSE LET y == XStep(x) IN Bytes64(y) \o XBlocks(y, n - 1)
=============================================================================
