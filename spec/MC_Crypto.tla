------------------------------ MODULE MC_Crypto -----------------------------
(* Known answers of the stream generators, from their standards. *)
EXTENDS ChaCha, Xorshift, TLC
Seq32(a) == [i \in 1..32 |-> a + i - 1]
\* RFC 8439, 2.3.2 (with the 96-bit nonce laid out as there)
RfcState == <<Of32(Sigma, 1), Of32(Sigma, 5), Of32(Sigma, 9), Of32(Sigma, 13)>>
            \o [i \in 1..8 |-> Of32(Seq32(0), 4 * i - 3)]
            \o <<<<1, 0>>, <<0, 2304>>, <<0, 18944>>, <<0, 0>>>>
ASSUME SubSeq(BlockOf(RfcState), 1, 16) = <<16, 241, 231, 228, 209, 59, 89, 21, 80, 15, 221, 31, 163, 32, 113, 196>>
ASSUME SubSeq(BlockOf(RfcState), 61, 64) = <<162, 80, 60, 78>>
\* the zero key and nonce
Zeros(n) == [i \in 1..n |-> 0]
ASSUME SubSeq(Block(Zeros(32), Zeros(8), Zero64), 1, 8) = <<118, 184, 224, 173, 160, 241, 61, 144>>
\* a 64-bit xorshift from 1 : x ^= x << 13 ^ ..., 1082269761 first
ASSUME SubSeq(XBlocks(<<1, 0, 0, 0>>, 1), 1, 8) = <<65, 32, 130, 64, 0, 0, 0, 0>>
ASSUME Rotr64(<<1, 2, 3, 4>>, 16) = <<2, 3, 4, 1>> /\ Rotr64(<<1, 0, 0, 0>>, 1) = <<0, 0, 0, 32768>>
ASSUME Shr64(Shl64(<<1, 2, 3, 4>>, 16), 16) = <<1, 2, 3, 0>>
VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = x + 1
Spec == Init /\ [][Next]_x
=============================================================================
