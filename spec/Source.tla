------------------------------- MODULE Source -------------------------------
(* Descriptions of randomness sources and the streams they stand for.

   A description is a sequence of bytes. Describe gives
     [ok |-> FALSE]                     it is refused
     k = "zero" | "system" | "file" (path) | "xorshift" (seed)
       | "chacha" (key, iv) | "argon2" (pass, domain, token)
   A source, from which bytes can be taken, is
     k = "zero" | "bytes" (data, zeroes after it) | "counter" | "xorshift" | "chacha"   *)
EXTENDS Integers, Sequences, BigNat, Words, ChaCha, Xorshift

\* ------------------------------------------------------------ descriptions
Starts(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
After(b, p) == SubSeq(b, Len(p) + 1, Len(b))
RECURSIVE FirstColon(_, _)
FirstColon(b, i) == IF i > Len(b) \/ b[i] = 58 THEN i ELSE FirstColon(b, i + 1)
RECURSIVE SplitColon(_)
SplitColon(b) == LET i == FirstColon(b, 1)
                 IN IF i > Len(b) THEN <<b>> ELSE <<SubSeq(b, 1, i - 1)>> \o SplitColon(SubSeq(b, i + 1, Len(b)))
RECURSIVE BDec(_, _, _)
BDec(b, i, acc) == IF i > Len(b) THEN acc ELSE BDec(b, i + 1, BScaleAdd(acc, 10, b[i] - 48))
Digits(b) == b # <<>> /\ \A i \in 1..Len(b) : b[i] \in 48..57
Padded(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]

SZero == <<122, 101, 114, 111>>
SSystem == <<115, 121, 115, 116, 101, 109>>
SFile == <<102, 105, 108, 101, 58>>
SXor == <<120, 111, 114, 115, 104, 105, 102, 116, 58>>
SChaCha == <<99, 104, 97, 99, 104, 97, 50, 48, 58>>
SArgon == <<99, 104, 97, 99, 104, 97, 50, 48, 45, 97, 114, 103, 111, 110, 50, 58>>
Passgen == <<112, 97, 115, 115, 103, 101, 110>>

NoSource == [ok |-> FALSE, k |-> "none"]
Describe(d) ==
  CASE d = SZero -> [ok |-> TRUE, k |-> "zero"]
    [] d = SSystem -> [ok |-> TRUE, k |-> "system"]
    [] Starts(d, SFile) -> [ok |-> TRUE, k |-> "file", path |-> After(d, SFile)]
    [] Starts(d, SXor) ->
         LET n == After(d, SXor)
             v == BDec(n, 1, <<>>)
         IN IF Digits(n) /\ v # <<>> /\ Len(v) <= 8 THEN [ok |-> TRUE, k |-> "xorshift", seed |-> v] ELSE NoSource
    [] Starts(d, SChaCha) ->
         LET r == After(d, SChaCha)
             i == FirstColon(r, 1)
             key == SubSeq(r, 1, i - 1)
             iv == IF i > Len(r) THEN Passgen ELSE SubSeq(r, i + 1, Len(r))
         IN IF Len(key) <= 32 /\ Len(iv) <= 8 THEN [ok |-> TRUE, k |-> "chacha", key |-> Padded(key, 32), iv |-> Padded(iv, 8)] ELSE NoSource
    [] Starts(d, SArgon) ->
         LET f == SplitColon(After(d, SArgon))
             at(i) == IF i <= Len(f) THEN f[i] ELSE <<>>
         IN IF (Len(f) <= 3 \/ (Len(f) = 4 /\ f[4] = <<>>)) /\ \A i \in 1..3 : Len(at(i)) <= 127
            THEN [ok |-> TRUE, k |-> "argon2", pass |-> at(1), domain |-> at(2), token |-> at(3)] ELSE NoSource
    [] OTHER -> NoSource

\* ----------------------------------------------------------------- streams
W64(b) == Of64(Padded(b, 8), 1)
B64(w) == BTrim(Bytes64(w))
\* bytes of the stream from position from (a BigNat), n of them
Range(s, from, n) ==
  IF n = 0 THEN <<>> ELSE
  CASE s.k = "zero" -> [i \in 1..n |-> 0]
    [] s.k = "bytes" -> LET f == BToInt(from) IN [i \in 1..n |-> IF f + i <= Len(s.data) THEN s.data[f + i] ELSE 0]
    [] s.k = "counter" -> LET f == BToInt(from) IN [i \in 1..n |-> f + i - 1]
    [] s.k = "xorshift" -> LET f == BToInt(from) IN SubSeq(XBlocks(W64(s.seed), (f + n + 7) \div 8), f + 1, f + n)
    [] s.k = "chacha" ->
         LET c == Shr64(W64(from), 6)
             o == BDigit(from, 1) % 64
         IN SubSeq(KeyBlocks(s.key, s.iv, c, (o + n + 63) \div 64), o + 1, o + n)
=============================================================================
