------------------------------ MODULE Wordlist ------------------------------
(* A wordlist is the sequence of the non-empty lines of its file. (A file with
   a NUL ends there: strings cannot hold one.) LinesFrom is the definition,
   Words an equivalent that is fast for large files (MC_Wordlist).           *)
EXTENDS Integers, Sequences, Utf8

RECURSIVE LinesFrom(_, _, _)
LinesFrom(b, i, cur) ==
  IF i > Len(b) \/ b[i] = 0 THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
  ELSE IF b[i] = 10 THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o LinesFrom(b, i + 1, <<>>)
  ELSE LinesFrom(b, i + 1, Append(cur, b[i]))
Lines(bytes) == LinesFrom(bytes, 1, <<>>)

Words(bytes) ==
  LET nul  == SelectSeq([i \in 1..Len(bytes) |-> i], LAMBDA i : bytes[i] = 0)
      n    == IF nul = <<>> THEN Len(bytes) ELSE nul[1] - 1
      ends == SelectSeq([i \in 1..n + 1 |-> i], LAMBDA i : i = n + 1 \/ bytes[i] = 10)
      line(k) == SubSeq(bytes, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k] - 1)
  IN SelectSeq([k \in 1..Len(ends) |-> line(k)], LAMBDA l : l # <<>>)
=============================================================================
