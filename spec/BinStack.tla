------------------------------ MODULE BinStack ------------------------------
(* The stack of the implementation: elements live in bins of a fixed size; the
   first bin grows and shrinks by powers of two, the list of bins grows by
   powers of two. Memory is modelled: a bin has a capacity and contents, which
   a reallocation preserves up to the smaller capacity; what is new is Junk.  *)
EXTENDS Integers, Sequences
CONSTANTS BinSize, CapInit
Junk == -7
Fresh(n) == [i \in 0..n - 1 |-> Junk]
Realloc(bin, n) == [i \in 0..n - 1 |-> IF i \in DOMAIN bin THEN bin[i] ELSE Junk]
NoBin == [i \in {} |-> 0]
RECURSIVE Pow2(_, _)
Pow2(p, n) == IF p < n THEN Pow2(2 * p, n) ELSE p
Power(n) == Pow2(1, n)
\* data: list of bins (0..slots-1 of pointers), len
SEmpty == [bins |-> <<>>, slots |-> 0, len |-> 0]
Bin(pos) == pos \div BinSize
SPush(s, v) ==
  LET nb == Bin(s.len)
      s1 == IF nb = 0
            THEN LET a == IF s.len = 0 THEN [s EXCEPT !.slots = 1, !.bins = <<Fresh(CapInit)>>] ELSE s
                 IN IF Power(s.len) = s.len THEN [a EXCEPT !.bins[1] = Realloc(@, Power(s.len + 1))] ELSE a
            ELSE IF nb # Bin(s.len - 1)
                 THEN LET a == IF Power(nb) # Power(nb + 1) THEN [s EXCEPT !.slots = Power(nb + 1)] ELSE s
                      IN [a EXCEPT !.bins = Append(SubSeq(@, 1, nb), Fresh(BinSize))]
                 ELSE s
  IN [s1 EXCEPT !.len = @ + 1, !.bins[nb + 1] = [@ EXCEPT ![s.len % BinSize] = v]]
SPop(s) ==
  IF s.len = 0 THEN s
  ELSE LET a == IF s.len = 1 THEN [s EXCEPT !.bins = <<>>, !.slots = 0]
                ELSE IF s.len <= BinSize
                THEN IF Power(s.len) # Power(s.len - 1) THEN [s EXCEPT !.bins[1] = Realloc(@, Power(s.len - 1))] ELSE s
                ELSE IF Bin(s.len - 1) # Bin(s.len - 2) THEN [s EXCEPT !.bins = SubSeq(@, 1, Bin(s.len - 1))] ELSE s
       IN [a EXCEPT !.len = @ - 1]
SGet(s, pos) == s.bins[Bin(pos) + 1][pos % BinSize]
=============================================================================
