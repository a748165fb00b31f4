-------------------------------- MODULE Rand --------------------------------
(* A randomness handle: a source, read strictly in order, with a buffer of B
   bytes in front of it. Reads up to the size of the buffer are answered from
   it, larger ones directly from the source.

     next   position of the source        buf, pos  where the buffer was taken
     reads  how often the source was read           from, how much is used
   eager: an emptied buffer is filled at once rather than when it is needed. *)
EXTENDS Integers, Sequences, BigNat, Draw, Source

LOCAL BI(n) == BFromInt(n)
Fill(h, B) == [h EXCEPT !.buf = h.next, !.pos = 0, !.next = BAdd(h.next, BI(B)), !.reads = h.reads + 1]
ROpen(s, B) == Fill([s |-> s, next |-> <<>>, buf |-> <<>>, pos |-> B, reads |-> 0], B)

\* [h, d]: d are the bytes delivered
RECURSIVE Small(_, _, _, _)
Small(h, n, B, eager) ==
  LET left == B - h.pos
      at == BAdd(h.buf, BI(h.pos))
  IN IF n < left \/ (n = left /\ ~eager) THEN [h |-> [h EXCEPT !.pos = h.pos + n], d |-> Range(h.s, at, n)]
     ELSE LET r == Small(Fill(h, B), n - left, B, eager)
          IN [h |-> r.h, d |-> Range(h.s, at, left) \o r.d]
\* xorshift gives whole blocks of eight bytes
Taken(s, n) == IF s.k = "xorshift" THEN 8 * ((n + 7) \div 8) ELSE n
Read(h, n, B, eager) ==
  IF n <= B THEN Small(h, n, B, eager)
  ELSE [h |-> [h EXCEPT !.next = BAdd(h.next, BI(Taken(h.s, n))), !.reads = h.reads + 1], d |-> Range(h.s, h.next, n)]

RECURSIVE Bounded(_, _, _, _, _)
Bounded(h, w, bound, B, eager) ==
  LET r == Small(h, w, B, eager)
      v == Mask(r.d, Smear(bound))
  IN IF BLess(v, bound) THEN [h |-> r.h, d |-> v] ELSE Bounded(r.h, w, bound, B, eager)

(* Operations: [t |-> "r", n] read, "u" w integer of w bytes, "m" w b below b,
   "b" boolean, "R" refill, "s" p seek. The result is what the caller gets.  *)
Op(h, o, B, eager) ==
  CASE o.t = "r" -> Read(h, o.n, B, eager)
    [] o.t = "u" -> LET r == Small(h, o.w, B, eager) IN [h |-> r.h, d |-> BTrim(r.d)]
    [] o.t = "m" -> Bounded(h, o.w, o.b, B, eager)
    [] o.t = "b" -> LET r == Small(h, 1, B, eager) IN [h |-> r.h, d |-> <<IF BoolOf(r.d[1]) THEN 1 ELSE 0>>]
    [] o.t = "R" -> [h |-> Fill(h, B), d |-> <<>>]
    [] o.t = "s" -> [h |-> Fill([h EXCEPT !.next = o.p], B), d |-> <<>>]

\* ------------------------------------------------------------ what it is for
(* The abstract handle: sets of positions given out. A small read gives the
   lowest positions not given out yet, a large one any others in order; a
   refill on demand may give up positions.                                   *)
RECURSIVE Lowest(_, _, _)
Lowest(given, n, from) == IF n = 0 THEN <<>>
  ELSE IF from \in given THEN Lowest(given, n, from + 1) ELSE <<from>> \o Lowest(given, n - 1, from + 1)
Ascending(d) == \A i \in 1..Len(d) - 1 : d[i] < d[i + 1]
Ran(d) == {d[i] : i \in 1..Len(d)}
=============================================================================
