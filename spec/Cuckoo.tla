------------------------------- MODULE Cuckoo -------------------------------
(* The hash table of the implementation: every key has two positions, an entry
   in the way is moved to its other position if that is free, else the table
   grows to the next size and all entries are inserted anew.
   Res[k][which][s]: hash value number which of key k modulo size number s.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Res, HSizes
NoE == <<>>
CEmpty == [size |-> 0, d |-> <<>>, len |-> 0]
CNew(s) == [size |-> s, d |-> [p \in 0..HSizes[s] - 1 |-> NoE], len |-> 0]
Pos(t, k, which) == Res[k][which][t.size]
Has(t, k, which) == LET e == t.d[Pos(t, k, which)] IN e # NoE /\ e[1] = k
Where(t, k) == IF t.size = 0 THEN 0 ELSE IF Has(t, k, 1) THEN 1 ELSE IF Has(t, k, 2) THEN 2 ELSE 0
CLookup(t, k) == IF Where(t, k) = 0 THEN <<>> ELSE <<t.d[Pos(t, k, Where(t, k))][2]>>
\* the other position of what is at p
Other(t, p) == LET k == t.d[p][1] IN Pos(t, k, IF Pos(t, k, 1) = p THEN 2 ELSE 1)

RECURSIVE CInsert(_, _, _), CMoveAll(_, _, _)
CMoveAll(new, old, p) ==
  IF old.size = 0 \/ p = HSizes[old.size] THEN new
  ELSE CMoveAll(IF old.d[p] = NoE THEN new ELSE CInsert(new, old.d[p][1], old.d[p][2]), old, p + 1)
CInsert(t0, k, v) ==
  LET t == IF t0.size = 0 THEN CNew(1) ELSE t0
      put(p) == [t EXCEPT !.d[p] = <<k, v>>, !.len = @ + 1]
      shift(p) == [t EXCEPT !.d[Other(t, p)] = t.d[p], !.d[p] = <<k, v>>, !.len = @ + 1]
      free(p) == t.d[p] = NoE
      w == Where(t, k)
      p1 == Pos(t, k, 1)
      p2 == Pos(t, k, 2)
  IN IF w # 0 THEN [t EXCEPT !.d[Pos(t, k, w)] = <<k, v>>]
     ELSE IF free(p1) THEN put(p1)
     ELSE IF free(Other(t, p1)) THEN shift(p1)
     ELSE IF free(p2) THEN put(p2)
     ELSE IF free(Other(t, p2)) THEN shift(p2)
     ELSE IF t.size = Len(HSizes) THEN Assert(FALSE, "the table grows without end")
     ELSE CInsert(CMoveAll(CNew(t.size + 1), t, 0), k, v)
CRemove(t, k) == IF Where(t, k) = 0 THEN t ELSE [t EXCEPT !.d[Pos(t, k, Where(t, k))] = NoE, !.len = @ - 1]
\* entries in the order of a traversal
RECURSIVE CEntries(_, _)
CEntries(t, p) == IF t.size = 0 \/ p = HSizes[t.size] THEN <<>>
                  ELSE (IF t.d[p] = NoE THEN <<>> ELSE <<t.d[p]>>) \o CEntries(t, p + 1)
=============================================================================
