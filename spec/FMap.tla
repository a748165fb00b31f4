-------------------------------- MODULE FMap --------------------------------
(* Finite maps: what a hash map is supposed to be. A map is a function from a
   finite set of keys to values; insertion and removal return what was there. *)
EXTENDS Integers, Sequences, FiniteSets
None == <<>>
MEmpty == [k \in {} |-> 0]
MGet(m, k) == IF k \in DOMAIN m THEN <<m[k]>> ELSE None
MPut(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
MDel(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
MLen(m) == Cardinality(DOMAIN m)
=============================================================================
