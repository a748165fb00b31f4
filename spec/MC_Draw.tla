------------------------------- MODULE MC_Draw ------------------------------
(* Bounded draws are uniform: for each bound, every value below it comes from
   equally many candidates, half of the candidates at least are accepted, and
   no other value is ever given. All bounds of one byte, all in Wide of two. *)
EXTENDS Draw, FiniteSets, TLC
CONSTANT Wide
VARIABLE w, b, n
Cand(width, c) == IF width = 1 THEN <<c>> ELSE <<c % 256, c \div 256>>
Init == n = 0 /\ ((w = 1 /\ b \in 1..255) \/ (w = 2 /\ b \in Wide))
Next == n = 0 /\ n' = 1 /\ UNCHANGED <<w, b>>
Spec == Init /\ [][Next]_<<w, b, n>>
Space == IF w = 1 THEN 256 ELSE 65536
Vals == TLCEval([c \in 0..(Space - 1) |-> BToInt(Mask(Cand(w, c), Smear(BFromInt(b))))])
Uniform ==
  LET vs == Vals
      per == Cardinality({c \in 0..(Space - 1) : vs[c] = 0})
      acc == Cardinality({c \in 0..(Space - 1) : vs[c] < b})
  IN /\ per > 0 /\ per * b = acc /\ 2 * acc >= Space
     /\ IF w = 1 THEN \A v \in 0..(b - 1) : Cardinality({c \in 0..255 : vs[c] = v}) = per
        ELSE \A v \in {0, 1, b \div 2, b - 1} \cap 0..(b - 1) : Cardinality({c \in 0..65535 : vs[c] = v}) = per
Even == Cardinality({c \in 0..255 : BoolOf(c)}) = 128
=============================================================================
