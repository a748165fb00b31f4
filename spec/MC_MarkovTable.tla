--------------------------- MODULE MC_MarkovTable ---------------------------
(* Whatever the order of insertions: the table holds exactly the counts of the
   multiset that was inserted, and its size depends on the set of codepoints
   alone (so that the choice made by a random value does, too).              *)
EXTENDS MarkovTable
CONSTANTS Cps, Weights0, MaxOps
VARIABLES t, m, n
Init == t = New(1) /\ m = [c \in Cps |-> 0] /\ n = 0
Next == /\ n < MaxOps
        /\ \E c \in Cps, w \in Weights0 :
             t' = TLCEval(TInsert(t, c, w)) /\ m' = [m EXCEPT ![c] = @ + w] /\ n' = n + 1
Spec == Init /\ [][Next]_<<t, m, n>>
Counts == \A c \in Cps : TCount(t, c) = m[c]
Size == LET S == {c \in Cps : m[c] > 0} IN S # {} => Sizes[t.size] = TableSize(S)
Nothing == \A r \in DOMAIN t.b : t.b[r] # NoB => m[t.b[r][1]] > 0
=============================================================================
