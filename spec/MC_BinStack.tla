---------------------------- MODULE MC_BinStack -----------------------------
(* The binned stack refines a plain sequence, and every element is within its
   bin and every bin within the list of bins.                                *)
EXTENDS BinStack, TLC
CONSTANTS MaxLen, Vals
VARIABLES q, s
Init == q = <<>> /\ s = SEmpty
Push(v) == Len(q) < MaxLen /\ q' = Append(q, v) /\ s' = SPush(s, v)
Pop == q # <<>> /\ q' = SubSeq(q, 1, Len(q) - 1) /\ s' = SPop(s)
Next == Pop \/ \E v \in Vals : Push(v)
Spec == Init /\ [][Next]_<<q, s>>
Inside == \A pos \in 0..s.len - 1 : /\ Bin(pos) + 1 \in DOMAIN s.bins /\ Bin(pos) < s.slots
                                    /\ pos % BinSize \in DOMAIN s.bins[Bin(pos) + 1]
Refines == s.len = Len(q) /\ \A pos \in 0..s.len - 1 : SGet(s, pos) = q[pos + 1]
Bins == Len(s.bins) = (s.len + BinSize - 1) \div BinSize
=============================================================================
