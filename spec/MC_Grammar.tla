----------------------------- MODULE MC_Grammar -----------------------------
(* Model checking: over all token strings up to a length, the parser machine
   accepts exactly the strings of the declarative grammar, its open constructs
   are never more than the tokens read, group totals are the sums of their
   alternatives, and numbers stay ordered.                                   *)
EXTENDS Pattern
G == INSTANCE Grammar
CONSTANTS MaxLen, Small

E(c) == [esc |-> 1, cp |-> c]
T(c) == [esc |-> 0, cp |-> c]
Alphabet == IF Small
  THEN {T(97), T(40), T(41), T(123), T(125), T(91), T(93), T(124), T(63), T(45), T(49), E(119)}
  ELSE {T(97), T(40), T(41), T(123), T(125), T(91), T(93), T(124), T(63), T(45), T(44), T(49), T(50), E(119), E(45), E(124)}

VARIABLES s, p
Init == s = <<>> /\ p = PInit
Next == /\ Len(s) < MaxLen
        /\ \E t \in Alphabet : /\ s' = Append(s, t) /\ p' = PStep(p, t, 0)
Spec == Init /\ [][Next]_<<s, p>>

\* a rejected prefix stays rejected; the machine never needs to look back
View == s
Accepts == PDone(p) <=> G!WellFormed(s)
Open == Len(p.fr) <= Len(s) + 1 /\ p.fr[1].f = "g"

RECURSIVE GoodSegs(_)
GoodItem(it) ==
  /\ BLeq(it.min, it.max)
  /\ \A r \in 1..Len(it.ranges) : it.ranges[r][1] <= it.ranges[r][2]
  /\ it.k = "grp" => (it.sum = <<>> \/ it.sum = SegSum(it.segs)) /\ GoodSegs(it.segs)
GoodSegs(segs) == \A i \in 1..Len(segs) : segs[i].m # <<>> /\ \A j \in 1..Len(segs[i].items) : GoodItem(segs[i].items[j])
Structure == PDone(p) => GoodSegs(PAst(p).segs) /\ PAst(p).sum = SegSum(PAst(p).segs)
=============================================================================
