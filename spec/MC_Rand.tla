------------------------------- MODULE MC_Rand ------------------------------
(* The buffered handle refines the abstract one, for every sequence of reads,
   with a small buffer: every position is given out at most once, small reads
   give the lowest ones left, and values read are those of the positions.    *)
EXTENDS Rand, FiniteSets
CONSTANTS B, MaxPos, Eager
VARIABLES h, given, last, big
vars == <<h, given, last, big>>
C == [k |-> "counter"]
Init == h = ROpen(C, B) /\ given = {} /\ last = <<>> /\ big = FALSE
Next == \E n \in 0..(2 * B + 1) :
          /\ BToInt(h.next) < MaxPos
          /\ LET r == Read(h, n, B, Eager)
             IN h' = r.h /\ last' = r.d /\ given' = given \cup Ran(r.d) /\ big' = (n > B)
Spec == Init /\ [][Next]_vars
AtMostOnce == [][Cardinality(given') = Cardinality(given) + Len(last')]_vars
InOrder == [][~big' => last' = Lowest(given, Len(last'), 0)]_vars
LargeAscends == big => Ascending(last)
\* nothing is lost: what was taken from the source is given or in the buffer
NothingLost == \A p \in 0..(BToInt(h.next) - 1) : p \in given \/ (p >= BToInt(h.buf) + h.pos /\ p < BToInt(h.buf) + B)
=============================================================================
