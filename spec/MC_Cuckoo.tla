----------------------------- MODULE MC_Cuckoo ------------------------------
(* The hash table refines the finite map: for the keys of hashkeys.json (with
   the hash values of the real hash function, selected so that they collide)
   all interleavings of insertions, replacements and removals are explored.
   The history of each state is printed, to be replayed into the real map.   *)
EXTENDS FMap, Json, IOUtils, TLC
CONSTANTS Report, MaxHist
Families == ndJsonDeserialize(IOEnv.HASHKEYS)
F == Families[atoi(IOEnv.FAMILY)]
N == Len(F.keys)
HSz == <<3, 7, 17, 37, 79, 163>>
\* F.keys[k].h = <<first mod sizes.., second mod sizes..>>: residues by size
C == INSTANCE Cuckoo WITH Res <- [k \in 1..N |-> <<F.keys[k].h1, F.keys[k].h2>>], HSizes <- HSz

VARIABLES m, t, hist
Init == m = MEmpty /\ t = C!CEmpty /\ hist = <<>>
Ins(k, v) == /\ m' = MPut(m, k, v) /\ t' = TLCEval(C!CInsert(t, k, v)) /\ hist' = Append(hist, <<1, k, v>>)
Rem(k) == /\ m' = MDel(m, k) /\ t' = C!CRemove(t, k) /\ hist' = Append(hist, <<2, k, 0>>)
Next == /\ Len(hist) < MaxHist
        /\ \E k \in 1..N : Rem(k) \/ Ins(k, 1) \/ (k \in DOMAIN m /\ Ins(k, 2))
        /\ Report => PrintT("@@hist " \o ToString(hist'))
Spec == Init /\ [][Next]_<<m, t, hist>>
View == <<m, t>>
Refines == /\ \A k \in 1..N : C!CLookup(t, k) = MGet(m, k)
           /\ t.len = MLen(m)
           /\ LET e == C!CEntries(t, 0)
              IN /\ Len(e) = MLen(m)
                 /\ \A i \in 1..Len(e) : e[i][1] \in DOMAIN m /\ m[e[i][1]] = e[i][2]
                 /\ \A i, j \in 1..Len(e) : e[i][1] = e[j][1] => i = j
=============================================================================
