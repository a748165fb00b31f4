----------------------------- MODULE MC_Sessions ----------------------------
(* All interleavings of the threads of operations in programs.ndjson (one
   program a line: field t, the sequence of its threads, each a sequence of
   operations on slots of its own). However they are interleaved, each thread
   gets the results it gets alone. Complete interleavings are printed, to be
   replayed into the implementation.                                          *)
EXTENDS Sessions, TLC, Json, IOUtils
CONSTANTS Slots, Report

Progs == ndJsonDeserialize(IOEnv.PROGRAMS)
RECURSIVE Alone(_, _, _)
Alone(ops, st, k) == IF k > Len(ops) THEN <<>> ELSE LET x == SesStep(st, ops[k]) IN <<x.res>> \o Alone(ops, x.st, k + 1)

VARIABLES p, st, pc, res, order
vars == <<p, st, pc, res, order>>
T == Progs[p].t
Init == /\ p \in 1..Len(Progs) /\ st = SesInit(Slots)
        /\ pc = [t \in 1..Len(T) |-> 0] /\ res = [t \in 1..Len(T) |-> <<>>] /\ order = <<>>
Next == \E t \in 1..Len(T) :
          /\ pc[t] < Len(T[t])
          /\ LET x == SesStep(st, T[t][pc[t] + 1])
             IN st' = x.st /\ res' = [res EXCEPT ![t] = Append(@, x.res)]
          /\ pc' = [pc EXCEPT ![t] = @ + 1]
          /\ order' = IF Report THEN Append(order, t) ELSE order
          /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Finished == \A t \in 1..Len(T) : pc[t] = Len(T[t])
AsAlone == Finished => \A t \in 1..Len(T) : res[t] = Alone(T[t], SesInit(Slots), 1)
Told == Finished /\ Report => PrintT("@@ord " \o ToString(p) \o " " \o ToString(order))
=============================================================================
