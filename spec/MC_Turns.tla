------------------------------ MODULE MC_Turns ------------------------------
(* Generations that take turns character by character, in every order, for the
   programs of programs.ndjson (one a line: pre, operations before; ops, those
   that take turns). What an operation gives does not depend on the turns
   unless it uses the source of another one (field own: the numbers of those
   that do not); and those that do still make outputs of their patterns, and
   together take what comes from the source, no draw twice.
   Complete schedules are printed, to be replayed into the implementation.    *)
EXTENDS Sessions, TLC, Json, IOUtils, FiniteSets
L == INSTANCE Lang
CONSTANTS Slots, Report

Progs == ndJsonDeserialize(IOEnv.PROGRAMS)
RECURSIVE Prepare(_, _, _)
Prepare(ops, st, k) == IF k > Len(ops) THEN st ELSE Prepare(ops, SesStep(st, ops[k]).st, k + 1)
Start(k) == Prepare(Progs[k].pre, SesInit(Slots), 1)

VARIABLES p, st, ts, sch
vars == <<p, st, ts, sch>>
Ops == Progs[p].ops
Init == /\ p \in 1..Len(Progs) /\ st = Start(p)
        /\ ts = [j \in 1..Len(Progs[p].ops) |-> Task0] /\ sch = <<>>
Next == \E j \in 1..Len(Ops) :
          /\ ~ts[j].over
          /\ LET x == Turn(st, Ops[j], ts[j]) IN st' = x.st /\ ts' = [ts EXCEPT ![j] = x.t]
          /\ sch' = IF Report THEN Append(sch, j) ELSE sch
          /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Finished == \A j \in 1..Len(Ops) : ts[j].over
Alone(j) == SesStep(Start(p), Ops[j]).res
AsAlone == \A j \in {Progs[p].own[k] : k \in 1..Len(Progs[p].own)} : ts[j].over => ts[j].res[1] = Alone(j)
\* what was delivered so far is a beginning of what will have been
Growing == \A j \in 1..Len(Ops) : ts[j].g # <<>> => ts[j].vis <= Len(ts[j].g[1].out)
InLanguage == \A j \in 1..Len(Ops) :
  (ts[j].over /\ Ops[j].o = "g") =>
     LET g == ts[j].res[1] IN g.st = "ok" => L!Member(st.pat[Ops[j].p][1], g.env, g.out)
\* the schedule alone determines the results
Deterministic == Finished /\ Report =>
  LET r == SesStep(Start(p), [o |-> "I", ops |-> Ops, sch |-> sch])
  IN \A j \in 1..Len(Ops) : r.res[j] = ts[j].res[1]
Told == Finished /\ Report => PrintT("@@sch " \o ToString(p) \o " " \o ToString(sch))
=============================================================================
