-------------------------------- MODULE T_Ses -------------------------------
(* Trace validation of sessions: every operation must give what Sessions says,
   whatever operations on other handles come in between, before or at the same
   time (C24). A case has ops and, for each, what was observed.               *)
EXTENDS Sessions, GenObs, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Slots == 16

RECURSIVE Agrees(_, _, _)
Agrees(o, r, obs) ==
  CASE o.o = "I" -> Len(obs) = Len(o.ops) /\ \A k \in 1..Len(o.ops) : Agrees(o.ops[k], r[k], obs[k])
    [] o.o \in {"P", "q"} -> (obs = 0) <=> (r = 0)
    [] o.o = "g" -> Follows([m |-> o.m, ret |-> o.ret], r, obs) /\ EntropyFits([m |-> o.m], r, obs) /\ obs.canary = 1
    [] OTHER -> obs = r
RECURSIVE Expected(_, _)
Expected(o, r) == CASE o.o = "g" -> Show(r)
                    [] o.o = "I" -> LET RECURSIVE All(_)
                                        All(k) == IF k > Len(o.ops) THEN "" ELSE Expected(o.ops[k], r[k]) \o "; " \o All(k + 1)
                                    IN All(1)
                    [] OTHER -> ToString(r)
RECURSIVE Fold(_, _, _)
Fold(c, st, k) ==
  IF k > Len(c.ops) THEN ""
  ELSE LET x == SesStep(st, c.ops[k])
       IN IF ~Agrees(c.ops[k], x.res, c.r[k]) THEN "operation " \o ToString(k) \o " (" \o c.ops[k].o \o ") should give " \o Expected(c.ops[k], x.res)
          ELSE Fold(c, x.st, k + 1)
Judge(c) == IF Len(c.r) # Len(c.ops) THEN "wrong number of results" ELSE IF c.same # 1 THEN "not the same every time" ELSE Fold(c, SesInit(Slots), 1)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
