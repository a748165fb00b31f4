----------------------------- MODULE T_Sandbox ------------------------------
(* Probes of the filter that is really installed (C21): [abi, nr, a, o], where o
   has the fate of the process and the effects that were seen.                *)
EXTENDS Sandbox, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Judge(c) ==
  LET f == Filter(c)
  IN CASE f = "kill" /\ c.o.fate # "killed" -> "the call should have ended the process"
       [] f = "kill" /\ c.o.eff # 0 -> "the call took effect before the process was ended"
       [] f = "allow" /\ c.o.fate = "killed" -> "the call should have been allowed"
       [] f # "kill" /\ c.o.eff # 0 -> "the call did harm"
       [] OTHER -> ""
VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
