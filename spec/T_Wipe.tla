------------------------------ MODULE T_Wipe -------------------------------
(* Trace validation of the clearing of memory (C22). *)
EXTENDS Wipe, Source, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
RECURSIVE Fold(_, _, _, _)
Fold(c, k, kind, where) ==
  IF k > Len(c.ops) THEN ""
  ELSE LET p == c.ops[k]
           o == c.ev[k]
           d == IF p.e = "open" THEN Describe(p.d) ELSE NoSource
           why == CASE p.e = "open" -> OpenShows(d.k, IF d.ok THEN 1 ELSE 0, o)
                    [] p.e = "use" -> UseShows(o)
                    [] p.e = "end" -> EndShows(kind, where, o)
       IN IF why # "" THEN "event " \o ToString(k) \o ": " \o why
          ELSE IF p.e = "open" THEN Fold(c, k + 1, d.k, p.where) ELSE Fold(c, k + 1, kind, where)
Judge(c) ==
  IF c.check = "struct" THEN StructShows(c.ev[1], c.ev[2])
  ELSE IF Len(c.ev) # Len(c.ops) THEN "wrong number of events" ELSE Fold(c, 1, "zero", "heap")

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
