-------------------------------- MODULE T_Own ------------------------------
(* Trace validation of histories of handles against the ledger of Owners (C25).
   A case has ops and, for each, what was observed: ok, and what was left then:
   m blocks and f files.                                                        *)
EXTENDS Owners, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

Left(x) == [m |-> x.m, f |-> x.f]
RECURSIVE Fold(_, _, _, _)
(* cx: the contexts, by slot *)
Fold(c, k, L, cx) ==
  IF k > Len(c.ops) THEN (IF L.live # {} THEN "the history is not complete" ELSE "")
  ELSE LET o == c.ops[k]
           x == c.r[k]
           before == IF k = 1 THEN Zero ELSE Left(c.r[k - 1])
           d == Minus(Left(x), before)
           Where == "operation " \o ToString(k) \o " (" \o o.k \o "): "
       IN CASE o.k = "C" -> IF d # Zero THEN Where \o "a context took something" ELSE Fold(c, k + 1, L, (o.h :> CtxInit(o.n)) @@ cx)
            [] o.k = "q" -> LET y == CtxStep(cx[o.h], o.e, o.n)
                            IN IF x.ok # y.n THEN Where \o "the functions of the context should have been used as in " \o ToString(y.n)
                               ELSE IF d # CtxDelta(cx[o.h], y) THEN Where \o "should change what is held by " \o ToString(CtxDelta(cx[o.h], y))
                               ELSE Fold(c, k + 1, L, (o.h :> y) @@ cx)
            [] OTHER -> LET y == LStep(L, RoleOf(o), Opens(o, x.ok = 1), d)
                        IN IF y.why # "" THEN Where \o y.why ELSE Fold(c, k + 1, y.st, cx)
Judge(c) == IF Len(c.r) # Len(c.ops) THEN "wrong number of results" ELSE Fold(c, 1, LInit, <<>>)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
