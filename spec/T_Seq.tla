-------------------------------- MODULE T_Seq -------------------------------
(* Trace validation of stack and array against a plain sequence. ops:
   [t: p push, o pop, O pop without copy, g get, t top, f traverse, v: element
   or position]; observed: [v, l, len], v = -1 where there is nothing, -2 where
   the element is damaged. kind "st" or "ar".                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
At(q, pos) == IF pos < Len(q) THEN q[pos + 1] ELSE -1
Last(q) == IF q = <<>> THEN -1 ELSE q[Len(q)]
Drop(q) == IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
RECURSIVE Follow(_, _, _, _)
Follow(ops, os, i, q) ==
  IF i > Len(ops) THEN ""
  ELSE LET op == ops[i]
           o == os[i]
           n == CASE op.t = "p" -> Append(q, op.v) [] op.t \in {"o", "O"} -> Drop(q) [] OTHER -> q
           ok == CASE op.t = "p" -> o.v = op.v
                   [] op.t \in {"o", "t"} -> o.v = Last(q)
                   [] op.t = "O" -> TRUE
                   [] op.t = "g" -> o.v = At(q, op.v)
                   [] op.t = "f" -> o.l = q
       IN IF ~ok THEN "operation " \o ToString(i) \o " (" \o op.t \o ") with " \o ToString(Len(q)) \o " elements should find "
                      \o ToString(CASE op.t = "p" -> op.v [] op.t \in {"o", "t"} -> Last(q) [] op.t = "g" -> At(q, op.v) [] OTHER -> q)
          ELSE IF o.len # Len(n) THEN "there should be " \o ToString(Len(n)) \o " elements after operation " \o ToString(i)
          ELSE Follow(ops, os, i + 1, TLCEval(n))

\* The same for many elements: the sequence is kept as runs [f, n] of ids f, f+1, ...
\* (modulo c.md), as long as they can be. B pushes op.n ids from op.v on, D pops
\* op.n of them, F traverses; observed: runs in the order in which they came.
Add(rs, f, n, md, step) ==
  IF n = 0 THEN rs
  ELSE IF rs # <<>> /\ (rs[Len(rs)].f + (step * rs[Len(rs)].n) - f) % md = 0
       THEN [rs EXCEPT ![Len(rs)] = [f |-> rs[Len(rs)].f, n |-> rs[Len(rs)].n + n]]
       ELSE Append(rs, [f |-> f, n |-> n])
RECURSIVE Total(_, _)
Total(rs, k) == IF k = 0 THEN 0 ELSE rs[k].n + Total(rs, k - 1)
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE Cut(_, _)
Cut(rs, n) == IF n = 0 \/ rs = <<>> THEN rs
              ELSE LET r == rs[Len(rs)]
                       k == Least(r.n, n)
                       rest == SubSeq(rs, 1, Len(rs) - 1)
                   IN IF k = r.n THEN Cut(rest, n - k) ELSE Append(rest, [f |-> r.f, n |-> r.n - k])
\* what comes off: downwards
RECURSIVE Off(_, _, _, _)
Off(rs, n, md, acc) ==
  IF n = 0 \/ rs = <<>> THEN acc
  ELSE LET r == rs[Len(rs)]
           k == Least(r.n, n)
       IN Off(SubSeq(rs, 1, Len(rs) - 1), n - k, md, Add(acc, (r.f + r.n - 1) % md, k, md, -1))
RECURSIVE Pick(_, _, _, _)
Pick(rs, pos, k, md) == IF k > Len(rs) THEN -1 ELSE IF pos < rs[k].n THEN (rs[k].f + pos) % md ELSE Pick(rs, pos - rs[k].n, k + 1, md)
RECURSIVE Many(_, _, _, _, _)
Many(ops, os, i, rs, md) ==
  IF i > Len(ops) THEN ""
  ELSE LET op == ops[i]
           o == os[i]
           n == CASE op.t = "B" -> Add(rs, op.v, op.n, md, 1) [] op.t = "D" -> Cut(rs, op.n) [] OTHER -> rs
           ok == CASE op.t = "B" -> o.l = Add(<<>>, op.v, op.n, md, 1)
                   [] op.t = "D" -> o.l = Off(rs, op.n, md, <<>>)
                   [] op.t = "F" -> o.l = rs
                   [] op.t = "g" -> o.v = Pick(rs, op.v, 1, md)
       IN IF ~ok THEN "operation " \o ToString(i) \o " (" \o op.t \o ") with the runs " \o ToString(rs)
          ELSE IF o.len # Total(n, Len(n)) THEN "there should be " \o ToString(Total(n, Len(n))) \o " elements after operation " \o ToString(i)
          ELSE Many(ops, os, i + 1, n, md)
Judge(c) == IF "md" \in DOMAIN c THEN Many(c.ops, c.o.r, 1, <<>>, c.md) ELSE
            IF Len(c.ops) # Len(c.o.r) THEN "machinery: observations" ELSE Follow(c.ops, c.o.r, 1, <<>>)
VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
