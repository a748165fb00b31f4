-------------------------------- MODULE T_Map -------------------------------
(* Trace validation of the hash map against finite maps. ops:
   [t: i insert, d remove, l lookup, t traverse, s stop at the n-th entry,
    k: key, v: value or n]; observed: [has, v, l, len]                        *)
EXTENDS FMap, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Same(prev, o) == IF prev = None THEN o.has = 0 ELSE o.has = 1 /\ o.v = prev[1]
\* the values of m, as often as they occur
Visits(m, l) == /\ Len(l) = MLen(m)
                /\ \A i \in 1..Len(l) : Cardinality({j \in 1..Len(l) : l[j] = l[i]}) = Cardinality({k \in DOMAIN m : m[k] = l[i]})
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Follow(_, _, _, _)
Follow(ops, os, i, m) ==
  IF i > Len(ops) THEN ""
  ELSE LET op == ops[i]
           o == os[i]
           n == CASE op.t = "i" -> MPut(m, op.k, op.v) [] op.t = "d" -> MDel(m, op.k) [] OTHER -> m
           ok == CASE op.t \in {"i", "d", "l"} -> Same(MGet(m, op.k), o)
                   [] op.t = "t" -> Visits(m, o.l)
                   [] op.t = "s" -> o.v = Min(MLen(m), op.v) /\ (o.has = 1) = (op.v <= MLen(m))
       IN IF ~ok THEN "operation " \o ToString(i) \o " on " \o ToString(MLen(m)) \o " entries should find " \o ToString(IF op.t \in {"t", "s"} THEN MLen(m) ELSE MGet(m, op.k))
          ELSE IF o.len # MLen(n) THEN "there should be " \o ToString(MLen(n)) \o " entries after operation " \o ToString(i)
          ELSE Follow(ops, os, i + 1, TLCEval(n))

\* The same for many keys, numbered from 0: the map is kept as runs [h, d, n] of
\* numbers that are (h = 1) or are not (h = 0) in it, with their number plus d.
\* I puts the numbers op.a..op.a+op.n-1 in with op.d, D removes them, L looks
\* them up, T traverses; observed: runs of what was found.
Glue(rs, h, d, n) == IF n = 0 THEN rs
                     ELSE IF rs # <<>> /\ rs[Len(rs)].h = h /\ rs[Len(rs)].d = d
                          THEN [rs EXCEPT ![Len(rs)] = [h |-> h, d |-> d, n |-> rs[Len(rs)].n + n]]
                          ELSE Append(rs, [h |-> h, d |-> d, n |-> n])
RECURSIVE Span(_, _, _, _, _)
\* what the runs from the k-th on are for n numbers after the first `skip`
Span(rs, k, skip, n, acc) ==
  IF n = 0 THEN acc
  ELSE IF skip >= rs[k].n THEN Span(rs, k + 1, skip - rs[k].n, n, acc)
  ELSE LET m == Min(rs[k].n - skip, n) IN Span(rs, k + 1, 0, n - m, Glue(acc, rs[k].h, rs[k].d, m))
RECURSIVE Size(_, _)
Size(rs, k) == IF k = 0 THEN 0 ELSE (rs[k].h * rs[k].n) + Size(rs, k - 1)
Overlay(rs, u, a, n, h, d) == Span(rs, 1, a + n, u - a - n, Glue(Span(rs, 1, 0, a, <<>>), h, d, n))
RECURSIVE Many(_, _, _, _, _)
Many(u, ops, os, i, rs) ==
  IF i > Len(ops) THEN ""
  ELSE LET op == ops[i]
           o == os[i]
           n == CASE op.t = "I" -> Overlay(rs, u, op.a, op.n, 1, op.d) [] op.t = "D" -> Overlay(rs, u, op.a, op.n, 0, 0) [] OTHER -> rs
           want == IF op.t = "T" THEN rs ELSE Span(rs, 1, op.a, op.n, <<>>)
       IN IF o.l # want THEN "operation " \o ToString(i) \o " (" \o op.t \o ") should find the runs " \o ToString(want)
          ELSE IF o.len # Size(n, Len(n)) THEN "there should be " \o ToString(Size(n, Len(n))) \o " entries after operation " \o ToString(i)
          ELSE Many(u, ops, os, i + 1, n)
Judge(c) == IF "u" \in DOMAIN c THEN Many(c.u, c.ops, c.o.r, 1, <<[h |-> 0, d |-> 0, n |-> c.u]>>) ELSE
            IF Len(c.ops) # Len(c.o.r) THEN "machinery: observations" ELSE Follow(c.ops, c.o.r, 1, MEmpty)
VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
