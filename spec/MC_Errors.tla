------------------------------ MODULE MC_Errors -----------------------------
(* Model checking: the parser machine rejects at the first token at which no
   continuation can be accepted. Completion(p) closes what is open; the string
   read so far followed by it is accepted, so an unrejected prefix is viable,
   and a rejected one is never part of a well-formed string.                 *)
EXTENDS Pattern
G == INSTANCE Grammar
CONSTANTS MaxLen

E(c) == [esc |-> 1, cp |-> c]
T(c) == [esc |-> 0, cp |-> c]
Alphabet == {T(97), T(40), T(41), T(123), T(125), T(91), T(93), T(124), T(63), T(45), T(44), T(49), T(50), E(119), E(45), E(91)}

RECURSIVE Finish(_)
\* tokens that close the construct on top, and those below it
NumTokens(v) == \* decimal digits of a small number
  LET RECURSIVE D(_)
      D(n) == IF n < 10 THEN <<T(48 + n)>> ELSE D(n \div 10) \o <<T(48 + (n % 10))>>
  IN D(v)
\* for n,m with m < n so far: more digits make m at least as large as n
RECURSIVE Grow(_, _)
Grow(n, m) == IF BLeq(n, m) THEN <<>> ELSE <<T(57)>> \o Grow(n, BScaleAdd(m, 10, 9))
Close(f) == CASE f.f = "g" -> <<T(41)>>
              [] f.f = "set" -> <<T(93)>>
              [] f.f = "range" -> <<T(f.ranges[Len(f.ranges)][1]), T(93)>>
              [] f.f = "rep" -> <<T(125)>>
              [] f.f = "rep2" -> Grow(f.n, f.n2) \o <<T(125)>>
              [] f.f = "mul" -> <<T(125)>>
              [] f.f = "sp" -> <<T(123), T(125)>>
              [] f.f = "spn" -> <<T(125)>>
Finish(fr) == IF Len(fr) = 1 THEN <<>> ELSE Close(fr[Len(fr)]) \o Finish(SubSeq(fr, 1, Len(fr) - 1))

\* a closing bracket inside of a range start must be written escaped
Esc(seq) == seq

RECURSIVE Feed(_, _, _)
Feed(p, toks, i) == IF i > Len(toks) THEN p ELSE Feed(PStep(p, toks[i], 0), toks, i + 1)

VARIABLES s, p, at
Init == s = <<>> /\ p = PInit /\ at = 0
Next == /\ Len(s) < MaxLen
        /\ \E t \in Alphabet : /\ s' = Append(s, t) /\ p' = PStep(p, t, 0)
                               /\ at' = IF ~p.bad /\ p'.bad THEN Len(s) ELSE at
Spec == Init /\ [][Next]_<<s, p, at>>
View == s

Escaped(toks) == [k \in 1..Len(toks) |->
  IF k < Len(toks) /\ toks[k].esc = 0 /\ toks[k].cp \in {45, 93} /\ toks[k + 1] = T(93) /\ toks[k].cp # 45
  THEN E(toks[k].cp) ELSE toks[k]]
\* viability: nothing is rejected too late
Viable == ~p.bad => PDone(Feed(p, Finish(p.fr), 1)) \/ PDone(Feed(p, Escaped(Finish(p.fr)), 1))
\* nothing is rejected too early: no extension of a rejected string within the
\* bound is well-formed (checked at the extension)
Early == p.bad => ~G!WellFormed(s)
\* what Norm leaves out makes no difference
Congruent == ~p.bad => \A t \in Alphabet :
  LET a == PStep(p, t, 0)
      b == PStep(Norm(p), t, 0)
  IN a.bad = b.bad /\ (~a.bad => Norm(a) = Norm(b))
=============================================================================
