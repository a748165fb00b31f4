------------------------------ MODULE Grammar -------------------------------
(* The documented syntax as a declarative grammar over token strings, without
   any machine: which intervals of s form which construct.                   *)
EXTENDS Integers, Sequences, BigNat

Is(t, cp) == t.esc = 0 /\ t.cp = cp
Ch(c) == [esc |-> 0, cp |-> c]

RECURSIVE NumVal(_, _, _)
NumVal(s, i, j) == IF i > j THEN 0 ELSE NumVal(s, i, j - 1) * 10 + (s[j].cp - 48)
Digits(s, i, j) == \A k \in i..j : s[k].esc = 0 /\ s[k].cp \in 48..57

\* {n}
Brace1(s, i, j) == i < j /\ Is(s[i], 123) /\ Is(s[j], 125) /\ Digits(s, i + 1, j - 1)
\* {n,m}
Brace2(s, i, j) ==
  i < j /\ Is(s[i], 123) /\ Is(s[j], 125)
  /\ \E k \in i + 1..j - 1 : /\ Is(s[k], 44) /\ Digits(s, i + 1, k - 1) /\ Digits(s, k + 1, j - 1)
                             /\ NumVal(s, i + 1, k - 1) <= NumVal(s, k + 1, j - 1)
Mod(s, i, j) == (i = j /\ Is(s[i], 63)) \/ Brace1(s, i, j) \/ Brace2(s, i, j)

InSet(t) == IF t.esc = 0 THEN t.cp ELSE IF t.cp \in {45, 93} THEN t.cp ELSE -1
RECURSIVE SetBody(_, _, _, _)
SetBody(s, i, j, last) ==
  IF i > j THEN TRUE
  ELSE IF Is(s[i], 45) /\ last >= 0
       THEN i < j /\ InSet(s[i + 1]) >= last /\ SetBody(s, i + 2, j, last)
       ELSE InSet(s[i]) >= 0 /\ SetBody(s, i + 1, j, InSet(s[i]))
SetAtom(s, i, j) == /\ i < j /\ Is(s[i], 91) /\ Is(s[j], 93)
                    /\ \A k \in i + 1..j - 1 : ~Is(s[k], 93)
                    /\ SetBody(s, i + 1, j - 1, -1)
Special(s, i, j) == /\ i + 2 <= j /\ s[i].esc = 1 /\ s[i].cp \in {109, 112, 119}
                    /\ Is(s[i + 1], 123) /\ Is(s[j], 125) /\ \A k \in i + 2..j - 1 : ~Is(s[k], 125)
Plain(t) == IF t.esc = 1 THEN t.cp \in {124, 40, 41, 123, 125, 91, 93}
            ELSE t.cp \notin {124, 40, 41, 91, 123, 63}

RECURSIVE Alt(_, _, _), Segment(_, _, _), Items(_, _, _), Quant(_, _, _)
Atom(s, i, j) ==
  \/ i = j /\ Plain(s[i])
  \/ SetAtom(s, i, j)
  \/ Special(s, i, j)
  \/ i < j /\ Is(s[i], 40) /\ Is(s[j], 41) /\ Alt(s, i + 1, j - 1)
Quant(s, i, j) == Atom(s, i, j) \/ \E k \in i..j - 1 : Mod(s, k + 1, j) /\ Quant(s, i, k)
Items(s, i, j) == i > j \/ \E k \in i..j : Quant(s, i, k) /\ Items(s, k + 1, j)
Segment(s, i, j) == Items(s, i, j) \/ \E k \in i..j : Brace1(s, i, k) /\ Segment(s, k + 1, j)
Alt(s, i, j) == Segment(s, i, j) \/ \E k \in i..j : Is(s[k], 124) /\ Segment(s, i, k - 1) /\ Alt(s, k + 1, j)

WellFormed(s) == Alt(s, 1, Len(s))
=============================================================================
