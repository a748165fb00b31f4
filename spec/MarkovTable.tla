---------------------------- MODULE MarkovTable -----------------------------
(* The tables in which the implementation keeps the continuations of a context
   and their counts: a bucket per remainder of the codepoint, moved to a larger
   table whenever two codepoints need the same bucket.                       *)
EXTENDS Markov, TLC

\* a table: [size: index of Sizes, b: remainder -> <<cp, count>> ]
NoB == <<>>
New(size) == [size |-> size, b |-> [r \in 0..Sizes[size] - 1 |-> NoB]]
RECURSIVE TInsert(_, _, _), TMove(_, _, _), TGrow(_, _)
TMove(new, old, r) ==
  IF r = Sizes[old.size] THEN new
  ELSE TMove(IF old.b[r] = NoB THEN new ELSE TInsert(new, old.b[r][1], old.b[r][2]), old, r + 1)
TGrow(t, cp) ==
  LET e == t.b[cp % Sizes[t.size]]
  IN IF e # NoB /\ e[1] # cp THEN TGrow(TMove(New(t.size + 1), t, 0), cp) ELSE t
TInsert(t, cp, w) ==
  LET g == TGrow(t, cp)
      r == cp % Sizes[g.size]
  IN IF w = 0 THEN t
     ELSE [g EXCEPT !.b[r] = IF @ = NoB THEN <<cp, w>> ELSE <<cp, @[2] + w>>]
TCount(t, cp) == LET e == t.b[cp % Sizes[t.size]] IN IF e # NoB /\ e[1] = cp THEN e[2] ELSE 0
=============================================================================
