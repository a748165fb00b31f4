------------------------------ MODULE T_Markov ------------------------------
(* Trace validation of n-gram statistics.
   kind "mk": words with weights were added; in each context that was queried,
     every value below the total was drawn once (reported in runs of values with
     the same outcome): each continuation must come up as often as it follows the context, with the fitting entropy.
   kind "gen": a word was generated from a file of words: each step must be a
     continuation that occurs, ending where a word may end, and the entropy is
     the product of total/count along the way.                               *)
EXTENDS Markov, Wordlist, BigNat, SequencesExt, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

Near(m, e, num, den) ==
  LET md == BMul(m, den)
      a == IF e >= 0 THEN BShift(md, e) ELSE md
      b == IF e >= 0 THEN num ELSE BShift(num, -e)
      d == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)
  IN BLeq(BShift(d, 40), b)

Sum(s) == FoldLeft(+, 0, s)

Query(c, k) ==
  LET ws == c.words
      q == c.queries[k]
      occ == TLCEval(Occurs(ws, q, c.level))
      all == Followers(ws, occ)
      S == TLCEval({x \in all : Count(ws, occ, x) > 0})
      total == Total(ws, occ)
      r == c.o.r[k]
      times(x) == Sum([j \in 1..Len(r) |-> IF r[j].cp = x THEN r[j].rep ELSE 0])
  IN IF Sum([j \in 1..Len(r) |-> r[j].rep]) # total THEN "machinery: the total is " \o ToString(total)
     ELSE IF \E j \in 1..Len(r) : r[j].cp \notin S THEN "a continuation that does not occur after " \o ToString(q)
     ELSE IF \E x \in S : times(x) # Count(ws, occ, x) THEN "the continuations of " \o ToString(q) \o " are " \o ToString({<<x, Count(ws, occ, x)>> : x \in S})
     ELSE IF \E j \in 1..Len(r) : r[j].used # 8 THEN "not one draw of 64 bits"
     ELSE IF \E j \in 1..Len(r) : ~Near(r[j].ent.m, r[j].ent.e, BFromInt(total), BFromInt(Count(ws, occ, r[j].cp))) THEN "wrong entropy after " \o ToString(q)
     ELSE ""

JudgeMk(c) ==
  LET bad == {k \in 1..Len(c.queries) : Query(c, k) # ""}
      n == Sum([a \in 1..Len(c.words) |-> c.words[a].w * (Len(c.words[a].cps) + 1)])
  IN IF bad # {} THEN Query(c, CHOOSE k \in bad : TRUE)
     ELSE IF c.o.count # n THEN "the number of sequences is " \o ToString(n) ELSE ""

RECURSIVE Walk(_, _, _, _, _, _)
Walk(ws, level, out, k, num, den) == \* of out, followed by the end
  IF k > Len(out) + 1 THEN [ok |-> TRUE, num |-> num, den |-> den]
  ELSE LET occ == TLCEval(Occurs(ws, ContextAt(out, k, level), level))
           x == PadAt(out, k)
           n == Count(ws, occ, x)
       IN IF n = 0 THEN [ok |-> FALSE, num |-> num, den |-> den]
          ELSE Walk(ws, level, out, k + 1, BMul(num, BFromInt(Total(ws, occ))), BMul(den, BFromInt(n)))
JudgeGen(c) ==
  LET lines == Words(c.data)
      usable == lines # <<>> /\ \A k \in 1..Len(lines) : DecodeAll(lines[k]).r = "ok"
      ws == [k \in 1..Len(lines) |-> [cps |-> DecodeAll(lines[k]).cps, w |-> 1]]
      bad(g) ==
        IF ~usable THEN (IF g.ret = 0 THEN "success claimed without statistics" ELSE "")
        ELSE IF g.ret # 0 THEN "failed"
        ELSE LET w == Walk(ws, c.level, g.o, 1, <<1>>, <<1>>)
             IN IF ~w.ok THEN "not a chain of continuations that occur: " \o ToString(g.o)
                ELSE IF ~Near(g.ent.m, g.ent.e, w.num, w.den) THEN "the entropy should be " \o ToString(<<w.num, w.den>>)
                ELSE ""
      S == {k \in 1..Len(c.o.g) : bad(c.o.g[k]) # ""}
  IN IF S = {} THEN "" ELSE bad(c.o.g[CHOOSE k \in S : TRUE])

Judge(c) == IF c.kind = "mk" THEN JudgeMk(c) ELSE JudgeGen(c)
VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
