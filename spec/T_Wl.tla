-------------------------------- MODULE T_Wl --------------------------------
(* Trace validation of reading wordlists. kind "file": the words are the lines
   of the data; "faulty": what was given cannot be read as a file.
   kind "all": word references were generated, one for each value of a draw
   below the number of words: each word comes up once, unchanged, with the
   number of words as its entropy; a list without words generates nothing.   *)
EXTENDS Wordlist, BigNat, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

Near(m, e, num) ==
  LET a == IF e >= 0 THEN BShift(m, e) ELSE m
      b == IF e >= 0 THEN num ELSE BShift(num, -e)
      d == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)
  IN BLeq(BShift(d, 40), b)

JudgeAll(c) ==
  LET ws == TLCEval(Words(c.data))
      g == c.o.g
      n == Len(ws)
      times(w) == Cardinality({k \in 1..n : ws[k] = w})
      good(k) == g[k].n = Len(g[k].o)
  IN IF n = 0 THEN (IF \E k \in 1..Len(g) : g[k].n # 0 THEN "generated from a list without words" ELSE "")
     ELSE IF Len(g) < n THEN "machinery: there are " \o ToString(n) \o " words"
     ELSE IF \E k \in 1..n : ~good(k) THEN "failed"
     ELSE IF \E k \in 1..n : Cardinality({j \in 1..n : g[j].o = ws[k]}) # times(ws[k])
          THEN LET k == CHOOSE k \in 1..n : Cardinality({j \in 1..n : g[j].o = ws[k]}) # times(ws[k])
               IN "the word " \o ToString(ws[k]) \o " is not chosen by " \o ToString(times(ws[k])) \o " of " \o ToString(n) \o " values"
     ELSE IF \E k \in 1..n : g[k].ent.fin # 1 \/ ~Near(g[k].ent.m, g[k].ent.e, BFromInt(n)) THEN "the entropy should be " \o ToString(n)
     ELSE ""

(* Lists too large to be written out: word k is the prefix followed by k in
   decimal. kind "bigfile": some of the words that were read; "big": references
   were generated with different values of the draw, which must give different
   words of the list, with its size as the entropy.                          *)
RECURSIVE Dec(_)
Dec(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Dec(k \div 10), 48 + (k % 10))
RECURSIVE Undec(_)
Undec(s) == IF s = <<>> THEN 0 ELSE 10 * Undec(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
\* the number of a word, 0 if it is none of the list
Number(c, w) ==
  LET d == SubSeq(w, Len(c.prefix) + 1, Len(w))
      k == IF Len(d) \in 1..8 /\ \A j \in 1..Len(d) : d[j] \in 48..57 THEN Undec(d) ELSE 0
  IN IF k \in 1..c.n /\ w = c.prefix \o Dec(k) THEN k ELSE 0
JudgeBigFile(c) ==
  IF c.o.ret # 0 THEN "the file is refused"
  ELSE IF c.o.count # c.n \/ c.o.len # c.n THEN "there are " \o ToString(c.n) \o " words"
  ELSE IF \E j \in 1..Len(c.o.picks) : c.o.picks[j].w # c.prefix \o Dec(c.o.picks[j].k) THEN "the words differ" ELSE ""
JudgeBig(c) ==
  LET g == c.o.g
      nums == TLCEval([j \in 1..Len(g) |-> Number(c, g[j].o)])
  IN IF Len(g) # Len(c.vs) \/ Cardinality({c.vs[j] : j \in 1..Len(c.vs)}) # Len(c.vs) \/ \E j \in 1..Len(c.vs) : c.vs[j] >= c.n THEN "machinery: values"
     ELSE IF \E j \in 1..Len(g) : nums[j] = 0 THEN "not a word of the list"
     ELSE IF Cardinality({nums[j] : j \in 1..Len(g)}) # Len(g)
          THEN LET p == CHOOSE p \in (1..Len(g)) \X (1..Len(g)) : p[1] < p[2] /\ nums[p[1]] = nums[p[2]]
               IN "of " \o ToString(c.n) \o " words, the draws " \o ToString(c.vs[p[1]]) \o " and " \o ToString(c.vs[p[2]]) \o " give the same"
     ELSE IF \E j \in 1..Len(g) : g[j].ent.fin # 1 \/ ~Near(g[j].ent.m, g[j].ent.e, BFromInt(c.n)) THEN "the entropy should be " \o ToString(c.n)
     ELSE ""

Judge(c) ==
  CASE c.kind = "file" ->
         LET ws == Words(c.data)
         IN IF c.o.ret # 0 THEN "the file is refused"
            ELSE IF c.o.count # Len(ws) THEN "there are " \o ToString(Len(ws)) \o " words"
            ELSE IF c.o.words # ws THEN "the words differ: " \o ToString(ws)
            ELSE ""
    [] c.kind = "faulty" ->
         IF c.o.ret = 0 THEN "success claimed for a file that cannot be read" ELSE ""
    [] c.kind = "all" -> JudgeAll(c)
    [] c.kind = "bigfile" -> JudgeBigFile(c)
    [] c.kind = "big" -> JudgeBig(c)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
