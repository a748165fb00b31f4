------------------------------- MODULE Markov -------------------------------
(* n-gram statistics of a wordlist. words: sequences of nonzero codepoints with
   weights. The context of a continuation is the last n codepoints (zero where
   there are fewer), the continuation is a codepoint or 0, the end.          *)
EXTENDS Integers, Sequences, FiniteSets

\* the codepoint at position i of a word padded with zeroes on both sides
PadAt(w, i) == IF i < 1 \/ i > Len(w) THEN 0 ELSE w[i]
ContextAt(w, i, n) == [k \in 1..n |-> PadAt(w, i - n + k - 1)]

Positions(words) == {<<a, i>> \in UNION {{a} \X (1..Len(words[a].cps) + 1) : a \in 1..Len(words)} : TRUE}
\* where the context occurs
Occurs(words, ctx, n) == {p \in Positions(words) : ContextAt(words[p[1]].cps, p[2], n) = ctx}
Followers(words, occ) == {PadAt(words[p[1]].cps, p[2]) : p \in occ}
RECURSIVE Weights(_, _)
Weights(words, ps) == IF ps = {} THEN 0
                      ELSE LET p == CHOOSE q \in ps : TRUE IN words[p[1]].w + Weights(words, ps \ {p})
\* how often cp follows
Count(words, occ, cp) == Weights(words, {p \in occ : PadAt(words[p[1]].cps, p[2]) = cp})
Total(words, occ) == Weights(words, occ)

(* The order in which continuations are laid out over the values of a draw:
   by bucket in a table of the smallest size of the list below in which all
   continuations have a bucket of their own.                                 *)
Sizes == <<3, 7, 17, 37, 79, 163, 331, 673, 1361, 2729, 5471, 10949, 21911, 43853, 87719, 175447, 350899, 701819, 1403641,
           2807303, 5614657, 11229331, 22458671, 44917381>>
Separate(S, c) == Cardinality({x % c : x \in S}) = Cardinality(S)
TableSize(S) == LET RECURSIVE First(_)
                    First(k) == IF Separate(S, Sizes[k]) THEN Sizes[k] ELSE First(k + 1)
                IN First(1)
\* the continuation chosen by value v, an Int below the total
ChooseNext(words, occ, v) ==
  LET S == Followers(words, occ)
      c == TableSize(S)
      before(x) == Weights(words, {p \in occ : (PadAt(words[p[1]].cps, p[2]) % c) < (x % c)})
  IN CHOOSE x \in S : before(x) <= v /\ v < before(x) + Count(words, occ, x)
=============================================================================
