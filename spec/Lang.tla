-------------------------------- MODULE Lang --------------------------------
(* The language of a pattern, without any reference to how it is generated:
   Ends(x, s, I) are the positions at which a match of x that starts at one of
   the positions I of s can end.                                             *)
EXTENDS Integers, Sequences, BigNat, Utf8, Wordlist, Markov

LOCAL At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

RECURSIVE LFind(_, _, _)
LFind(env, name, k) == IF k = 0 THEN <<>> ELSE IF env[k].name = name THEN <<env[k]>> ELSE LFind(env, name, k - 1)
LWords(env, name) == LET r == LFind(env, name, Len(env))
                     IN IF r = <<>> THEN <<>> ELSE IF r[1].bad THEN <<>> ELSE r[1].words

Prefix(w, s, i) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[i + k - 1] = w[k]

\* a markov word from i: every step follows its context somewhere in the list
RECURSIVE MkEnds(_, _, _, _, _)
MkEnds(ws, n, s, i, j) == \* characters i..j-1 are read
  LET ctx == [k \in 1..n |-> IF j - n + k - 1 < i THEN 0 ELSE s[j - n + k - 1]]
      follows(c) == \E a \in 1..Len(ws) : \E p \in 1..Len(ws[a]) + 1 :
                      (IF p > Len(ws[a]) THEN 0 ELSE ws[a][p]) = c /\
                      \A k \in 1..n : (IF p - n + k - 1 < 1 THEN 0 ELSE ws[a][p - n + k - 1]) = ctx[k]
  IN (IF follows(0) THEN {j} ELSE {})
     \cup (IF j <= Len(s) /\ s[j] # 0 /\ follows(s[j]) THEN MkEnds(ws, n, s, i, j + 1) ELSE {})

RECURSIVE EndsSegs(_, _, _, _), EndsItems(_, _, _, _, _), EndsOnce(_, _, _, _), EndsReps(_, _, _, _, _, _)
EndsOnce(it, env, s, I) ==
  CASE it.k = "lit" -> {i + 1 : i \in {i \in I : At(s, i) = it.cp}}
    [] it.k = "set" -> IF it.ranges = <<>> THEN I
                       ELSE {i + 1 : i \in {i \in I : \E r \in 1..Len(it.ranges) : At(s, i) \in it.ranges[r][1]..it.ranges[r][2]}}
    [] it.k = "grp" -> EndsSegs(it.segs, env, s, I)
    [] it.k = "p" -> I
    [] it.k = "w" -> LET ws == LWords(env, it.name)
                         dec == {DecodeAll(ws[k]) : k \in 1..Len(ws)}
                     IN UNION {{i + Len(d.cps) : i \in {i \in I : Prefix(d.cps, s, i)}} : d \in {d \in dec : d.r = "ok"}}
    [] it.k = "m" -> LET r == LFind(env, it.name, Len(env))
                         ws == LWords(env, it.name)
                         dec == [k \in 1..Len(ws) |-> DecodeAll(ws[k]).cps]
                     IN UNION {MkEnds(dec, r[1].level, s, i, i) : i \in I}
\* exactly n more repetitions, up to m; stops early when nothing changes
EndsReps(it, env, s, I, n, m) ==
  IF I = {} \/ m = <<>> THEN IF n = <<>> THEN I ELSE {}
  ELSE LET J == EndsOnce(it, env, s, I)
           n1 == IF n = <<>> THEN n ELSE BSub(n, <<1>>)
           rest == IF J = I THEN J ELSE EndsReps(it, env, s, J, n1, BSub(m, <<1>>))
       IN IF n = <<>> THEN I \cup rest ELSE rest
EndsItems(items, k, env, s, I) ==
  IF k > Len(items) \/ I = {} THEN I
  ELSE LET it == items[k]
           J == EndsReps(it, env, s, I, it.min, it.max)
       IN EndsItems(items, k + 1, env, s, IF it.maybe = 1 THEN I \cup J ELSE J)
EndsSegs(segs, env, s, I) == UNION {EndsItems(segs[k].items, 1, env, s, I) : k \in {k \in 1..Len(segs) : segs[k].m # <<>>}}

Member(ast, env, s) == (Len(s) + 1) \in EndsSegs(ast.segs, env, s, {1})

\* is there any reason for which generation may fail?
RECURSIVE Risky(_, _)
RiskyItem(it, env) ==
  \/ it.k \in {"w", "m"} /\ LET ws == LWords(env, it.name)
                            IN ws = <<>> \/ \E k \in 1..Len(ws) : DecodeAll(ws[k]).r # "ok"
  \/ it.k = "grp" /\ Risky(it.segs, env)
Risky(segs, env) == \E k \in 1..Len(segs) : \E j \in 1..Len(segs[k].items) : RiskyItem(segs[k].items[j], env)

RECURSIVE Nesting(_)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Nesting(segs) == 1 + MaxOf({Nesting(segs[k].items[j].segs) :
   <<k, j>> \in {<<k, j>> \in UNION {{k} \X (1..Len(segs[k].items)) : k \in 1..Len(segs)} : segs[k].items[j].k = "grp"}})
=============================================================================
