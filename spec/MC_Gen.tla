------------------------------- MODULE MC_Gen -------------------------------
(* Model checking of generation over every outcome of every draw, for the
   patterns of patterns.ndjson. Checked: each draw's values are partitioned
   among the choices in the documented proportions; what is generated is in
   the language; the entropy is the reciprocal of the probability of exactly
   the choices made; depth and receivers bound what they should. Completed
   behaviours are printed, to be replayed into the implementation.           *)
EXTENDS Pattern, Gen, TLC, Json, IOUtils, FiniteSets
L == INSTANCE Lang
CONSTANTS Report

Pats == ndJsonDeserialize(IOEnv.PATTERNS)
EnvOf(c) == [k \in 1..Len(c.env) |->
  [name |-> c.env[k].name, level |-> c.env[k].level, bad |-> c.env[k].bad = 1, words |-> Words(c.env[k].data)]]
Ast(k) == PAst(ParseBytes(Pats[k].pat).s.p)
Start(k) == Settle(GStart(Ast(k), EnvOf(Pats[k]), Pats[k].limit, [m |-> Pats[k].m, lim |-> Pats[k].lim]))

VARIABLES p, g, draws, pn, pd
vars == <<p, g, draws, pn, pd>>
Init == /\ p \in 1..Len(Pats)
        /\ ParseBytes(Pats[p].pat).s.err = "none"
        /\ g = Start(p) /\ draws = <<>> /\ pn = <<1>> /\ pd = <<1>>

Values(b) == {BFromInt(v) : v \in 0..BToInt(b) - 1}
\* what a value of the pending draw chooses
Choice(h, v) ==
  LET t == h.need.t
      f == GTop(h)
  IN CASE t = "seg" -> <<SegAt(h.grp[1].segs, 1, v)>>
       [] t = "mk" -> LET mk == f.wl[1] IN <<ChooseNext(mk.words, Occurs(mk.words, f.ctx, mk.level), BToInt(v))>>
       [] OTHER -> v
Share(h, v) == Cardinality({w \in Values(h.need.b) : Choice(h, w) = Choice(h, v)})

Draw1 == /\ g.st = "go"
         /\ \E v \in Values(g.need.b) :
              /\ g' = Settle(Apply(g, v))
              /\ draws' = Append(draws, <<IF g.need.t = "maybe" THEN 1 ELSE 8, BToInt(g.need.b), BToInt(v)>>)
              /\ pn' = BMul(pn, BFromInt(Share(g, v)))
              /\ pd' = BMul(pd, g.need.b)
         /\ UNCHANGED p
Next == Draw1
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* the documented weight of a choice
SegWeights == g.need.t = "seg" /\ g.st = "go" =>
  \A k \in 1..Len(g.grp[1].segs) :
    Cardinality({v \in Values(g.need.b) : Choice(g, v) = <<k>>}) = BToInt(g.grp[1].segs[k].m)
SetUniform == g.need.t = "set" /\ g.st = "go" =>
  LET rs == GTop(g).item[1].ranges
      listed(cp) == Cardinality({r \in 1..Len(rs) : cp \in rs[r][1]..rs[r][2]})
  IN \A r \in 1..Len(rs) : \A cp \in rs[r][1]..rs[r][2] :
       Cardinality({v \in Values(g.need.b) : Pick(rs, 1, BToInt(v)) = cp}) = listed(cp)
RepUniform == g.need.t = "rep" /\ g.st = "go" =>
  LET it == GTop(g).items[GTop(g).k]
  IN BToInt(g.need.b) = BToInt(it.max) - BToInt(it.min) + 1
WordUniform == g.need.t = "word" /\ g.st = "go" =>
  BToInt(g.need.b) = Len(Lookup(g.env, GTop(g).item[1].name).wl.words)
MkWeights == g.need.t = "mk" /\ g.st = "go" =>
  LET mk == GTop(g).wl[1]
      occ == Occurs(mk.words, GTop(g).ctx, mk.level)
  IN /\ Total(mk.words, occ) = BToInt(g.need.b)
     /\ \A cp \in Followers(mk.words, occ) :
          Cardinality({v \in Values(g.need.b) : Choice(g, v) = <<cp>>}) = Count(mk.words, occ, cp)
Partition == SegWeights /\ SetUniform /\ RepUniform /\ WordUniform /\ MkWeights

Entropy == BMul(g.num, pn) = BMul(g.den, pd)
InLanguage == g.st = "ok" => (g.rx.m \in {"c", "u"} => L!Member(Ast(p), g.env, g.out))
                          /\ (g.rx.m = "b" => L!Member(Ast(p), g.env, DecodeAll(g.out).cps))
NeverStuck == g.st = "fail" => g.why # "empty" \/ Ast(p).sum = <<>>
\* (a repetition that has come to its end lets go of its depth)
Depth == /\ g.depth <= g.limit
         /\ g.st = "ok" => g.depth = 0
         /\ (g.st = "fail" /\ g.why = "depth") => L!Nesting(Ast(p).segs) > g.limit
Receiver == g.rx.lim >= 0 => Len(g.out) <= g.rx.lim
Printed == (Report /\ g.st # "go") =>
  PrintT("@@beh " \o ToString(p) \o " | " \o ToString(draws) \o " | " \o ToString(g.out) \o " | " \o g.st \o " | "
         \o ToString(g.num) \o " | " \o ToString(g.den))
=============================================================================
