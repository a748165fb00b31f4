------------------------------- MODULE T_Gen --------------------------------
(* Trace validation of generation. A case has a pattern (bytes), a stream of
   random bytes, an environment of wordlists, a depth limit, and a sequence of
   generations (modes) made one after the other from the same stream, with
   what was observed. check selects the aspect that is judged:
     exact    the choices follow the stream exactly (C02)
     lang     what is generated is in the language of the pattern (C01)
     entropy  the reported number is that of the choices (C03)
     bounds   receivers, buffers and failures (C12), depth (C13)
     long     many repetitions, the stream being all zeros (C12)
     json     the JSON form encodes the plain form (C14)
     same     the pattern is unchanged by generating (C24)                    *)
EXTENDS Pattern, Gen, GenObs, TLC, Json, IOUtils
L == INSTANCE Lang
J == INSTANCE Json8

Cases == ndJsonDeserialize(IOEnv.CASES)

EnvOf(c) == [k \in 1..Len(c.env) |->
  [name |-> c.env[k].name, level |-> c.env[k].level, bad |-> c.env[k].bad = 1, words |-> Words(c.env[k].data)]]

\* generations one after the other
RECURSIVE Each(_, _, _, _, _)
Each(c, ast, env, k, pos) ==
  IF k > Len(c.modes) THEN ""
  ELSE LET md == c.modes[k]
           o == c.o.g[k]
           r == Generate(ast, env, c.limit, [m |-> md.m, lim |-> md.lim], c.src, pos)
           why == CASE c.check = "exact" -> IF Follows(md, r.g, o) THEN "" ELSE "should be " \o Show(r.g)
                    [] c.check = "entropy" -> IF EntropyFits(md, r.g, o) THEN ""
                         ELSE "entropy should be " \o ToString(<<r.g.num, r.g.den>>) \o " digits base 256, " \o r.g.st
                    [] c.check = "bounds" ->
                         IF o.canary # 1 THEN "wrote outside of the buffer"
                         ELSE IF o.after # 0 THEN "the receiver was called again after it refused"
                         ELSE IF Follows(md, r.g, o) THEN "" ELSE "should be " \o Show(r.g)
       IN IF why # "" THEN "generation " \o ToString(k) \o ": " \o why ELSE Each(c, ast, env, k + 1, r.pos)

\* The pattern that was run is c.pat, which is one item, followed by the count
\* c.reps; the stream is zeros. Since every draw of it then gives the same, and
\* the draws are the only thing that could tell one repetition from another
\* (Gen: a repetition starts from nothing but the stream), what is generated is
\* what the item alone gives, c.reps times.
Units(m, unit) == IF m \in {"b", "j"} THEN EmitAll([out |-> <<>>, st |-> "go", why |-> "", rx |-> [m |-> m, lim |-> Huge]], unit, 1).out ELSE unit
Long(c, ast, env) ==
  LET unit == Generate(ast, env, c.limit, [m |-> "c", lim |-> -1], c.src, 1).g
      bad(k) ==
        LET md == c.modes[k]
            o == c.o.g[k]
            w == Units(md.m, unit.out)
            u == Len(w)
            total == c.reps * u
            n == IF md.lim < 0 \/ total <= md.lim THEN total ELSE IF Filling(md.m) THEN 0 ELSE md.lim
        IN \/ o.canary # 1 \/ o.after # 0
           \/ o.n # n \/ Len(o.o) # n
           \/ \E j \in 1..n : o.o[j] # w[((j - 1) % u) + 1]
           \/ IF Filling(md.m) \/ n = total THEN o.ret # 0 ELSE o.ret # md.ret
           \/ n = total /\ unit.num = unit.den /\ ~Near(o.ent.m, o.ent.e, <<1>>, <<1>>)
      S == {k \in 1..Len(c.modes) : bad(k)}
  IN IF unit.st # "ok" THEN "machinery: no unit"
     ELSE IF S = {} THEN "" ELSE "not " \o ToString(c.reps) \o " times the same, or not as the receiver allows: generation " \o ToString(CHOOSE k \in S : TRUE)

\* of the first generation only, whatever the stream was
InLang(c, ast, env) ==
  LET bad(k) == LET o == c.o.g[k]
                    cps == IF c.modes[k].m = "b" THEN DecodeAll(o.o).cps ELSE o.o
                IN IF Ok(c.modes[k], o)
                   THEN ~L!Member(ast, env, cps) \/ (c.modes[k].m = "b" /\ Encode(cps) # o.o)
                   ELSE ~Filling(c.modes[k].m) /\ ~(L!Risky(ast.segs, env) \/ ast.sum = <<>> \/ L!Nesting(ast.segs) > c.limit)
      S == {k \in 1..Len(c.modes) : bad(k)}
  IN IF S = {} THEN "" ELSE "not in the language: generation " \o ToString(CHOOSE k \in S : TRUE)

\* modes come in pairs of plain (callback) and JSON from the same random bytes,
\* observed in c.o.g (plain) and c.o2.g (JSON)
JsonSame(c) ==
  LET bad(k) == LET p == c.o.g[k]
                    j == c.o2.g[k]
                    d == J!JBody(j.o)
                IN IF j.n = 0 THEN p.ret = 0 /\ p.n > 0 /\ \A x \in 1..Len(p.o) : Scalar(p.o[x])
                   ELSE p.ret # 0 \/ ~d.ok \/ d.cps # p.o
      S == {k \in 1..Len(c.modes) : bad(k)}
  IN IF S = {} THEN "" ELSE "not the JSON form of the plain output: generation " \o ToString(CHOOSE k \in S : TRUE)

Judge(c) ==
  LET x == ParseBytes(c.pat)
      rejected == x.dec.r = "bad" \/ x.s.err # "none"
  IN IF rejected \/ c.o.parse # 0 THEN IF rejected /\ c.o.parse # 0 THEN "" ELSE IF c.check = "parse" THEN "wrong verdict" ELSE ""
     ELSE LET ast == PAst(x.s.p)
              env == EnvOf(c)
          IN CASE c.check \in {"exact", "entropy", "bounds"} -> Each(c, ast, env, 1, 1)
               [] c.check = "long" -> Long(c, ast, env)
               [] c.check = "lang" -> InLang(c, ast, env)
               [] c.check = "json" -> JsonSame(c)
               [] c.check = "same" -> IF c.o.ast2 = c.o.ast THEN "" ELSE "the pattern was changed"

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
