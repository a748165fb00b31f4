------------------------------- MODULE GenObs -------------------------------
(* What can be observed of a generation, and which state of Gen it shows. An
   observation o has ret (the result), n (what was delivered), o (the output),
   ent (the entropy, a binary fraction); md has m, lim, ret of the receiver.  *)
EXTENDS Integers, Sequences, BigNat, TLC

\* |m * 2^e - num/den| <= num/den * 2^-40
Near(m, e, num, den) ==
  LET md == BMul(m, den)
      a == IF e >= 0 THEN BShift(md, e) ELSE md
      b == IF e >= 0 THEN num ELSE BShift(num, -e)
      d == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)
  IN BLeq(BShift(d, 40), b)
BelowOne(m, e) == IF e >= 0 THEN m = <<>> ELSE BLess(m, BShift(<<1>>, -e))

RECURSIVE IsPrefix(_, _, _)
IsPrefix(a, b, k) == k > Len(a) \/ (k <= Len(b) /\ a[k] = b[k] /\ IsPrefix(a, b, k + 1))

Filling(m) == m \in {"u", "b", "j"}
Ok(md, o) == IF Filling(md.m) THEN o.n > 0 ELSE o.ret = 0

\* does the observation o show what the state g says?
Follows(md, g, o) ==
  IF g.st = "ok"
  THEN o.ret = 0 /\ o.n = Len(g.out) /\ o.o = g.out
  ELSE IF Filling(md.m) THEN o.n = 0
       ELSE /\ o.ret # 0
            /\ (g.why = "receiver" => o.ret = md.ret)
            /\ (IF g.why = "word" THEN IsPrefix(o.o, g.out, 1) ELSE o.o = g.out)
Show(g) == ToString([st |-> g.st, why |-> g.why, out |-> g.out])

EntropyFits(md, g, o) ==
  IF o.ent.fin = 2 THEN TRUE \* was not asked for
  ELSE IF g.st = "ok" THEN o.ent.fin = 1 /\ o.ent.neg = 0 /\ Near(o.ent.m, o.ent.e, g.num, g.den)
  ELSE Filling(md.m) => o.ent.fin = 1 /\ BelowOne(o.ent.m, o.ent.e)
=============================================================================
