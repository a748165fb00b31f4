------------------------------- MODULE Owners ------------------------------
(* Who has to give back what the library takes (C25).

   Everything the library takes while it works for its caller - memory, open
   files - belongs to the handles the caller can close: sources, patterns,
   environments, wordlists, Markov chains, maps, stacks, arrays, errors. Handles
   that were used together (a pattern and the environment it was generated in, a
   source and the environment that draws from it) may keep things for each other,
   so they are put in one group. The promise: what is given back when the last
   handle of a group is closed is all that was taken for the group, no less and no
   more; and an opening that fails leaves nothing behind.

   A ledger L has  live  the handles that are open,
                   grp   for each handle the number of its group,
                   held  for each group what is held: [m, f], blocks and files,
                   next  the next group.
   Handles are strings such as "S1".                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LInit == [live |-> {}, grp |-> <<>>, held |-> <<>>]

Zero == [m |-> 0, f |-> 0]
Plus(a, b) == [m |-> a.m + b.m, f |-> a.f + b.f]
Minus(a, b) == [m |-> a.m - b.m, f |-> a.f - b.f]
RECURSIVE Sum(_, _)
Sum(held, gs) == IF gs = {} THEN Zero ELSE LET g == CHOOSE g \in gs: TRUE IN Plus(held[g], Sum(held, gs \ {g}))

(* A step: the handles it opens, uses and closes; given: the handles that now
   belong to another one and are not closed by themselves any more; d: what it
   took (or gave back, if negative); ok: whether it succeeded.                  *)
Role(opens, uses, closes, given) == [opens |-> opens, uses |-> uses, closes |-> closes, given |-> given]

LStep(L, r, ok, d) ==
  LET opened == IF ok THEN r.opens ELSE {}
      all == opened \cup r.uses \cup r.closes \cup r.given
      old == (r.uses \cup r.closes \cup r.given) \ opened
      gs == {L.grp[h]: h \in old}
      g == Len(L.held) + 1
      total == Plus(Sum(L.held, gs), d)
      grp == [h \in DOMAIN L.grp \cup all |-> IF h \in all \/ L.grp[h] \in gs THEN g ELSE L.grp[h]]
      live == (L.live \cup opened) \ (r.closes \cup r.given)
  IN [st |-> [live |-> live, grp |-> grp, held |-> [k \in 1..g |-> IF k = g THEN total ELSE IF k \in gs THEN Zero ELSE L.held[k]]],
      why |-> IF ~ok /\ r.opens # {} /\ d # Zero THEN "what failed has left something behind"
              ELSE IF total.m < 0 \/ total.f < 0 THEN "gave back what belongs to others"
              ELSE IF (\A h \in live: grp[h] # g) /\ total.m # 0 THEN ToString(total.m) \o " blocks of memory are lost"
              ELSE IF (\A h \in live: grp[h] # g) /\ total.f # 0 THEN ToString(total.f) \o " files are left open"
              ELSE ""]

(* The operations of the library, by the names the driver knows them by. *)
H(k, n) == k \o ToString(n)
RoleOf(o) ==
  CASE o.k \in {"S", "Q"} -> Role({H("S", o.h)}, {}, {}, {})
    [] o.k = "O" -> Role({H("O", o.h)}, {}, {}, {})
    [] o.k = "x" -> Role({}, {}, {H("S", o.h)}, {})
    [] o.k = "c" -> Role({}, {}, {H("O", o.h)}, {})
    [] o.k = "r" -> Role({}, {o.e}, {}, {})
    [] o.k \in {"P", "p"} -> Role({H("P", o.h)}, {}, {}, {})     \* also when it was rejected, see Opens
    [] o.k = "f" -> Role({}, {}, {H("P", o.h)}, {})
    [] o.k = "E" -> Role({H("E", o.h)}, {o.e}, {}, {})
    [] o.k = "T" -> Role({H("E", o.h)}, {}, {}, {o.e})
    [] o.k = "W" -> Role({}, {H("E", o.h)}, {}, {})
    [] o.k \in {"e", "t"} -> Role({}, {}, {H("E", o.h)}, {})
    [] o.k = "g" -> Role({}, {H("P", o.h), o.e}, {}, {})
    [] o.k = "L" -> Role({H("L", o.h)}, {}, {}, {})
    [] o.k \in {"l", "m"} -> Role({}, {H("L", o.h)}, {}, {})
    [] o.k = "k" -> Role({}, {}, {H("L", o.h)}, {})
    [] o.k = "M" -> Role({H("M", o.h)}, {}, {}, {})
    [] o.k = "a" -> Role({}, {H("M", o.h)}, {}, {})
    [] o.k = "z" -> Role({}, {}, {H("M", o.h)}, {})
    [] o.k = "H" -> Role({H("H", o.h)}, {}, {}, {})
    [] o.k \in {"i", "d", "y"} -> Role({}, {H("H", o.h)}, {}, {})
    [] o.k = "j" -> Role({}, {}, {H("H", o.h)}, {})
    [] o.k = "K" -> Role({H("K", o.h)}, {}, {}, {})
    [] o.k \in {"u", "o"} -> Role({}, {H("K", o.h)}, {}, {})
    [] o.k = "v" -> Role({}, {}, {H("K", o.h)}, {})
    [] o.k = "A" -> Role({H("A", o.h)}, {}, {}, {})
    [] o.k \in {"b", "n"} -> Role({}, {H("A", o.h)}, {}, {})
    [] o.k = "w" -> Role({}, {}, {H("A", o.h)}, {})
    [] o.k = "R" -> Role({H("R", o.h)}, {}, {}, {})
    [] o.k = "s" -> Role({}, {}, {H("R", o.h)}, {})
    [] OTHER -> Role({}, {}, {}, {})
(* A pattern that was rejected and a wordlist that cannot be read are there all the
   same, to be freed. *)
Opens(o, ok) == ok \/ o.k \in {"P", "p", "L"}

(* Contexts: a set of functions to be used in place of those of the system. q:
   what was asked for, at which place; a context counts how often each of its own
   functions was used.                                                          *)
Own(set, k) == (set \div (CASE k = "m" -> 1 [] k = "c" -> 2 [] k = "r" -> 4 [] k = "f" -> 8)) % 2 = 1
Weight(k) == CASE k = "m" -> 1 [] k = "c" -> 100 [] k = "r" -> 10000 [] k = "f" -> 1000000
CtxInit(set) == [set |-> set, n |-> 0, has |-> {}]
CtxStep(c, k, at) ==
  LET has == IF k = "f" THEN c.has \ {at} ELSE c.has \cup {at}
  IN [set |-> c.set, n |-> c.n + (IF Own(c.set, k) THEN Weight(k) ELSE 0), has |-> has]
CtxDelta(c, c2) == [m |-> Cardinality(c2.has) - Cardinality(c.has), f |-> 0]
=============================================================================
