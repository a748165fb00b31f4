----------------------------- MODULE MC_Owners -----------------------------
(* A library in which every single thing that is taken is named and has an owner,
   and which may forget to give things back. The ledger sees numbers only; it must
   object exactly when something was lost, by the time everything is closed.    *)
EXTENDS Owners
CONSTANTS Faulty, Steps
Srcs == {1, 2}
Names == {"a", "b"}
VARIABLES S, P, E,      \* open sources; patterns; the environment: its source and wordlists
          things,       \* what is held: [who, what]
          lost,         \* things that nobody will give back
          led, why, hist
vars == <<S, P, E, things, lost, led, why, hist>>

None == [up |-> FALSE, src |-> 0, owns |-> FALSE, lists |-> {}]
Init == S = {} /\ P = FALSE /\ E = None /\ things = {} /\ lost = {} /\ led = LInit /\ why = "" /\ hist = <<>>

Of(who) == {t \in things: t.who = who}
IsFile(t) == t.what = "file"
Count(ts) == [m |-> Cardinality(ts), f |-> Cardinality({t \in ts: IsFile(t)})]
(* goes: what should be given back; with a faulty library any one may be kept *)
Change(o, ok, takes, goes, moves) ==
  \E forgotten \in (IF Faulty /\ lost = {} THEN {{}} \cup {{t}: t \in goes} ELSE {{}}):
    LET d == Minus(Count(takes), Count(goes \ forgotten))
        x == LStep(led, RoleOf(o), Opens(o, ok), d)
    IN /\ things' = {IF t \in moves THEN [t EXCEPT !.who = H("E", 1)] ELSE t: t \in (things \ goes) \cup takes}
       /\ lost' = lost \cup forgotten
       /\ led' = x.st
       /\ why' = IF why # "" THEN why ELSE x.why
       /\ hist' = Append(hist, o)
Opn(k, h, e, n) == [k |-> k, h |-> h, e |-> e, n |-> n]
Op(k, h, e) == Opn(k, h, e, "")
Mine(who, whats) == {[who |-> who, what |-> w]: w \in whats}

OpenS(s) == s \notin S /\ ~(E.up /\ E.src = s) /\ S' = S \cup {s} /\ UNCHANGED <<P, E>> /\ Change(Op("S", s, ""), TRUE, Mine(H("S", s), {"handle", IF s = 1 THEN "state" ELSE "file"}), {}, {})
FailS(s) == s \notin S /\ ~(E.up /\ E.src = s) /\ UNCHANGED <<S, P, E>> /\ Change(Opn("S", s, "", "fail"), FALSE, {}, {}, {})
CloseS(s) == s \in S /\ ~(E.up /\ E.src = s) /\ S' = S \ {s} /\ UNCHANGED <<P, E>> /\ Change(Op("x", s, ""), TRUE, {}, Of(H("S", s)), {})
Parse(good) == ~P /\ P' = TRUE /\ UNCHANGED <<S, E>> /\ Change(Opn("P", 1, "", IF good THEN "" ELSE "fail"), good, Mine(H("P", 1), IF good THEN {"item", "name"} ELSE {"item"}), {}, {})
FreeP == P /\ P' = FALSE /\ UNCHANGED <<S, E>> /\ Change(Op("f", 1, ""), TRUE, {}, Of(H("P", 1)), {})
Env(s) == s \in S /\ ~E.up /\ E' = [None EXCEPT !.up = TRUE, !.src = s] /\ UNCHANGED <<S, P>> /\ Change(Op("E", 1, H("S", s)), TRUE, Mine(H("E", 1), {"table"}), {}, {})
Take(s) == s \in S /\ ~E.up /\ E' = [None EXCEPT !.up = TRUE, !.src = s, !.owns = TRUE] /\ S' = S \ {s} /\ UNCHANGED P /\ Change(Op("T", 1, H("S", s)), TRUE, Mine(H("E", 1), {"table"}), {}, Of(H("S", s)))
List(n) == {[who |-> H("E", 1), what |-> w \o n]: w \in {"key ", "list "}}
Loaded(n) == {[who |-> H("E", 1), what |-> w \o n]: w \in {"words ", "chain "}}
(* the file of a list is one for each name *)
File(n) == {[who |-> H("E", 1) , what |-> "file", of |-> n]}
Add(n) ==
  /\ E.up /\ E' = [E EXCEPT !.lists = @ \cup {n}] /\ UNCHANGED <<S, P>>
  /\ LET had == {t \in things: t \in List(n) \cup Loaded(n) \cup File(n)}
     IN \* what was there is given back, the new one is not loaded yet
        \E forgotten \in (IF Faulty /\ lost = {} THEN {{}} \cup {{t}: t \in had} ELSE {{}}):
          LET new == List(n) \cup File(n)
              d == Minus(Count(new), Count(had \ forgotten))
              x == LStep(led, RoleOf(Opn("W", 1, "", n)), TRUE, d)
          IN /\ things' = (things \ had) \cup new
             /\ lost' = lost \cup forgotten
             /\ led' = x.st /\ why' = (IF why # "" THEN why ELSE x.why) /\ hist' = Append(hist, Opn("W", 1, "", n))
Gen(n) ==
  /\ P /\ E.up /\ n \in E.lists /\ UNCHANGED <<S, P, E>>
  /\ IF File(n) \subseteq things THEN Change(Opn("g", 1, "E1", n), TRUE, Loaded(n), File(n), {}) ELSE Change(Opn("g", 1, "E1", n), TRUE, {}, {}, {})
FreeE == E.up /\ E' = None /\ UNCHANGED <<S, P>> /\ Change(Op(IF E.owns THEN "t" ELSE "e", 1, ""), TRUE, {}, Of(H("E", 1)), {})

Next == /\ Len(hist) < Steps
        /\ \/ \E s \in Srcs: OpenS(s) \/ FailS(s) \/ CloseS(s) \/ Env(s) \/ Take(s)
           \/ \E g \in BOOLEAN: Parse(g)
           \/ FreeP \/ FreeE \/ \E n \in Names: Add(n) \/ Gen(n)
Spec == Init /\ [][Next]_vars
Closed == S = {} /\ ~P /\ ~E.up

NothingLeft == Closed => things = {}
Sound == lost = {} => why = ""
Complete == Closed /\ lost # {} => why # ""
Emit == Closed /\ ~Faulty /\ Len(hist) = Steps => PrintT("@@hist " \o ToString([i \in 1..Len(hist) |-> <<hist[i].k, hist[i].h, hist[i].e, hist[i].n>>]))
NoHist == <<S, P, E, things, lost, led, why, Len(hist)>>
=============================================================================
