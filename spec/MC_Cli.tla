------------------------------- MODULE MC_Cli -------------------------------
(* An option means the same in each of its forms, wherever operands stand, and
   clusters of flags are their flags one after the other: over all sequences of
   the settings below, the state an invocation ends up with does not depend on
   the way it is written.                                                     *)
EXTENDS Cli, TLC, FiniteSets
CONSTANTS MaxSettings

A(n) == [c |-> 97, v |-> <<48 + n>>]
Files == <<[p |-> <<119>>, d |-> <<97, 10, 98, 10>>, dir |-> 0]>>
Settings == {
  A(2), A(0),
  [c |-> 122, v |-> <<>>], [c |-> 101, v |-> <<>>], [c |-> 106, v |-> <<>>],
  [c |-> 77, v |-> <<50>>], [c |-> 68, v |-> <<51>>],
  [c |-> 112, v |-> <<117, 117, 105, 100>>],         \* -p uuid
  [c |-> 112, v |-> <<113>>],                        \* -p q
  [c |-> 80, v |-> <<113, 58, 120>>],                \* -P q:x
  [c |-> 80, v |-> <<113>>],                         \* -P q
  [c |-> 119, v |-> <<119, 58, 119>>],               \* -w w:w
  [c |-> 119, v |-> <<119, 58, 122>>],               \* -w w:z
  [c |-> 114, v |-> <<122, 101, 114, 111>>],         \* -r zero
  [c |-> 114, v |-> <<122>>],                        \* -r z
  [c |-> 109, v |-> <<109>>], [c |-> 100, v |-> <<45, 45>>], [c |-> 116, v |-> <<116>>],
  [c |-> 104, v |-> <<>>], [c |-> 118, v |-> <<>>], [c |-> 108, v |-> <<>>] }
IsArg(x) == Options[One(ShortOpt(x.c))].arg
Long(x) == <<45, 45>> \o Options[One(ShortOpt(x.c))].long
\* the shortest abbreviation
Abbrev(x) == LET l == Options[One(ShortOpt(x.c))].long
                 n == CHOOSE n \in 1..Len(l) : /\ (n = Len(l) \/ Cardinality(LongOpt(SubSeq(l, 1, n))) = 1)
                                               /\ \A m \in 1..n - 1 : Cardinality(LongOpt(SubSeq(l, 1, m))) > 1
             IN <<45, 45>> \o SubSeq(l, 1, n)
\* the forms of a setting, as arguments
Forms(x) == IF IsArg(x)
            THEN {<<<<45, x.c>>, x.v>>, <<Long(x), x.v>>, <<Long(x) \o <<61>> \o x.v>>, <<Abbrev(x), x.v>>, <<Abbrev(x) \o <<61>> \o x.v>>}
                 \cup (IF x.v = <<>> THEN {} ELSE {<<<<45, x.c>> \o x.v>>})
            ELSE {<<<<45, x.c>>>>, <<Long(x)>>, <<Abbrev(x)>>}
Canonical(x) == IF IsArg(x) THEN <<<<45, x.c>>, x.v>> ELSE <<<<45, x.c>>>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Run(argv) == Invoke(<<>>, <<>>, argv, Files)

VARIABLES xs, argv, op
\* xs: settings so far, argv: some way of writing them, op: the operands so far
Init == xs = <<>> /\ argv = <<>> /\ op = <<>>
AddSetting == /\ Len(xs) < MaxSettings
              /\ \E x \in Settings : \E f \in Forms(x) : xs' = Append(xs, x) /\ argv' = argv \o f /\ UNCHANGED op
\* flags can join the cluster before them
Cluster == /\ Len(xs) < MaxSettings /\ xs # <<>> /\ ~IsArg(xs[Len(xs)]) /\ argv # <<>>
           /\ Len(argv[Len(argv)]) >= 2 /\ argv[Len(argv)][1] = 45 /\ argv[Len(argv)][2] # 45
           /\ \E x \in Settings : /\ xs' = Append(xs, x)
                                  /\ argv' = [argv EXCEPT ![Len(argv)] = @ \o <<x.c>>] \o (IF IsArg(x) THEN <<x.v>> ELSE <<>>)
           /\ UNCHANGED op
Operand == /\ Len(op) < 1 /\ op' = Append(op, <<97>>) /\ argv' = Append(argv, <<97>>) /\ UNCHANGED xs
Next == AddSetting \/ Cluster \/ Operand
Spec == Init /\ [][Next]_<<xs, argv, op>>

Plain == Cat([k \in 1..Len(xs) |-> Canonical(xs[k])])
Same == LET r == Run(argv)
            q == Run(Plain \o op)
        IN r.exit = q.exit /\ r.show = q.show /\ (r.exit = -1 /\ r.show = "" => r = q)
\* a state goes on, shows something, or is refused with a documented status
Total == LET r == Run(argv) IN /\ r.exit \in {-1, 1, 5, 6, 7, 8}
                               /\ (r.exit = -1 /\ r.show = "") => r.pattern # <<>>
                               /\ r.exit # -1 => r.show = ""
Dashes == LET r == Run(argv \o <<<<45, 45>>>> \o <<<<45, 97>>>>)
          IN op = <<>> /\ Going(Opts(Configured(<<>>, <<>>, Files), argv, 1, 0, Files)) /\ r.preset = <<>> => r.exit = -1 /\ r.pattern = <<<<45, 97>>>>
\* the last of two settings of a kind decides
LastWins == Len(xs) >= 2 /\ xs[Len(xs)].c = 97 /\ Run(argv).exit = -1 /\ Run(argv).show = "" => Run(argv).amount = BToInt(BDec(xs[Len(xs)].v, 1, <<>>))
=============================================================================
