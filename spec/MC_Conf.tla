------------------------------- MODULE MC_Conf ------------------------------
(* Configuration files, over all sequences of the lines below: the state they
   leave is the one the options they stand for leave, one after the other;
   lines that define nothing change nothing; a final newline makes no
   difference; options come after the file and so override it.                *)
EXTENDS Cli, TLC
CONSTANTS MaxLines
Files == <<[p |-> <<119>>, d |-> <<97, 10, 98, 10>>, dir |-> 0]>>
SP == <<32>>
TAB == <<9>>
\* text of a line, and the option it stands for (c = 0: none)
Lines0 == <<
  [t |-> K_random \o SP \o <<122, 101, 114, 111>>, c |-> 114, v |-> <<122, 101, 114, 111>>],
  [t |-> SP \o K_random \o TAB \o SP \o <<120, 111, 114, 115, 104, 105, 102, 116, 58, 53>>, c |-> 114, v |-> <<120, 111, 114, 115, 104, 105, 102, 116, 58, 53>>],
  [t |-> K_random \o SP \o <<122>>, c |-> 114, v |-> <<122>>],
  [t |-> K_preset \o SP \o <<113>> \o SP \o <<120, 32, 121>>, c |-> 80, v |-> <<113, 58, 120, 32, 121>>],
  [t |-> TAB \o K_preset \o TAB \o <<113, 58, 120>>, c |-> 80, v |-> <<113, 58, 120>>],
  [t |-> K_preset \o SP \o <<117, 117, 105, 100>> \o TAB \o TAB \o <<120, 58>>, c |-> 80, v |-> <<117, 117, 105, 100, 58, 120, 58>>],
  [t |-> K_wordlist \o SP \o <<119, 58, 119>>, c |-> 119, v |-> <<119, 58, 119>>],
  [t |-> K_wordlist \o SP \o <<118, 32, 119>>, c |-> 119, v |-> <<118, 58, 119>>],
  [t |-> K_wordlist \o SP \o <<118, 32, 122>>, c |-> 119, v |-> <<118, 58, 122>>],
  [t |-> <<>>, c |-> 0, v |-> <<>>], [t |-> SP, c |-> 0, v |-> <<>>],
  [t |-> <<35>> \o K_random \o SP \o <<122>>, c |-> 0, v |-> <<>>],
  [t |-> K_random, c |-> 0, v |-> <<>>],
  [t |-> K_random \o <<122, 101, 114, 111>>, c |-> 0, v |-> <<>>],
  [t |-> <<120>> \o SP \o K_preset \o SP \o <<113, 58, 122>>, c |-> 0, v |-> <<>>],
  [t |-> K_preset \o <<115>> \o SP \o <<113, 58, 122>>, c |-> 0, v |-> <<>>] >>
VARIABLES ls
Init == ls = <<>>
Next == Len(ls) < MaxLines /\ \E k \in 1..Len(Lines0) : ls' = Append(ls, k)
Spec == Init /\ [][Next]_ls
RECURSIVE Text(_), AsOptions(_, _, _)
Text(q) == IF q = <<>> THEN <<>> ELSE Lines0[Head(q)].t \o (IF Len(q) = 1 THEN <<>> ELSE <<10>>) \o Text(Tail(q))
AsOptions(s, q, k) == IF k > Len(q) THEN s
                      ELSE LET l == Lines0[q[k]]
                               r == IF l.c = 0 THEN s ELSE Apply1(s, l.c, l.v, Files)
                           IN AsOptions([r EXCEPT !.exit = -1], q, k + 1)
\* what counts, leaving the diagnostics aside
Meaning(s) == [s EXCEPT !.noise = 0]
AsLines == Meaning(Config(CInit, Text(ls), Files)) = AsOptions(CInit, ls, 1)
FinalNewline == Config(CInit, Text(ls), Files) = Config(CInit, Text(ls) \o <<10>>, Files)
Cut == Config(CInit, Text(ls), Files) = Config(CInit, Text(ls) \o <<0>> \o Lines0[3].t, Files)
\* the system's file and the user's count as one, in this order
Home == <<104>>
Both == \A k \in 0..Len(ls) :
  LET file(p, q) == <<[p |-> p, d |-> Text(q), dir |-> 0]>>
      all == Files \o file(SysConf, SubSeq(ls, 1, k)) \o file(Home \o ConfDir, SubSeq(ls, k + 1, Len(ls)))
  IN /\ Configured(<<>>, <<Home>>, all) = Config(CInit, Text(ls), Files)
     /\ Configured(<<>>, <<>>, all) = Config(CInit, Text(SubSeq(ls, 1, k)), Files)
     /\ Configured(<<Home>>, <<Home>>, all) = Config(CInit, Text(SubSeq(ls, 1, k)), Files)
Override == LET s == Apply1(Config(CInit, Text(ls), Files), 80, <<113, 58, 111>>, Files)
                r == Apply1(s, 114, <<122, 101, 114, 111>>, Files)
            IN FindPreset(s.presets, <<113>>, Len(s.presets)) = <<<<111>>>> /\ r.rnd = <<Describe(<<122, 101, 114, 111>>)>>
=============================================================================
