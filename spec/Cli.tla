-------------------------------- MODULE Cli ---------------------------------
(* The command line program up to generation: configuration file, then options
   one after the other, then what is to be generated. Strings are sequences of
   bytes. files: sequence of [p path, d data, dir].

   State of an invocation:
     exit   -1 while going on; otherwise the status with which it ends
     show   "" | "help" | "version" | "list"      (ends with status 0)
     abort  the source of randomness failed when it was opened
     noise  lines of diagnostics on standard output from the configuration     *)
EXTENDS Integers, Sequences, BigNat, Source, CliData, Wordlist
LOCAL SQ == INSTANCE SequencesExt

CInit == [exit |-> -1, show |-> "", abort |-> FALSE, noise |-> 0,
          amount |-> 1, null |-> FALSE, json |-> FALSE, entropy |-> FALSE, mlen |-> 3, limit |-> 1024,
          preset |-> <<>>, master |-> <<>>, domain |-> <<>>, token |-> <<>>, rnd |-> <<>>,
          presets |-> Builtin, env |-> <<>>, operands |-> <<>>, pattern |-> <<>>]
Stop(s, code) == [s EXCEPT !.exit = code]

RECURSIVE FindFile(_, _, _)
FindFile(files, path, k) == IF k = 0 THEN <<>> ELSE IF files[k].p = path THEN <<files[k]>> ELSE FindFile(files, path, k - 1)
File(files, path) == FindFile(files, path, Len(files))

\* --------------------------------------------------------------- definitions
\* a source: refused, or open, or failing at once because it is too short
SetRandom(s, desc, files) ==
  LET d == Describe(desc)
      f == IF d.ok /\ d.k = "file" THEN File(files, d.path) ELSE <<>>
  IN IF ~d.ok \/ (d.k = "file" /\ f = <<>>) THEN [ok |-> FALSE, s |-> [s EXCEPT !.rnd = <<>>]]
     ELSE IF d.k = "file" THEN [ok |-> TRUE, s |-> [s EXCEPT !.rnd = <<[k |-> "file", data |-> f[1].d]>>, !.abort = Len(f[1].d) < 1024]]
     ELSE [ok |-> TRUE, s |-> [s EXCEPT !.rnd = <<d>>]]
\* name:path
SetWordlist(s, v, files) ==
  LET i == FirstColon(v, 1)
      f == IF i > Len(v) THEN <<>> ELSE File(files, SubSeq(v, i + 1, Len(v)))
  IN IF f = <<>> THEN [ok |-> FALSE, s |-> s]
     ELSE [ok |-> TRUE, s |-> [s EXCEPT !.env = Append(@, [name |-> SubSeq(v, 1, i - 1), level |-> s.mlen, bad |-> f[1].dir = 1, words |-> Words(f[1].d)])]]
\* name:pattern
SetPreset(s, v) ==
  LET i == FirstColon(v, 1)
  IN IF i > Len(v) THEN [ok |-> FALSE, s |-> s]
     ELSE [ok |-> TRUE, s |-> [s EXCEPT !.presets = Append(@, <<SubSeq(v, 1, i - 1), SubSeq(v, i + 1, Len(v))>>)]]
RECURSIVE FindPreset(_, _, _)
FindPreset(ps, name, k) == IF k = 0 THEN <<>> ELSE IF ps[k][1] = name THEN <<ps[k][2]>> ELSE FindPreset(ps, name, k - 1)

\* -------------------------------------------------------------- configuration
Blank(c) == c = 32 \/ c = 9
RECURSIVE SkipBlank(_, _)
SkipBlank(b, i) == IF i <= Len(b) /\ Blank(b[i]) THEN SkipBlank(b, i + 1) ELSE i
From(b, i) == SubSeq(b, i, Len(b))
\* the value of a line that starts with the keyword, as <<v>>, or <<>>
Value(line, key) ==
  LET i == SkipBlank(line, 1)
      j == i + Len(key)
  IN IF ~Starts(From(line, i), key) THEN <<>>
     ELSE IF SkipBlank(line, j) = j THEN <<>> ELSE <<From(line, SkipBlank(line, j))>>
\* the name ends at a colon or at blanks, which then stand for one
RECURSIVE NameEnd(_, _)
NameEnd(b, i) == IF i > Len(b) \/ b[i] = 58 \/ Blank(b[i]) THEN i ELSE NameEnd(b, i + 1)
Named(v) == LET i == NameEnd(v, 1)
            IN IF i > Len(v) \/ v[i] = 58 THEN v ELSE SubSeq(v, 1, i - 1) \o <<58>> \o From(v, SkipBlank(v, i))
ConfLine(s, line, files) ==
  LET r == Value(line, K_random)
      w == Value(line, K_wordlist)
      p == Value(line, K_preset)
      x == IF r # <<>> THEN SetRandom(s, r[1], files) ELSE IF p # <<>> THEN SetPreset(s, Named(p[1])) ELSE [ok |-> TRUE, s |-> s]
  IN IF w # <<>> THEN SetWordlist(s, Named(w[1]), files).s
     ELSE IF x.ok THEN x.s ELSE [x.s EXCEPT !.noise = @ + 1]
\* the file ends at a zero byte; its lines are between newlines
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Config(s0, b, files) ==
  LET nul == {i \in 1..Len(b) : b[i] = 0}
      n == IF nul = {} THEN Len(b) ELSE MinOf(nul) - 1
      nl == SQ!SetToSortSeq({i \in 1..n : b[i] = 10} \cup {0, n + 1}, LAMBDA x, y : x < y)
      step(s, k) == IF s.abort THEN s ELSE ConfLine(s, SubSeq(b, nl[k] + 1, nl[k + 1] - 1), files)
  IN SQ!FoldLeft(step, s0, [k \in 1..Len(nl) - 1 |-> k])
\* xdg, home: <<dir>> or <<>>
ConfFile(xdg, home, files) ==
  IF xdg # <<>> THEN File(files, xdg[1] \o ConfName)
  ELSE IF home # <<>> THEN File(files, home[1] \o ConfDir) ELSE <<>>
\* the system's file comes first, then the user's on top of it
\* (the harness has the program find /etc/passgen.conf as sysconf/passgen.conf)
SysConf == <<115, 121, 115, 99, 111, 110, 102>> \o ConfName
WithFile(s, f, files) == IF s.abort \/ f = <<>> THEN s ELSE Config(s, f[1].d, files)
Configured(xdg, home, files) ==
  WithFile(WithFile(CInit, File(files, SysConf), files), ConfFile(xdg, home, files), files)

\* -------------------------------------------------------------------- options
Sign(b) == IF b # <<>> /\ b[1] \in {43, 45} THEN 1 ELSE 0
\* a number from 1 to max, or 0 if it is none
Number(b, max) ==
  LET d == From(b, 1 + Sign(b))
      v == BDec(d, 1, <<>>)
  IN IF ~Digits(d) \/ v = <<>> \/ (Sign(b) = 1 /\ b[1] = 45) \/ ~BSmall(v) \/ BToInt(v) > max THEN 0 ELSE BToInt(v)

Apply1(s, c, v, files) ==
  LET needs(r, code) == IF r.ok THEN r.s ELSE Stop(r.s, code)
  IN CASE c = 97 -> IF Number(v, 2147483647) = 0 THEN Stop(s, 5) ELSE [s EXCEPT !.amount = Number(v, 2147483647)]
       [] c = 77 -> IF Number(v, 255) = 0 THEN Stop(s, 6) ELSE [s EXCEPT !.mlen = Number(v, 255)]
       [] c = 68 -> [s EXCEPT !.limit = Number(v, 2147483647)]
       [] c = 104 -> [s EXCEPT !.show = "help"]
       [] c = 118 -> [s EXCEPT !.show = "version"]
       [] c = 108 -> [s EXCEPT !.show = "list"]
       [] c = 122 -> [s EXCEPT !.null = TRUE]
       [] c = 101 -> [s EXCEPT !.entropy = TRUE]
       [] c = 106 -> [s EXCEPT !.json = TRUE]
       [] c = 112 -> [s EXCEPT !.preset = <<v>>]
       [] c = 109 -> [s EXCEPT !.master = <<v>>]
       [] c = 100 -> [s EXCEPT !.domain = <<v>>]
       [] c = 116 -> [s EXCEPT !.token = <<v>>]
       [] c = 119 -> needs(SetWordlist(s, v, files), 1)
       [] c = 80 -> needs(SetPreset(s, v), 1)
       [] c = 114 -> needs(SetRandom(s, v, files), 1)

Going(s) == s.exit = -1 /\ s.show = "" /\ ~s.abort
ShortOpt(c) == {k \in 1..Len(Options) : Options[k].c = c}
\* exactly named, or the only one that starts so
LongOpt(n) == LET exact == {k \in 1..Len(Options) : Options[k].long = n}
              IN IF exact # {} THEN exact ELSE {k \in 1..Len(Options) : Starts(Options[k].long, n)}
RECURSIVE FirstEq(_, _)
FirstEq(b, i) == IF i > Len(b) \/ b[i] = 61 THEN i ELSE FirstEq(b, i + 1)
One(S) == CHOOSE k \in S : TRUE

RECURSIVE Opts(_, _, _, _, _)
(* argument a of argv, from position j in a cluster of short options *)
Opts(s, argv, a, j, files) ==
  IF ~Going(s) \/ a > Len(argv) THEN s
  ELSE LET w == argv[a]
  IN IF j > 0 THEN
       IF j > Len(w) THEN Opts(s, argv, a + 1, 0, files)
       ELSE LET S == ShortOpt(w[j])
            IN IF S = {} THEN Stop(s, 7)
               ELSE IF ~Options[One(S)].arg THEN Opts(Apply1(s, w[j], <<>>, files), argv, a, j + 1, files)
               ELSE IF j < Len(w) THEN Opts(Apply1(s, w[j], From(w, j + 1), files), argv, a + 1, 0, files)
               ELSE IF a = Len(argv) THEN Stop(s, 7)
               ELSE Opts(Apply1(s, w[j], argv[a + 1], files), argv, a + 2, 0, files)
     ELSE IF w = <<45, 45>> THEN [s EXCEPT !.operands = @ \o SubSeq(argv, a + 1, Len(argv))]
     ELSE IF Len(w) > 2 /\ w[1] = 45 /\ w[2] = 45 THEN
       LET e == FirstEq(w, 3)
           S == LongOpt(SubSeq(w, 3, e - 1))
           has == e <= Len(w)
       IN IF \A k \in S : \E l \in S : k # l THEN Stop(s, 7) \* none or several
          ELSE LET o == Options[One(S)]
               IN IF ~o.arg THEN IF has THEN Stop(s, 7) ELSE Opts(Apply1(s, o.c, <<>>, files), argv, a + 1, 0, files)
                  ELSE IF has THEN Opts(Apply1(s, o.c, From(w, e + 1), files), argv, a + 1, 0, files)
                  ELSE IF a = Len(argv) THEN Stop(s, 7)
                  ELSE Opts(Apply1(s, o.c, argv[a + 1], files), argv, a + 2, 0, files)
     ELSE IF Len(w) > 1 /\ w[1] = 45 THEN Opts(s, argv, a, 2, files)
     ELSE Opts([s EXCEPT !.operands = Append(@, w)], argv, a + 1, 0, files)

\* what is to be generated
Decide(s) ==
  IF ~Going(s) THEN s
  ELSE LET p == IF s.preset = <<>> THEN <<>> ELSE FindPreset(s.presets, s.preset[1], Len(s.presets))
       IN IF s.preset # <<>> /\ p = <<>> THEN Stop(s, 8)
          ELSE IF Len(p) + Len(s.operands) > 1 THEN Stop(s, 1)
          ELSE IF p = <<>> /\ s.operands = <<>> THEN [s EXCEPT !.show = "help"]
          ELSE [s EXCEPT !.pattern = p \o s.operands]
Invoke(xdg, home, argv, files) == Decide(Opts(Configured(xdg, home, files), argv, 1, 0, files))
=============================================================================
