------------------------------- MODULE T_Cli --------------------------------
(* Trace validation of whole invocations of the program: arguments, files and
   environment against standard output, standard error and exit status. check:
     all      everything (C19, C20)
     entropy  the numbers reported (C03)     json   the document (C14)
     master   output for a passphrase (C10)  short  sources that run out (C11) *)
EXTENDS Pattern, Gen, Cli, Argon2, TLC, Json, IOUtils, FiniteSets
J == INSTANCE Json8
L == INSTANCE Lang

Cases == ndJsonDeserialize(IOEnv.CASES)

\* --------------------------------------------------------------- randomness
Opt(x) == IF x = <<>> THEN <<>> ELSE x[1]
SourceOf(s) ==
  IF s.rnd # <<>> THEN
    LET d == s.rnd[1]
    IN CASE d.k = "file" -> [k |-> "bytes", data |-> d.data]
         [] d.k = "argon2" -> [k |-> "chacha", key |-> DeriveKey(d.pass, d.domain, d.token), iv |-> Padded(Passgen, 8)]
         [] OTHER -> d
  ELSE IF s.master # <<>> THEN [k |-> "chacha", key |-> DeriveKey(s.master[1], Opt(s.domain), Opt(s.token)), iv |-> Padded(Passgen, 8)]
  ELSE [k |-> "system"]

\* generations one after the other, until all are made or one fails
RECURSIVE Gens(_, _, _, _, _, _)
Gens(s, ast, src, n, pos, acc) ==
  IF n = 0 THEN [gs |-> acc, pos |-> pos]
  ELSE LET r == Generate(ast, s.env, s.limit, [m |-> IF s.json THEN "j" ELSE "b", lim |-> 256], src, pos)
       IN IF r.g.st = "ok" THEN Gens(s, ast, src, n - 1, r.pos, Append(acc, r.g))
          ELSE [gs |-> Append(acc, r.g), pos |-> r.pos]
\* with as much of the stream as is needed
RECURSIVE Drawn(_, _, _, _)
Drawn(s, ast, source, n) ==
  LET src == IF source.k = "bytes" THEN source.data ELSE TLCEval(Range(source, <<>>, n))
      r == Gens(s, ast, src, s.amount, 1, <<>>)
  IN IF source.k # "bytes" /\ source.k # "zero" /\ r.pos > n + 1 THEN Drawn(s, ast, source, 4 * n) ELSE r

\* ----------------------------------------------------------- standard output
RECURSIVE DropLines(_, _, _)
DropLines(b, i, n) == IF n = 0 THEN From(b, i)
                      ELSE IF i > Len(b) THEN <<256>> ELSE DropLines(b, i + 1, IF b[i] = 10 THEN n - 1 ELSE n)
Sep(s) == IF s.null THEN <<0>> ELSE <<10>>
RECURSIVE Plain(_, _, _)
Plain(gs, sep, k) == IF k > Len(gs) THEN <<>> ELSE gs[k].out \o (IF k = Len(gs) THEN <<>> ELSE sep) \o Plain(gs, sep, k + 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

NameOutput == <<111, 117, 116, 112, 117, 116>>
NameEntropy == <<101, 110, 116, 114, 111, 112, 121>>
JMember(m, name) == SelectSeq(m, LAMBDA x : x.name = name)

\* ------------------------------------------------------------------ entropy
(* log2(num/den) in 4096ths, rounded down: the integer part, then twelve
   times the square of the rest, kept to 7 digits base 256                    *)
BLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + (CHOOSE k \in 1..8 : 2 ^ (k - 1) <= a[Len(a)] /\ a[Len(a)] < 2 ^ k)
High(a, n) == IF Len(a) <= n THEN a ELSE SubSeq(a, Len(a) - n + 1, Len(a))
\* x = v / 2^e with 1 <= x < 2: next bit of the logarithm
RECURSIVE LogBits(_, _, _)
LogBits(v, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET sq == BMul(v, v)
           one == BLen(sq) = 2 * BLen(v)        \* the square is at least 2
       IN LogBits(High(sq, 8), k - 1, 2 * acc + (IF one THEN 1 ELSE 0))
RECURSIVE IntLog(_, _, _)
IntLog(num, den, k) == IF BLess(num, BShift(den, k + 1)) THEN k ELSE IntLog(num, den, k + 1)
RECURSIVE DivBits(_, _, _, _)
\* floor(num / den * 2^k) bit by bit, for 1 <= num/den < 2
DivBits(rem, den, k, acc) ==
  LET ge == BLeq(den, rem)
      r == IF ge THEN BSub(rem, den) ELSE rem
      q == BAdd(BScale(acc, 2), IF ge THEN <<1>> ELSE <<>>)
  IN IF k = 0 THEN q ELSE DivBits(BScale(r, 2), den, k - 1, q)
Log2(num, den) ==
  LET guess == BMax2(0, BLen(num) - BLen(den) - 1)
      ip == IntLog(num, den, guess)
      m == DivBits(num, BShift(den, ip), 55, <<>>)
  IN ip * 4096 + LogBits(m, 12, 0)

(* A printed decimal in 4096ths. Only four digits of the fraction count.       *)
RECURSIVE Dec(_, _, _)
Dec(b, i, acc) == IF i > Len(b) THEN acc ELSE Dec(b, i + 1, acc * 10 + (b[i] - 48))
RECURSIVE Dot(_, _)
Dot(b, i) == IF i > Len(b) \/ b[i] = 46 THEN i ELSE Dot(b, i + 1)
IsDecimal(b) == LET d == Dot(b, 1) IN d > 1 /\ d <= 6 /\ d < Len(b) /\ \A i \in 1..Len(b) : i = d \/ b[i] \in 48..57
ToFix(b) ==
  LET d == Dot(b, 1)
      f == SubSeq(From(b, d + 1) \o <<48, 48, 48, 48>>, 1, 4)
  IN Dec(SubSeq(b, 1, d - 1), 1, 0) * 4096 + ((Dec(f, 1, 0) * 4096) \div 10000)
\* digits: how many are printed
Fits(b, num, den, digits) ==
  /\ IsDecimal(b) /\ Len(b) = Dot(b, 1) + digits
  /\ LET x == ToFix(b)
         y == Log2(num, den)
         tol == IF digits = 2 THEN 23 ELSE 3
     IN x - y <= tol /\ y - x <= tol
\* lines "entropy: <number> bits"
EPre == <<101, 110, 116, 114, 111, 112, 121, 58, 32>>
ESuf == <<32, 98, 105, 116, 115>>
RECURSIVE SplitLines(_, _, _)
SplitLines(b, i, cur) == IF i > Len(b) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                         ELSE IF b[i] = 10 THEN <<cur>> \o SplitLines(b, i + 1, <<>>) ELSE SplitLines(b, i + 1, Append(cur, b[i]))
ELines(err) == SelectSeq(SplitLines(err, 1, <<>>), LAMBDA l : Starts(l, EPre))
ENumber(l) == SubSeq(l, Len(EPre) + 1, Len(l) - Len(ESuf))
EntropyOut(s, gs, err) ==
  LET ls == ELines(err)
      n == Len(gs)
  IN IF ~s.entropy \/ s.json THEN IF ls = <<>> THEN "" ELSE "entropy is printed although it was not asked for"
     ELSE IF Len(ls) # n THEN "entropy should be printed " \o ToString(n) \o " times"
     ELSE LET bad == {k \in 1..n : Len(ls[k]) <= Len(EPre) + Len(ESuf) \/ SubSeq(ls[k], Len(ls[k]) - Len(ESuf) + 1, Len(ls[k])) # ESuf
                                    \/ ~Fits(ENumber(ls[k]), gs[k].num, gs[k].den, 2)}
          IN IF bad = {} THEN "" ELSE LET k == CHOOSE k \in bad : TRUE
               IN "entropy " \o ToString(k) \o " should be about " \o ToString(Log2(gs[k].num, gs[k].den)) \o "/4096"

\* the document: one object for each
JsonOut(s, gs, out) ==
  LET d == IF out # <<>> /\ out[Len(out)] = 10 THEN J!JDoc(SubSeq(out, 1, Len(out) - 1)) ELSE [ok |-> FALSE, a |-> <<>>]
      n == Len(gs)
      good(k) == LET m == d.a[k]
                     o == JMember(m, NameOutput)
                     e == JMember(m, NameEntropy)
                 IN /\ Len(o) = 1 /\ o[1].str /\ o[1].cps = J!JBody(gs[k].out).cps
                    /\ Len(m) = 1 + Len(e)
                    /\ IF s.entropy THEN Len(e) = 1 /\ ~e[1].str /\ Fits(e[1].num, gs[k].num, gs[k].den, 6) ELSE e = <<>>
  IN IF ~d.ok THEN "not a JSON array of objects"
     ELSE IF Len(d.a) # n THEN "there should be " \o ToString(n) \o " objects"
     ELSE LET bad == {k \in 1..n : ~good(k)}
          IN IF bad = {} THEN "" ELSE "object " \o ToString(CHOOSE k \in bad : TRUE) \o " is not what was generated"

\* --------------------------------------------------------- unpredictable ones
\* sequences of a source that cannot be known: framing and language only
RECURSIVE SplitAt(_, _, _, _)
SplitAt(b, sep, i, cur) == IF i > Len(b) THEN <<cur>>
                           ELSE IF b[i] = sep THEN <<cur>> \o SplitAt(b, sep, i + 1, <<>>) ELSE SplitAt(b, sep, i + 1, Append(cur, b[i]))
\* the sequences themselves may contain what separates them: x[i..] can be
\* put together to n sequences of the pattern
RECURSIVE Joined(_, _, _, _)
Joined(x, sep, i, j) == IF i = j THEN x[i] ELSE x[i] \o <<sep>> \o Joined(x, sep, i + 1, j)
RECURSIVE Groups(_, _, _, _, _, _)
Groups(s, ast, x, sep, i, n) ==
  IF n = 1 THEN L!Member(ast, s.env, DecodeAll(Joined(x, sep, i, Len(x))).cps)
  ELSE \E j \in i..Len(x) - n + 1 : L!Member(ast, s.env, DecodeAll(Joined(x, sep, i, j)).cps) /\ Groups(s, ast, x, sep, j + 1, n - 1)
Unknown(s, ast, out) ==
  IF out = <<>> \/ out[Len(out)] # 10 THEN "no final newline"
  ELSE LET body == SubSeq(out, 1, Len(out) - 1)
           d == J!JDoc(body)
           x == SplitAt(body, Sep(s)[1], 1, <<>>)
           seqs == IF s.json THEN IF d.ok THEN [k \in 1..Len(d.a) |-> IF Len(JMember(d.a[k], NameOutput)) = 1 THEN JMember(d.a[k], NameOutput)[1].cps ELSE <<-1>>] ELSE <<>>
                   ELSE [k \in 1..Len(x) |-> DecodeAll(x[k]).cps]
       IN IF ~s.json /\ Len(x) > s.amount /\ s.amount > 0
          THEN (IF (Len(x) - s.amount > 6 /\ s.amount > 1) \/ Groups(s, ast, x, Sep(s)[1], 1, s.amount) THEN "" ELSE "what is printed is no " \o ToString(s.amount) \o " sequences of the pattern")
          ELSE IF Len(seqs) # s.amount THEN "there should be " \o ToString(s.amount) \o " sequences"
          ELSE IF \E k \in 1..Len(seqs) : ~L!Member(ast, s.env, seqs[k]) THEN "a sequence does not match the pattern" ELSE ""

\* a bound on the bytes that a sequence takes
RECURSIVE MostSegs(_, _), MostItems(_, _, _)
Larger(a, b) == IF BLess(a, b) THEN b ELSE a
RECURSIVE Longest(_, _)
Longest(ws, k) == IF k = 0 THEN 0 ELSE BMax2(Len(ws[k]), Longest(ws, k - 1))
Most1(it, env) == CASE it.k \in {"lit", "set"} -> <<4>>
                    [] it.k = "w" -> BFromInt(Longest(L!LWords(env, it.name), Len(L!LWords(env, it.name))))
                    [] it.k = "grp" -> MostSegs(it.segs, env)
                    [] OTHER -> <<0, 0, 0, 0, 1>>          \* no bound
MostItems(items, k, env) == IF k > Len(items) THEN <<>> ELSE BAdd(BMul(items[k].max, Most1(items[k], env)), MostItems(items, k + 1, env))
RECURSIVE MostFrom(_, _, _)
MostFrom(segs, k, env) == IF k > Len(segs) THEN <<>> ELSE Larger(MostItems(segs[k].items, 1, env), MostFrom(segs, k + 1, env))
MostSegs(segs, env) == MostFrom(segs, 1, env)
RECURSIVE Unenterable(_)
Unenterable(segs) == \/ \A k \in 1..Len(segs) : segs[k].m = <<>>
                     \/ \E k \in 1..Len(segs) : \E j \in 1..Len(segs[k].items) : segs[k].items[j].k = "grp" /\ Unenterable(segs[k].items[j].segs)
MayFail(s, ast) == L!Risky(ast.segs, s.env) \/ L!Nesting(ast.segs) > s.limit \/ Unenterable(ast.segs)
                   \/ BLess(<<0, 1>>, BScale(MostSegs(ast.segs, s.env), IF s.json THEN 6 ELSE 1))

\* -------------------------------------------------------------------- verdict
Diagnosis(out) == out = <<>> \/ \E i \in 1..Len(out) - 3 : SubSeq(out, i, i + 3) = <<114, 114, 111, 114>>
RECURSIVE Pairs(_, _, _)
Pairs(ps, k, seen) == IF k = 0 THEN {} ELSE IF ps[k][1] \in seen THEN Pairs(ps, k - 1, seen)
                      ELSE {<<112, 114, 101, 115, 101, 116, 32>> \o ps[k][1] \o <<32>> \o ps[k][2]} \cup Pairs(ps, k - 1, seen \cup {ps[k][1]})
Status(o) == IF o.exit < 0 THEN "ended by signal " \o ToString(-o.exit) ELSE "exit status " \o ToString(o.exit)
Exit(o, n) == o.exit = n
Aborts(o) == IF o.exit >= 0 THEN "should stop, " \o Status(o) ELSE ""

\* bytes a handle takes from the source when pos - 1 of them have been used
Needed(pos, eager) == ((IF eager THEN (pos - 1) \div 1024 ELSE IF pos = 1 THEN 0 ELSE (pos - 2) \div 1024) + 1) * 1024

\* many sequences from a source of zeros: they are all the same
Repeated(s, ast, source, out) ==
  LET g == Drawn([s EXCEPT !.amount = 1], ast, source, 256).gs[1]
      unit == g.out \o Sep(s)
      u == Len(unit)
  IN IF g.st # "ok" THEN "not a generation"
     ELSE IF Len(out) # s.amount * u THEN "standard output should have " \o ToString(s.amount * u) \o " bytes"
     ELSE LET bad == {i \in 1..Len(out) : out[i] # (IF i = Len(out) THEN 10 ELSE unit[((i - 1) % u) + 1])}
          IN IF bad = {} THEN "" ELSE "byte " \o ToString(CHOOSE i \in bad : \A j \in bad : i <= j) \o " of standard output is wrong"

Whole(s, c, ast, out) ==
  LET source == SourceOf(s)
      o == c.o
  IN IF source.k = "system" THEN
          IF Exit(o, 9) /\ MayFail(s, ast) THEN ""
          ELSE IF s.limit = 0 THEN "should fail with status 9, " \o Status(o)
          ELSE IF Exit(o, 0) THEN Unknown(s, ast, out) ELSE Status(o)
     ELSE IF source.k = "zero" /\ s.amount > 200 /\ ~s.json /\ ~s.entropy
          THEN IF Exit(o, 0) THEN Repeated(s, ast, source, out) ELSE Status(o)
     ELSE LET r == Drawn(s, ast, source, 256)
              gs == r.gs
              n == Len(gs)
              ok == gs[n].st = "ok"
              made == IF ok THEN gs ELSE SubSeq(gs, 1, n - 1)
              text == Plain(made, Sep(s), 1)
          IN IF s.rnd # <<>> /\ s.rnd[1].k = "file" /\ Needed(r.pos, FALSE) > Len(s.rnd[1].data) THEN
                  IF o.exit >= 0 THEN "should stop, " \o Status(o)
                  ELSE IF ~s.json /\ ~IsPrefix(out, text \o Sep(s)) THEN "output after the source failed" ELSE ""
             ELSE IF s.rnd # <<>> /\ s.rnd[1].k = "file" /\ Needed(r.pos, TRUE) > Len(s.rnd[1].data) THEN ""
             ELSE IF ~ok THEN
                  IF ~Exit(o, 9) THEN "should fail with status 9, " \o Status(o)
                  ELSE IF ~s.json /\ out \notin {text, text \o <<10>>, text \o Sep(s)} THEN "output of a failed generation" ELSE ""
             ELSE IF ~Exit(o, 0) THEN Status(o)
             ELSE LET j == IF s.json THEN JsonOut(s, gs, out)
                           ELSE IF out = text \o <<10>> THEN "" ELSE "standard output should be " \o ToString(text \o <<10>>)
                  IN IF j # "" THEN j ELSE EntropyOut(s, gs, o.err)

Judge(c) ==
  LET s == Invoke(c.xdg, c.home, c.argv, c.files)
      o == c.o
      out == DropLines(o.out, 1, s.noise)
  IN IF out = <<256>> THEN "diagnostics of the configuration are missing"
     ELSE IF s.abort THEN Aborts(o)
     ELSE IF s.exit >= 0 THEN
       IF ~Exit(o, s.exit) THEN "exit status should be " \o ToString(s.exit) \o ", " \o Status(o)
       ELSE IF Diagnosis(out) THEN "" ELSE "output although the arguments are invalid"
     ELSE IF s.show # "" THEN
       IF ~Exit(o, 0) THEN "exit status should be 0, " \o Status(o)
       ELSE IF s.show = "list" THEN
              LET ls == SplitLines(out, 1, <<>>)
                  want == Pairs(s.presets, Len(s.presets), {})
              IN IF ls = <<>> \/ {ls[k] : k \in 1..Len(ls)} # want \/ Len(ls) # Cardinality(want)
              THEN "not the list of presets" ELSE ""
       ELSE IF out # <<>> THEN "output where none should be" ELSE IF o.err = <<>> THEN "nothing is shown" ELSE ""
     ELSE LET x == ParseBytes(s.pattern[1])
          IN IF x.dec.r = "bad" \/ x.s.err # "none"
             THEN IF ~Exit(o, 3) THEN "the pattern is malformed, " \o Status(o)
                  ELSE IF out # <<>> THEN "output for a malformed pattern" ELSE ""
             ELSE Whole(s, c, PAst(x.s.p), out)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
