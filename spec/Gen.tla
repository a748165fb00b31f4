-------------------------------- MODULE Gen ---------------------------------
(* Generation as a transition system. A state has a stack of frames (segments
   under way and repetitions of their items), the output so far, the product
   of the choices made so far as a fraction num/den, and is either about to
   make a random choice (need), or done. Silent steps are taken by Settle.

   The receiver of the output is part of the system:
     m = "c"  a callback that refuses the character number lim (-1: none)
         "u"  a buffer of lim codepoints      "b"  of lim bytes of UTF-8
         "j"  of lim bytes of UTF-8 with JSON escapes                        *)
EXTENDS Integers, Sequences, BigNat, Utf8, Draw, Wordlist, Markov

\* ------------------------------------------------------------- the receiver
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
JsonChar(cp) == CASE cp = 34 -> <<92, 34>> [] cp = 92 -> <<92, 92>> [] cp = 8 -> <<92, 98>> [] cp = 12 -> <<92, 102>>
                  [] cp = 13 -> <<92, 114>> [] cp = 10 -> <<92, 110>> [] cp = 9 -> <<92, 116>>
                  [] cp < 32 /\ cp \notin {8, 9, 10, 12, 13} -> <<92, 117, 48, 48, HexDigit(cp \div 16), HexDigit(cp % 16)>>
                  [] OTHER -> Encode1(cp)
Receive(rx, out, cp) == \* [ok, out]
  CASE rx.m = "c" -> IF Len(out) = rx.lim THEN [ok |-> FALSE, out |-> out] ELSE [ok |-> TRUE, out |-> Append(out, cp)]
    [] rx.m = "u" -> IF Len(out) = rx.lim THEN [ok |-> FALSE, out |-> out] ELSE [ok |-> TRUE, out |-> Append(out, cp)]
    [] rx.m \in {"b", "j"} ->
         IF ~Scalar(cp) THEN [ok |-> FALSE, out |-> out]
         ELSE LET b == IF rx.m = "b" THEN Encode1(cp) ELSE JsonChar(cp)
              IN IF Len(out) + Len(b) > rx.lim THEN [ok |-> FALSE, out |-> out] ELSE [ok |-> TRUE, out |-> out \o b]

\* ------------------------------------------------------------ environments
\* env: sequence of [name, level, bad, words (byte strings), mw (decoded)]
RECURSIVE Find(_, _, _)
Find(env, name, k) == IF k = 0 THEN [found |-> FALSE]
                      ELSE IF env[k].name = name THEN [found |-> TRUE, wl |-> env[k]]
                      ELSE Find(env, name, k - 1)
\* (no name is no list, whatever is defined)
Lookup(env, name) == Find(env, name, IF name = <<>> THEN 0 ELSE Len(env))
Usable(r) == r.found /\ ~r.wl.bad /\ r.wl.words # <<>>
Decodes(w) == DecodeAll(w).r = "ok"
MarkovUsable(r) == Usable(r) /\ \A k \in 1..Len(r.wl.words) : Decodes(r.wl.words[k])
MarkovWords(wl) == [k \in 1..Len(wl.words) |-> [cps |-> DecodeAll(wl.words[k]).cps, w |-> 1]]

\* ------------------------------------------------------------------- states
NoNeed == [t |-> "none", b |-> <<>>]
RangeSize(r) == r[2] - r[1] + 1
RECURSIVE Possible(_, _)
Possible(ranges, k) == IF k = 0 THEN 0 ELSE RangeSize(ranges[k]) + Possible(ranges, k - 1)
RECURSIVE Pick(_, _, _)
Pick(ranges, k, v) == IF v < RangeSize(ranges[k]) THEN ranges[k][1] + v ELSE Pick(ranges, k + 1, v - RangeSize(ranges[k]))
RECURSIVE SegAt(_, _, _)
SegAt(segs, k, v) == IF BLess(v, segs[k].m) THEN k ELSE SegAt(segs, k + 1, BSub(v, segs[k].m))

Huge == 1000000000
Reps(b) == IF BSmall(b) /\ BToInt(b) < Huge THEN BToInt(b) ELSE Huge

\* limit: of nested groups, the whole pattern being one
GStart(ast, env, limit, rx) ==
  LET g0 == [fr |-> <<>>, depth |-> 0, limit |-> limit, rx |-> rx, env |-> env, out |-> <<>>,
             num |-> <<1>>, den |-> <<1>>, st |-> "go", why |-> "", need |-> NoNeed, grp |-> <<>>]
  IN [g0 EXCEPT !.grp = <<[segs |-> ast.segs, sum |-> ast.sum]>>]

\* frames
SegF(items) == [f |-> "seg", items |-> items, k |-> 1, ph |-> 0, item |-> <<>>, left |-> 0, wl |-> <<>>, ctx |-> <<>>]
RepF(item, n) == [f |-> "rep", items |-> <<>>, k |-> 0, ph |-> 0, item |-> <<item>>, left |-> n, wl |-> <<>>, ctx |-> <<>>]
MkF(wl) == [f |-> "mk", items |-> <<>>, k |-> 0, ph |-> 0, item |-> <<>>, left |-> 0, wl |-> <<wl>>,
            ctx |-> [i \in 1..wl.level |-> 0]]

GTop(g) == g.fr[Len(g.fr)]
GSet(g, f) == [g EXCEPT !.fr[Len(g.fr)] = f]
GPush(g, f) == [g EXCEPT !.fr = Append(@, f)]
GPop(g) == [g EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
Fail(g, why) == [g EXCEPT !.st = "fail", !.why = why]
Ask(g, t, b) == [g EXCEPT !.need = [t |-> t, b |-> b]]
Emit(g, cp) == LET r == Receive(g.rx, g.out, cp)
               IN IF r.ok THEN [g EXCEPT !.out = r.out] ELSE [g EXCEPT !.st = "fail", !.why = "receiver"]
RECURSIVE EmitFrom(_, _, _, _)
EmitFrom(g, cps, k, n) == IF k > n \/ g.st # "go" THEN g
                          ELSE IF k = n THEN Emit(g, cps[k])
                          ELSE LET h == (k + n) \div 2 IN EmitFrom(EmitFrom(g, cps, k, h), cps, h + 1, n)
EmitAll(g, cps, k) == EmitFrom(g, cps, k, Len(cps))
\* the item of the segment on top is finished
NextItem(g) == LET f == GTop(g) IN GSet(g, [f EXCEPT !.k = @ + 1, !.ph = 0])

\* enter the group waiting in g.grp
Enter(g) ==
  IF g.depth >= g.limit THEN Fail(g, "depth")
  ELSE IF g.grp[1].sum = <<>> THEN Fail(g, "empty")
  ELSE Ask([g EXCEPT !.depth = @ + 1], "seg", g.grp[1].sum)

\* one silent step
Silent(g) ==
  IF g.grp # <<>> THEN Enter(g)
  ELSE IF g.fr = <<>> THEN [g EXCEPT !.st = "ok"]
  ELSE LET f == GTop(g)
  IN CASE f.f = "seg" ->
       IF f.k > Len(f.items) THEN [GPop(g) EXCEPT !.depth = @ - 1]
       ELSE LET it == f.items[f.k]
            IN IF f.ph = 0 /\ it.maybe = 1 THEN Ask(g, "maybe", <<2>>)
               ELSE IF it.min # it.max THEN Ask(g, "rep", BAdd(BSub(it.max, it.min), <<1>>))
               ELSE GPush(NextItem(g), RepF(it, Reps(it.min)))
     [] f.f = "rep" ->
       IF f.left = 0 THEN GPop(g)
       ELSE LET it == f.item[1]
                less == GSet(g, [f EXCEPT !.left = @ - 1])
            IN (CASE it.k = "lit" -> Emit(less, it.cp)
                 [] it.k = "set" -> IF it.ranges = <<>> THEN GPop(g)
                                    ELSE Ask(less, "set", BFromInt(Possible(it.ranges, Len(it.ranges))))
                 [] it.k = "grp" -> [less EXCEPT !.grp = <<[segs |-> it.segs, sum |-> it.sum]>>]
                 [] it.k = "p" -> GPop(g)
                 [] it.k = "w" ->
                      LET r == Lookup(g.env, it.name)
                      IN IF Usable(r) THEN Ask(less, "word", BFromInt(Len(r.wl.words))) ELSE Fail(g, "wordlist")
                 [] it.k = "m" ->
                      LET r == Lookup(g.env, it.name)
                      IN IF MarkovUsable(r) THEN GPush(less, MkF([words |-> MarkovWords(r.wl), level |-> r.wl.level]))
                         ELSE Fail(g, "wordlist"))
     [] f.f = "mk" -> Ask(g, "mk", BFromInt(Total(f.wl[1].words, Occurs(f.wl[1].words, f.ctx, f.wl[1].level))))

RECURSIVE Settle(_)
Settle(g) == IF g.st # "go" \/ g.need.t # "none" THEN g ELSE Settle(Silent(g))

Times(g, n, d) == [g EXCEPT !.num = BMul(@, n), !.den = BMul(@, d)]

(* The value v below need.b has been drawn ("maybe": 0 present, 1 absent).     *)
Apply(g0, v) ==
  LET t == g0.need.t
      b == g0.need.b
      g == [g0 EXCEPT !.need = NoNeed]
      f == GTop(g)
  IN CASE t = "seg" ->
            LET k == SegAt(g.grp[1].segs, 1, v)
                s == g.grp[1].segs[k]
            IN GPush(Times([g EXCEPT !.grp = <<>>], b, s.m), SegF(s.items))
       [] t = "maybe" ->
            LET h == Times(g, <<2>>, <<1>>)
            IN IF v = <<>> THEN GSet(h, [f EXCEPT !.ph = 1]) ELSE NextItem(h)
       [] t = "rep" ->
            LET it == f.items[f.k]
            IN GPush(NextItem(Times(g, b, <<1>>)), RepF(it, Reps(BAdd(it.min, v))))
       [] t = "set" -> Emit(Times(g, b, <<1>>), Pick(f.item[1].ranges, 1, BToInt(v)))
       [] t = "word" ->
            LET w == Lookup(g.env, f.item[1].name).wl.words[BToInt(v) + 1]
                d == DecodeAll(w)
                h == EmitAll(Times(g, b, <<1>>), d.cps, 1)
            IN IF d.r # "ok" THEN Fail(h, "word") ELSE h \* (how much of it is delivered before is open)
       [] t = "mk" ->
            LET mk == f.wl[1]
                occ == Occurs(mk.words, f.ctx, mk.level)
                cp == ChooseNext(mk.words, occ, BToInt(v))
                h == Times(g, b, BFromInt(Count(mk.words, occ, cp)))
            IN IF cp = 0 THEN GPop(h)
               ELSE Emit(GSet(h, [f EXCEPT !.ctx = Append(Tail(@), cp)]), cp)

\* ------------------------------------------------------ driven by a stream
RECURSIVE Run(_, _, _)
Run(g0, src, pos) ==
  LET g == Settle(g0)
  IN IF g.st # "go" THEN [g |-> g, pos |-> pos]
     ELSE IF g.need.t = "maybe"
     THEN LET d == BoolDraw(src, pos) IN Run(Apply(g, IF d.v THEN <<>> ELSE <<1>>), src, d.pos)
     ELSE LET d == MaxDraw(src, pos, 8, g.need.b) IN Run(Apply(g, d.v), src, d.pos)
Generate(ast, env, limit, rx, src, pos) == Run(GStart(ast, env, limit, rx), src, pos)
=============================================================================
