------------------------------ MODULE Pattern -------------------------------
(* The pattern parser as a transition system over tokens. A parser state is a
   stack of frames, one per construct that is still open:
     g     a group: finished segments, multiplier and items of the current one
     set   a character set; range: the same after a dash
     rep   {n}; rep2: {n,m} after the comma
     mul   a segment multiplier
     sp    a special (\w \m \p) before its brace; spn: inside of its name
   Numbers are BigNat values.                                                *)
EXTENDS Integers, Sequences, BigNat, Utf8, Tokens

Item(k) == [k |-> k, cp |-> 0, ranges |-> <<>>, segs |-> <<>>, sum |-> <<>>, name |-> <<>>,
            min |-> <<1>>, max |-> <<1>>, maybe |-> 0, chunk |-> 0]
Seg(m, items) == [m |-> m, items |-> items]
GroupFrame == [f |-> "g", segs |-> <<>>, m |-> <<1>>, items |-> <<>>]

PInit == [fr |-> <<GroupFrame>>, bad |-> FALSE]

U32Max == <<255, 255, 255, 255>>
DigitOk(v, d) == BLeq(BScaleAdd(v, 10, d), U32Max)
IsDigit(cp) == cp \in 48..57

SegSum(segs) ==
  LET RECURSIVE S(_)
      S(i) == IF i > Len(segs) THEN <<>> ELSE BAdd(segs[i].m, S(i + 1))
  IN S(1)

\* an empty group stands for nothing
IsEps(item) == item.k = "grp" /\ item.sum = <<>>
DropEps(items) == IF items # <<>> /\ IsEps(items[Len(items)]) THEN SubSeq(items, 1, Len(items) - 1) ELSE items

\* the segments of a group frame that can be chosen
AllSegs(g) == IF g.m = <<>> THEN g.segs ELSE Append(g.segs, Seg(g.m, g.items))
GroupItem(g) ==
  LET segs == AllSegs(g)
      empty == \A i \in 1..Len(segs) : segs[i].items = <<>>
  IN IF empty THEN Item("grp")
     ELSE [Item("grp") EXCEPT !.segs = segs, !.sum = SegSum(segs)]

RECURSIVE CutNul(_)
CutNul(b) == IF b = <<>> \/ Head(b) = 0 THEN <<>> ELSE <<Head(b)>> \o CutNul(Tail(b))

Top(p) == p.fr[Len(p.fr)]
SetTop(p, f) == [p EXCEPT !.fr[Len(p.fr)] = f]
Push(p, f) == [p EXCEPT !.fr = Append(@, f)]
Pop(p) == [p EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
Bad(p) == [p EXCEPT !.bad = TRUE]
\* replace the last item of the group on top
SetLast(p, item) == LET g == Top(p) IN SetTop(p, [g EXCEPT !.items[Len(g.items)] = item])
LastItem(g) == g.items[Len(g.items)]
AddItem(p, item) == LET g == Top(p) IN SetTop(p, [g EXCEPT !.items = Append(@, item)])

Literal(p, cp) == AddItem(p, [Item("lit") EXCEPT !.cp = cp])
SpecialKind(cp) == CASE cp = 109 -> "m" [] cp = 112 -> "p" [] cp = 119 -> "w"

\* a token in a group
GroupStep(p0, tok) ==
  LET keep == tok.esc = 0 /\ tok.cp \in {123, 63}
      g == IF keep THEN Top(p0) ELSE [Top(p0) EXCEPT !.items = DropEps(@)]
      p == SetTop(p0, g)
  IN IF tok.esc = 1 THEN
       IF tok.cp \in {124, 40, 41, 123, 125, 91, 93} THEN Literal(p, tok.cp)
       ELSE IF tok.cp \in {109, 112, 119}
            THEN Push(p, [f |-> "sp", k |-> SpecialKind(tok.cp), name |-> <<>>])
       ELSE Bad(p)
     ELSE CASE tok.cp = 124 -> \* |
                 SetTop(p, [g EXCEPT !.segs = AllSegs(g), !.m = <<1>>, !.items = <<>>])
            [] tok.cp = 41 ->  \* )
                 IF Len(p.fr) = 1 THEN Bad(p)
                 ELSE AddItem(Pop(p), GroupItem(g))
            [] tok.cp = 40 ->  \* (
                 Push(p, GroupFrame)
            [] tok.cp = 91 ->  \* [
                 Push(p, [f |-> "set", ranges |-> <<>>])
            [] tok.cp = 123 -> \* {
                 IF g.items # <<>> THEN Push(p, [f |-> "rep", n |-> <<>>])
                 ELSE Push(SetTop(p, [g EXCEPT !.m = <<>>]), [f |-> "mul", n |-> <<>>])
            [] tok.cp = 63 ->  \* ?
                 IF g.items # <<>> THEN SetLast(p, [LastItem(g) EXCEPT !.maybe = 1]) ELSE Bad(p)
            [] OTHER -> Literal(p, tok.cp)

SetChar(tok) == IF tok.esc = 0 THEN tok.cp ELSE IF tok.cp \in {45, 93} THEN tok.cp ELSE -1
SetStep(p, tok) ==
  LET s == Top(p)
  IN IF tok.esc = 0 /\ tok.cp = 93 THEN AddItem(Pop(p), [Item("set") EXCEPT !.ranges = s.ranges])
     ELSE IF tok.esc = 0 /\ tok.cp = 45 /\ s.ranges # <<>> THEN SetTop(p, [s EXCEPT !.f = "range"])
     ELSE IF SetChar(tok) < 0 THEN Bad(p)
     ELSE SetTop(p, [s EXCEPT !.ranges = Append(@, <<SetChar(tok), SetChar(tok)>>)])
RangeStep(p, tok) ==
  LET s == Top(p)
      start == s.ranges[Len(s.ranges)][1]
  IN IF tok.esc = 0 /\ tok.cp = 93 THEN Bad(p)
     ELSE IF SetChar(tok) < start THEN Bad(p)
     ELSE SetTop(p, [s EXCEPT !.f = "set", !.ranges[Len(s.ranges)] = <<start, SetChar(tok)>>])

RepStep(p, tok) ==
  LET s == Top(p)
      done(a, b) == LET q == Pop(p) IN SetLast(q, [LastItem(Top(q)) EXCEPT !.min = a, !.max = b])
  IN IF tok.esc = 1 THEN Bad(p)
     ELSE IF s.f = "rep" THEN
       IF tok.cp = 125 THEN done(s.n, s.n)
       ELSE IF tok.cp = 44 THEN SetTop(p, [f |-> "rep2", n |-> s.n, n2 |-> <<>>])
       ELSE IF IsDigit(tok.cp) /\ DigitOk(s.n, tok.cp - 48)
            THEN SetTop(p, [s EXCEPT !.n = BScaleAdd(@, 10, tok.cp - 48)])
       ELSE Bad(p)
     ELSE
       IF tok.cp = 125 THEN IF BLess(s.n2, s.n) THEN Bad(p) ELSE done(s.n, s.n2)
       ELSE IF IsDigit(tok.cp) /\ DigitOk(s.n2, tok.cp - 48)
            THEN SetTop(p, [s EXCEPT !.n2 = BScaleAdd(@, 10, tok.cp - 48)])
       ELSE Bad(p)

MulStep(p, tok) ==
  LET s == Top(p)
  IN IF tok.esc = 1 THEN Bad(p)
     ELSE IF tok.cp = 125 THEN LET q == Pop(p) IN SetTop(q, [Top(q) EXCEPT !.m = s.n])
     ELSE IF IsDigit(tok.cp) /\ DigitOk(s.n, tok.cp - 48)
          THEN SetTop(p, [s EXCEPT !.n = BScaleAdd(@, 10, tok.cp - 48)])
     ELSE Bad(p)

SpecialStep(p, tok) ==
  LET s == Top(p)
  IN IF s.f = "sp" THEN
       IF tok.esc = 0 /\ tok.cp = 123 THEN SetTop(p, [s EXCEPT !.f = "spn"]) ELSE Bad(p)
     ELSE
       IF tok.esc = 0 /\ tok.cp = 125
       THEN AddItem(Pop(p), [Item(s.k) EXCEPT !.name = CutNul(s.name)])
       ELSE IF Scalar(tok.cp) THEN SetTop(p, [s EXCEPT !.name = @ \o Encode1(tok.cp)])
       ELSE Bad(p)

(* One token, with a limit on the number of open constructs (0: none).       *)
PStep(p, tok, limit) ==
  IF p.bad THEN p
  ELSE IF limit > 0 /\ Len(p.fr) >= limit THEN Bad(p)
  ELSE CASE Top(p).f = "g"     -> GroupStep(p, tok)
         [] Top(p).f = "set"   -> SetStep(p, tok)
         [] Top(p).f = "range" -> RangeStep(p, tok)
         [] Top(p).f \in {"rep", "rep2"} -> RepStep(p, tok)
         [] Top(p).f = "mul"   -> MulStep(p, tok)
         [] Top(p).f \in {"sp", "spn"}   -> SpecialStep(p, tok)

PDone(p) == ~p.bad /\ Len(p.fr) = 1
PAst(p) ==
  LET g == [Top(p) EXCEPT !.items = DropEps(@)]
      segs == AllSegs(g)
  IN [segs |-> segs, sum |-> SegSum(segs)]

(* What of a parser state can matter for what is accepted after it: not which
   items and alternatives there are, but whether there are any, and whether the
   last one stands for nothing. Norm(p) is a state like p with no more than
   that; MC_Errors checks that steps do not lead out of it (Congruent).        *)
NormItems(items) ==
  IF items = <<>> THEN <<>>
  ELSE IF ~IsEps(items[Len(items)]) THEN <<Item("lit")>>
  ELSE IF Len(items) > 1 THEN <<Item("lit"), Item("grp")>> ELSE <<Item("grp")>>
NormFrame(f) ==
  CASE f.f = "g" -> [f EXCEPT !.segs = IF \E i \in 1..Len(@) : @[i].items # <<>> THEN <<Seg(<<1>>, <<Item("lit")>>)>> ELSE <<>>,
                              !.m = IF @ = <<>> THEN <<>> ELSE <<1>>, !.items = NormItems(@)]
    [] f.f \in {"set", "range"} -> [f EXCEPT !.ranges = IF @ = <<>> THEN <<>> ELSE <<<<@[Len(@)][1], @[Len(@)][1]>>>>]
    [] f.f = "spn" -> [f EXCEPT !.name = <<>>]
    [] OTHER -> f
Norm(p) == [p EXCEPT !.fr = [i \in 1..Len(@) |-> NormFrame(@[i])]]

(* Whole strings of codepoints: t tokenizer, p parser; stops at the first
   error, whose kind and position (codepoints, bytes) it records.            *)
SInit == [t |-> TInit, p |-> PInit, err |-> "none", cp |-> 0, byte |-> 0, at |-> 0]
SFeed(s, cp, width, limit) ==
  IF s.err # "none" THEN s
  ELSE LET r == TFeed(s.t, cp, width)
       IN IF r.t.st \in Errors
          THEN [s EXCEPT !.t = r.t, !.err = r.t.st, !.cp = r.t.soff, !.byte = r.t.sboff, !.at = s.t.off]
          ELSE IF r.tok.cp < 0 THEN [s EXCEPT !.t = r.t]
          ELSE LET q == PStep(s.p, r.tok, limit)
               IN IF q.bad THEN [s EXCEPT !.t = r.t, !.err = "token", !.cp = r.t.soff, !.byte = r.t.sboff, !.at = s.t.off]
                  ELSE [s EXCEPT !.t = r.t, !.p = q]
\* the end of the input
SEnd(s) ==
  IF s.err # "none" THEN s
  ELSE IF s.t.st # "init" THEN [s EXCEPT !.err = s.t.st, !.cp = s.t.off, !.byte = s.t.boff]
  ELSE IF ~PDone(s.p) THEN [s EXCEPT !.err = "end", !.cp = s.t.off, !.byte = s.t.boff]
  ELSE s

RECURSIVE SRun(_, _, _, _, _)
SRun(s, cps, ws, i, limit) ==
  IF i > Len(cps) \/ s.err # "none" THEN s
  ELSE SRun(SFeed(s, cps[i], ws[i], limit), cps, ws, i + 1, limit)

\* a string given as bytes
ParseBytes(bytes) ==
  LET d == DecodeAll(bytes)
      s == SRun(SInit, d.cps, d.w, 1, 0)
  IN [dec |-> d, s |-> IF d.r = "bad" THEN s ELSE SEnd(s)]
ParseCps(cps, limit) == SEnd(SRun(SInit, cps, [i \in 1..Len(cps) |-> 1], 1, limit))
=============================================================================
