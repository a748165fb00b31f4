------------------------------ MODULE Sessions ------------------------------
(* The library as its user sees it: randomness handles, patterns and
   environments, in numbered slots, and operations on them. Nothing is shared
   between slots, except that an environment draws from the handle it was given.

   Operations (records with field o):
     S h s    open source s (a script of bytes or a description)   x h  close
     r h op   operation of Rand on it
     P h pat  parse (q: a pattern parsed elsewhere)                f h  free
     a h      look at the structure
     E h s    environment on handle s      W h name level bad data  add wordlist
     D h n    set its depth limit          e h  free
     g p e m lim ret   generate
     I ops sch        operations that take turns. A generation gives up its
                      turn whenever it has delivered a character to its
                      receiver (unless that is a buffer), other operations are done in one turn; sch says
                      whose turn it is, and in the end all are finished one
                      after the other.                                        *)
EXTENDS Pattern, Gen, Rand, Argon2

SB == 1024
None == <<>>
SesInit(n) == [src |-> [h \in 1..n |-> None], pat |-> [h \in 1..n |-> None], env |-> [h \in 1..n |-> None]]

StreamFor(s) ==
  IF s.k = "script" THEN [k |-> "bytes", data |-> s.data]
  ELSE LET d == Describe(s.d)
       IN CASE d.k = "xorshift" -> [k |-> "xorshift", seed |-> d.seed]
            [] d.k = "chacha" -> [k |-> "chacha", key |-> d.key, iv |-> d.iv]
            [] d.k = "argon2" -> [k |-> "chacha", key |-> DeriveKey(d.pass, d.domain, d.token), iv |-> Padded(Passgen, 8)]
            [] OTHER -> [k |-> "zero"]
Refused(s) == s.k = "desc" /\ ~Describe(s.d).ok

\* the next n bytes that small reads will deliver, and the handle after them
Ahead(h, n) == LET left == SB - h.pos
                   at == BAdd(h.buf, BFromInt(h.pos))
               IN IF n <= left THEN Range(h.s, at, n) ELSE Range(h.s, at, left) \o Range(h.s, h.next, n - left)
RECURSIVE Past(_, _)
Past(h, n) == LET left == SB - h.pos IN IF n < left THEN [h EXCEPT !.pos = @ + n] ELSE Past(Fill(h, SB), n - left)

RECURSIVE GenFrom(_, _, _, _, _)
GenFrom(ast, e, rx, h, n) ==
  LET r == Generate(ast, e.wl, e.limit, rx, TLCEval(Ahead(h, n)), 1)
  IN IF r.pos > n + 1 THEN GenFrom(ast, e, rx, h, 4 * n) ELSE [g |-> r.g, h |-> Past(h, r.pos - 1)]

\* a value below b, or (maybe) a coin, from a handle
RECURSIVE DrawFrom(_, _, _)
DrawFrom(h, need, n) ==
  LET src == TLCEval(Ahead(h, n))
      d == IF need.t = "maybe" THEN LET x == BoolDraw(src, 1) IN [v |-> IF x.v THEN <<>> ELSE <<1>>, pos |-> x.pos]
           ELSE MaxDraw(src, 1, 8, need.b)
  IN IF d.pos > n + 1 THEN DrawFrom(h, need, 4 * n) ELSE [v |-> d.v, h |-> Past(h, d.pos - 1)]
(* One turn of the generation g, of which vis characters have been delivered:
   until it delivers another one or ends. [g, h, vis, over]                   *)
RECURSIVE GenTurn(_, _, _)
GenTurn(g0, h, vis) ==
  LET g == Settle(g0)
  IN IF g.rx.m = "c" /\ Len(g.out) > vis THEN [g |-> g, h |-> h, vis |-> vis + 1, over |-> FALSE]
     ELSE IF g.st # "go" THEN [g |-> g, h |-> h, vis |-> vis, over |-> TRUE]
     ELSE LET d == DrawFrom(h, g.need, 24) IN GenTurn(Apply(g, d.v), d.h, vis)

\* tasks: begun, over, [st, res]
Task0 == [on |-> FALSE, over |-> FALSE, g |-> <<>>, vis |-> 0, res |-> <<>>]
RECURSIVE SesStep(_, _)
\* one turn of task t of the operation o: [st, task]
Turn(st, o, t) ==
  IF t.over THEN [st |-> st, t |-> t]
  ELSE IF o.o # "g" THEN LET x == SesStep(st, o) IN [st |-> x.st, t |-> [t EXCEPT !.on = TRUE, !.over = TRUE, !.res = <<x.res>>]]
  ELSE LET e == st.env[o.e][1]
           g == IF t.on THEN t.g[1] ELSE GStart(st.pat[o.p][1], e.wl, e.limit, [m |-> o.m, lim |-> o.lim])
           x == GenTurn(g, st.src[e.s][1], t.vis)
       IN [st |-> [st EXCEPT !.src[e.s] = <<x.h>>],
           t |-> [t EXCEPT !.on = TRUE, !.over = x.over, !.g = <<x.g>>, !.vis = x.vis, !.res = IF x.over THEN <<x.g>> ELSE <<>>]]
RECURSIVE Turns(_, _, _, _, _)
Turns(st, ts, ops, sch, k) == \* when the schedule is over, the first that is not
  LET open == {j \in 1..Len(ops) : ~ts[j].over}
      j == IF k <= Len(sch) THEN sch[k] ELSE CHOOSE j \in open : \A i \in open : j <= i
      x == Turn(st, ops[j], ts[j])
  IN IF open = {} THEN [st |-> st, ts |-> ts] ELSE Turns(x.st, [ts EXCEPT ![j] = x.t], ops, sch, k + 1)

\* [st, res]
SesStep(st, o) ==
  CASE o.o = "S" -> IF Refused(o.s) THEN [st |-> st, res |-> 0] ELSE [st |-> [st EXCEPT !.src[o.h] = <<ROpen(StreamFor(o.s), SB)>>], res |-> 1]
    [] o.o = "x" -> [st |-> [st EXCEPT !.src[o.h] = None], res |-> 0]
    [] o.o = "r" -> LET r == Op(st.src[o.h][1], o.op, SB, TRUE) IN [st |-> [st EXCEPT !.src[o.h] = <<r.h>>], res |-> r.d]
    [] o.o \in {"P", "q"} ->
         LET x == ParseBytes(o.pat)
         IN IF x.dec.r = "bad" \/ x.s.err # "none" THEN [st |-> [st EXCEPT !.pat[o.h] = None], res |-> 1]
            ELSE [st |-> [st EXCEPT !.pat[o.h] = <<PAst(x.s.p)>>], res |-> 0]
    [] o.o = "f" -> [st |-> [st EXCEPT !.pat[o.h] = None], res |-> 0]
    [] o.o = "a" -> [st |-> st, res |-> st.pat[o.h][1]]
    [] o.o = "E" -> [st |-> [st EXCEPT !.env[o.h] = <<[s |-> o.s, wl |-> <<>>, limit |-> 1024]>>], res |-> 0]
    [] o.o = "W" -> [st |-> [st EXCEPT !.env[o.h][1].wl = Append(@, [name |-> o.name, level |-> o.level, bad |-> o.bad = 1, words |-> Words(o.data)])], res |-> 0]
    [] o.o = "D" -> [st |-> [st EXCEPT !.env[o.h][1].limit = o.n], res |-> 0]
    [] o.o = "e" -> [st |-> [st EXCEPT !.env[o.h] = None], res |-> 0]
    [] o.o = "g" -> LET e == st.env[o.e][1]
                        r == GenFrom(st.pat[o.p][1], e, [m |-> o.m, lim |-> o.lim], st.src[e.s][1], 96)
                    IN [st |-> [st EXCEPT !.src[e.s] = <<r.h>>], res |-> r.g]
    [] o.o = "I" -> LET r == Turns(st, [j \in 1..Len(o.ops) |-> Task0], o.ops, o.sch, 1)
                    IN [st |-> r.st, res |-> [j \in 1..Len(o.ops) |-> r.ts[j].res[1]]]
=============================================================================
