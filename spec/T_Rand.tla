------------------------------- MODULE T_Rand -------------------------------
(* Trace validation of randomness handles. check:
     lanes   three runs of the same operations on a source whose bytes tell
             their position: what is delivered is delivered at most once (C07)
     draw    operations on a known stream (C08)
     desc    operations on a source opened from a description (C09, C10)
     derive  the same for a key derived with other parameters (C10)
     fault   a source that comes up short from some read on, or the
             system's after a number of bytes (C11)                           *)
EXTENDS Rand, Argon2, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
B == 1024

\* --------------------------------------------------------------------- lanes
\* position of the k-th byte of operation o, from the three lanes
Pos(c, o, k) == c.o[1].r[o][k] + 256 * c.o[2].r[o][k] + 65536 * c.o[3].r[o][k]
Width(op) == IF op.t = "r" THEN op.n ELSE IF op.t = "u" THEN op.w ELSE 0
\* state: given[p] as <<set of large intervals given, lowest small position>>
RECURSIVE Skip(_, _)
Skip(ivs, p) == IF \E v \in ivs : p \in v[1]..v[2] THEN Skip(ivs, (CHOOSE v \in ivs : p \in v[1]..v[2])[2] + 1) ELSE p
RECURSIVE SmallFits(_, _, _, _, _)
SmallFits(c, o, k, ivs, low) == \* "" or the lowest position left, as [ok, low]
  IF k > Width(c.ops[o]) THEN [ok |-> TRUE, low |-> low]
  ELSE LET p == Skip(ivs, low) IN IF Pos(c, o, k) # p THEN [ok |-> FALSE, low |-> p] ELSE SmallFits(c, o, k + 1, ivs, p + 1)
RECURSIVE Lanes(_, _, _, _)
Lanes(c, o, ivs, low) ==
  IF o > Len(c.ops) THEN ""
  ELSE LET op == c.ops[o]
           n == Width(op)
       IN IF \E l \in 1..3 : c.o[l].open # 1 \/ (n > 0 /\ Len(c.o[l].r[o]) # n) THEN "wrong length of operation " \o ToString(o)
          ELSE IF op.t = "R" THEN
             \* gives up what is buffered: continues further on
             IF o < Len(c.ops) /\ Width(c.ops[o + 1]) > 0 /\ Pos(c, o + 1, 1) < low THEN "delivered again in operation " \o ToString(o + 1)
             ELSE Lanes(c, o + 1, ivs, IF o < Len(c.ops) /\ Width(c.ops[o + 1]) \in 1..B THEN Pos(c, o + 1, 1) ELSE low)
          ELSE IF n <= B THEN
             LET s == SmallFits(c, o, 1, ivs, low)
             IN IF s.ok THEN Lanes(c, o + 1, ivs, s.low) ELSE "operation " \o ToString(o) \o " should deliver position " \o ToString(s.low)
          ELSE LET a == Pos(c, o, 1)
                   z == Pos(c, o, n)
               IN IF \E k \in 1..n - 1 : Pos(c, o, k + 1) # Pos(c, o, k) + 1 THEN "operation " \o ToString(o) \o " is not contiguous"
                  ELSE IF a < low \/ \E v \in ivs : a <= v[2] /\ v[1] <= z THEN "delivered again in operation " \o ToString(o)
                  ELSE Lanes(c, o + 1, ivs \cup {<<a, z>>}, low)

\* ---------------------------------------------------------------------- runs
\* results of all operations, and how often the source had been read after each
RECURSIVE Results(_, _, _, _)
Results(h, ops, k, eager) ==
  IF k > Len(ops) THEN <<>>
  ELSE LET r == Op(h, ops[k], B, eager) IN <<[d |-> r.d, reads |-> r.h.reads, taken |-> r.h.next]>> \o Results(r.h, ops, k + 1, eager)
Same(rs, o) == LET S == {k \in 1..Len(rs) : rs[k].d # o[k]}
               IN IF S = {} THEN "" ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j
                                         IN "operation " \o ToString(k) \o " should give " \o ToString(SubSeq(rs[k].d, 1, IF Len(rs[k].d) > 16 THEN 16 ELSE Len(rs[k].d)))

Draw0(c) == IF c.o.open # 1 \/ Len(c.o.r) # Len(c.ops) THEN "not opened" ELSE Same(Results(ROpen([k |-> "bytes", data |-> c.src], B), c.ops, 1, TRUE), c.o.r)

\* the stream of a description: files by their content, derived keys by Argon2
StreamOf(c, d) ==
  CASE d.k = "xorshift" -> [k |-> "xorshift", seed |-> d.seed]
    [] d.k = "chacha" -> [k |-> "chacha", key |-> d.key, iv |-> d.iv]
    [] d.k = "zero" -> [k |-> "zero"]
    [] d.k = "file" -> [k |-> "bytes", data |-> c.src]
    [] d.k = "argon2" -> [k |-> "chacha", key |-> DeriveKey(d.pass, d.domain, d.token), iv |-> Padded(Passgen, 8)]
Desc(c) ==
  LET d == Describe(c.desc)
      x == IF d.k = "file" THEN c.exists = 1 ELSE d.ok
  IN IF ~x THEN IF c.o.open = 0 THEN "" ELSE "this description should be refused"
     ELSE IF c.o.open # 1 THEN "this description should be accepted"
     ELSE IF d.k = "system" \/ c.ops = <<>> THEN ""
     ELSE IF Len(c.o.r) # Len(c.ops) THEN "wrong number of results"
     ELSE LET run(eager) == Same(Results(ROpen(StreamOf(c, d), B), c.ops, 1, eager), c.o.r)
              why == run(TRUE)
          IN IF why = "" \/ run(FALSE) = "" THEN "" ELSE why

Derive(c) ==
  LET f == c.cfg
      s == [k |-> "chacha", key |-> DeriveWith(f.y, f.blocks, f.passes, f.lanes, f.pass, f.domain, f.token), iv |-> Padded(Passgen, 8)]
  IN IF c.o.open # 1 \/ Len(c.o.r) # Len(c.ops) THEN "not opened"
     ELSE LET run(eager) == Same(Results(ROpen(s, B), c.ops, 1, eager), c.o.r)
              why == run(TRUE)
          IN IF why = "" \/ run(FALSE) = "" THEN "" ELSE why

\* ------------------------------------------------------------------- failing
\* the first fail_at reads deliver everything. An operation that just empties
\* the buffer may stop or not.
Fault(c) ==
  LET S == [k |-> "bytes", data |-> c.src]
      eager == Results(ROpen(S, B), c.ops, 1, TRUE)
      lazy == Results(ROpen(S, B), c.ops, 1, FALSE)
      \* the system's source fails after a number of bytes, others after a number of reads
      given(k, rs) == IF c.kind = "system" THEN BLeq(rs[k].taken, BFromInt(c.budget)) ELSE rs[k].reads <= c.fail_at
      opened == IF c.kind = "system" THEN c.budget >= B ELSE c.fail_at > 0
      done(rs) == IF ~opened THEN {} ELSE {k \in 1..Len(rs) : \A j \in 1..k : given(j, rs)}
      least == Cardinality(done(eager))
      most == Cardinality(done(lazy))
      n == Len(c.o.r)
      stopped == c.o.sig # 0 \/ c.o.exit # 0
  IN IF c.kind = "system" /\ c.o.exit = 96 THEN ""
     ELSE IF n < least THEN "stopped although all was delivered, after " \o ToString(n) \o " operations"
     ELSE IF n > most THEN "went on after a failed read: " \o ToString(n) \o " operations completed"
     ELSE IF most < Len(c.ops) /\ ~stopped THEN "did not stop"
     ELSE IF least = Len(c.ops) /\ stopped THEN "stopped without need"
     ELSE Same(SubSeq(eager, 1, n), c.o.r)

Judge(c) == CASE c.check = "lanes" -> Lanes(c, 1, {}, 0)
              [] c.check = "draw" -> Draw0(c)
              [] c.check = "desc" -> Desc(c)
              [] c.check = "derive" -> Derive(c)
              [] c.check = "fault" -> Fault(c)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
