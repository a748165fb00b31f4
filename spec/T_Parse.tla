------------------------------ MODULE T_Parse -------------------------------
(* Trace validation of the parser: every recorded call must be one that the
   specification allows. kind of a case:
     "b" bytes through the one-call entry point, with error positions
     "u" codepoints through the whole-buffer entry point
     "t" token by token, with a depth limit
     "n" a long string of repeated parts through the one-call entry point
   check selects what is compared: "verdict" (C04, C13) or "position" (C23). *)
EXTENDS Pattern, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

ErrMsg(e) == CASE e = "enc" -> {"invalid character"}
   [] e \in {"err_start", "err_payload"} -> {"unexpected character while parsing unicode literal"}
   [] e = "err_len" -> {"unicode literal payload too long"}
   [] e = "token" -> {"invalid token"}
   [] e = "esc" -> {"parsing escaped token"}
   [] e = "u" -> {"parsing unicode token"}
   [] e = "payload" -> {"parsing unicode token payload"}
   [] e = "end" -> {"parsing not finished"}

\* the errors that may be reported for a rejected byte string
Reports(x) ==
  (IF x.dec.r = "bad" THEN {[e |-> "enc", cp |-> Len(x.dec.cps), byte |-> x.dec.used]} ELSE {})
  \cup (IF x.s.err # "none" THEN {[e |-> x.s.err, cp |-> x.s.cp, byte |-> x.s.byte]} ELSE {})

JudgeB(c) ==
  LET x == ParseBytes(c.bytes)
      rs == Reports(x)
  IN IF c.check = "position" THEN
       IF rs = {} THEN IF c.o.ret = 0 THEN "" ELSE "rejected, but the string is well-formed"
       ELSE IF c.o.ret = 0 THEN "accepted, but the specification reports " \o ToString(rs)
       ELSE IF \E r \in rs : r.cp = c.o.cp /\ r.byte = c.o.byte /\ c.o.msg \in ErrMsg(r.e) THEN ""
       ELSE "the error may be one of " \o ToString(rs) \o " but it was cp=" \o ToString(c.o.cp)
            \o " byte=" \o ToString(c.o.byte) \o " " \o c.o.msg
     ELSE
       IF rs # {} THEN IF c.o.ret # 0 THEN "" ELSE "accepted, but it is not well-formed: " \o ToString(rs)
       ELSE IF c.o.ret # 0 THEN "rejected, but it is well-formed"
       ELSE IF c.check = "accept" \/ c.o.ast = PAst(x.s.p) THEN ""
       ELSE "the structure should be " \o ToString(PAst(x.s.p))

JudgeU(c) ==
  LET s == ParseCps(c.cps, 0)
  IN IF s.err # "none" THEN IF c.o.ret # 0 \/ c.o.fin # 0 \/ s.err \in {"esc", "u", "payload"} THEN ""
                            ELSE "accepted, but it is not well-formed: " \o s.err
     ELSE IF c.o.ret # 0 \/ c.o.fin # 0 THEN "rejected, but it is well-formed"
     ELSE IF c.check = "accept" \/ c.o.ast = PAst(s.p) THEN "" ELSE "the structure should be " \o ToString(PAst(s.p))

JudgeT(c) ==
  LET s == ParseCps(c.cps, c.limit)
      atend == s.err \in {"esc", "u", "payload", "end"}
  IN IF s.err # "none" /\ ~atend THEN
       IF c.o.ret # 0 /\ c.o.at = s.at THEN ""
       ELSE "should be rejected at " \o ToString(s.at) \o " because of " \o s.err
     ELSE IF c.o.ret # 0 THEN "rejected at " \o ToString(c.o.at)
     ELSE IF atend THEN IF c.o.fin # 0 THEN "" ELSE "accepted, but it is not finished"
     ELSE IF c.o.fin # 0 THEN "not accepted at its end, but it is well-formed"
     ELSE IF c.check = "accept" \/ c.o.ast = PAst(s.p) THEN "" ELSE "the structure should be " \o ToString(PAst(s.p))

(* Long strings: the concatenation of parts, the i-th of which is c.parts[i].u,
   (a * n) + b times, for an n that is too large to go through it here. What the
   parser does with a part is the same each time: after the second repetition it
   is in a state that differs from that after the first only in what is of no
   further consequence (Norm, and MC_Errors for that), or in that more of the
   same constructs are open underneath, of which nothing is looked at before
   they are closed. So the positions grow by the same amounts with every
   repetition, and in the structure the same elements are repeated. Lin(x2, x3)
   continues what is found for n = 2 and n = 3; that it is met at 4 and 5 is
   checked along with it. Structures are compared as runs [n, x] of equal
   elements, at every level.                                                  *)
RECURSIVE Times(_, _)
Times(u, k) == IF k = 0 THEN <<>> ELSE u \o Times(u, k - 1)
RECURSIVE Build(_, _, _)
Build(parts, n, i) == IF i > Len(parts) THEN <<>> ELSE Times(parts[i].u, (parts[i].a * n) + parts[i].b) \o Build(parts, n, i + 1)

RECURSIVE Glued(_, _, _)
\* the runs of equal elements of a sequence from its i-th element on
Glued(seq, i, acc) ==
  IF i > Len(seq) THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)].x = seq[i] THEN Glued(seq, i + 1, [acc EXCEPT ![Len(acc)] = [n |-> acc[Len(acc)].n + 1, x |-> seq[i]]])
  ELSE Glued(seq, i + 1, Append(acc, [n |-> 1, x |-> seq[i]]))
Runs(seq) == Glued(seq, 1, <<>>)
RECURSIVE RunSegs(_), RunItem(_)
RunItem(it) == [it EXCEPT !.ranges = Runs(@), !.name = Runs(@), !.segs = RunSegs(@)]
RunSegs(segs) == Runs([i \in 1..Len(segs) |-> [m |-> segs[i].m, items |-> Runs([j \in 1..Len(segs[i].items) |-> RunItem(segs[i].items[j])])]])

LinN(a, b, n) == a + ((n - 2) * (b - a))
SameX(x, y, n) == x
LinRuns(a, b, n, X(_, _, _)) == [i \in 1..Len(a) |-> [n |-> LinN(a[i].n, b[i].n, n), x |-> X(a[i].x, b[i].x, n)]]
RECURSIVE RunSum(_, _)
RunSum(rs, i) == IF i > Len(rs) THEN <<>> ELSE BAdd(BMul(rs[i].x.m, BFromInt(rs[i].n)), RunSum(rs, i + 1))
RECURSIVE LinSegs(_, _, _), LinItem(_, _, _), LinSeg(_, _, _)
LinItem(a, b, n) == LET segs == LinSegs(a.segs, b.segs, n)
                    IN [a EXCEPT !.ranges = LinRuns(@, b.ranges, n, SameX), !.name = LinRuns(@, b.name, n, SameX), !.segs = segs, !.sum = RunSum(segs, 1)]
LinSeg(a, b, n) == [m |-> a.m, items |-> LinRuns(a.items, b.items, n, LinItem)]
LinSegs(a, b, n) == LinRuns(a, b, n, LinSeg)

LinReport(r, s, n) == [e |-> r.e, cp |-> LinN(r.cp, s.cp, n), byte |-> LinN(r.byte, s.byte, n)]
LinReports(rs, ss, n) == {LinReport(r, CHOOSE s \in ss : s.e = r.e, n) : r \in rs}

JudgeN(c) ==
  LET x(k) == ParseBytes(Build(c.parts, k, 1))
      x2 == x(2)
      x3 == x(3)
      x4 == x(4)
      x5 == x(5)
      p2 == Reports(x2)
      p3 == Reports(x3)
      rs == LinReports(p2, p3, c.n)
      t2 == RunSegs(PAst(x2.s.p).segs)
      t3 == RunSegs(PAst(x3.s.p).segs)
      st == LinSegs(t2, t3, c.n)
  IN IF {r.e : r \in p2} # {r.e : r \in p3} \/ Reports(x4) # LinReports(p2, p3, 4) \/ Reports(x5) # LinReports(p2, p3, 5)
     THEN "machinery: not regular"
     ELSE IF rs # {} THEN
       IF c.o.ret = 0 THEN "accepted, but the specification reports " \o ToString(rs)
       ELSE IF c.check # "position" \/ \E r \in rs : r.cp = c.o.cp /\ r.byte = c.o.byte /\ c.o.msg \in ErrMsg(r.e) THEN ""
       ELSE "the error may be one of " \o ToString(rs) \o " but it was cp=" \o ToString(c.o.cp)
            \o " byte=" \o ToString(c.o.byte) \o " " \o c.o.msg
     ELSE IF c.o.ret # 0 THEN "rejected, but it is well-formed"
     ELSE IF c.check # "structure" THEN ""
     ELSE IF RunSegs(PAst(x4.s.p).segs) # LinSegs(t2, t3, 4) \/ RunSegs(PAst(x5.s.p).segs) # LinSegs(t2, t3, 5) THEN "machinery: not regular"
     ELSE IF c.o.ast.segs # st THEN "the structure should be, in runs of equal elements, " \o ToString(st)
     ELSE IF c.o.ast.sum # RunSum(st, 1) THEN "the sum of the weights should be " \o ToString(RunSum(st, 1))
     ELSE ""

Judge(c) == CASE c.kind = "n" -> JudgeN(c) [] c.kind = "b" -> JudgeB(c) [] c.kind = "u" -> JudgeU(c) [] c.kind = "t" -> JudgeT(c)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
