------------------------------- MODULE T_Utf8 -------------------------------
(* Trace validation of the UTF-8 codec. kinds:
     "d"  decode with an output limit      "e"  encode into a buffer
     "r"  encode single codepoints lo, lo+1, ..: for each the length and bytes
     "R"  decode the concatenated encodings of all scalar values in a range   *)
EXTENDS Utf8, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

SubBytes(b, i, j) == SubSeq(b, i + 1, j)

JudgeD(c) ==
  LET d == Decode(c.bytes, c.lim)
  IN IF /\ c.o.ret = (CASE d.r = "ok" -> 0 [] d.r = "size" -> 1 [] d.r = "bad" -> -1)
        /\ c.o.nout = Len(d.cps) /\ c.o.nin = d.used /\ c.o.cps = d.cps
        /\ (c.widths = 0 \/ c.o.w = d.w)
     THEN "" ELSE "should be " \o ToString(d)

\* pos0, ip0: positions before the call; the buffer was filled with 170
JudgeE(c) ==
  LET n == Len(c.cps)
      conv == SubSeq(c.cps, c.ip0 + 1, c.o.inpos)
  IN IF c.o.inpos < c.ip0 \/ c.o.inpos > n \/ c.o.outpos < c.op0 \/ (c.o.outpos > c.lim /\ c.o.outpos # c.op0)
     THEN "positions outside of the buffers"
     ELSE IF \E i \in 1..Len(conv) : ~Scalar(conv[i]) THEN "converted something that is not a scalar value"
     ELSE IF c.o.outpos > c.op0 /\ SubBytes(c.o.buf, c.op0, c.o.outpos) # Encode(conv) THEN "the bytes are not the encoding of the prefix " \o ToString(conv)
     ELSE IF c.o.outpos - c.op0 # Len(Encode(conv)) THEN "the output position does not fit the input position"
     ELSE IF c.op0 <= c.lim /\ \E i \in 1..c.op0 : c.o.buf[i] # 170 THEN "changed bytes before its position"
     ELSE IF c.o.ret = 0 THEN
            IF c.o.inpos # n THEN "success, but not all was converted"
            ELSE IF c.o.outpos < c.lim /\ c.o.buf[c.o.outpos + 1] # 0 THEN "not terminated"
            ELSE ""
     ELSE IF c.o.ret > 0 THEN
            IF c.o.inpos < n /\ c.lim - c.o.outpos <= 4 THEN "" ELSE "claims too little space"
     ELSE IF c.o.inpos < n /\ ~Scalar(c.cps[c.o.inpos + 1]) THEN "" ELSE "rejected a scalar value"

RECURSIVE JudgeR(_, _, _, _)
\* the flat list holds, for each codepoint, the length (0: refused) and bytes
JudgeR(flat, k, cp, hi) ==
  IF cp > hi THEN IF k = Len(flat) + 1 THEN "" ELSE "wrong number of bytes"
  ELSE IF k > Len(flat) THEN "wrong number of bytes"
  ELSE IF ~Scalar(cp) THEN IF flat[k] = 0 THEN JudgeR(flat, k + 1, cp + 1, hi) ELSE ToString(cp) \o " is not a scalar value"
  ELSE IF flat[k] = Width(cp) /\ SubSeq(flat, k + 1, k + flat[k]) = Encode1(cp)
       THEN JudgeR(flat, k + 1 + flat[k], cp + 1, hi)
       ELSE ToString(cp) \o " should be " \o ToString(Encode1(cp))

Judge(c) == CASE c.kind = "d" -> JudgeD(c) [] c.kind = "e" -> JudgeE(c)
              [] c.kind = "r" -> JudgeR(c.o.flat, 1, c.lo, c.hi)
              [] c.kind = "R" -> IF /\ c.o.ret = 0 /\ c.o.cps = [i \in 1..(c.hi - c.lo + 1) |-> c.lo + i - 1]
                                    /\ c.o.w = [i \in 1..(c.hi - c.lo + 1) |-> Width(c.lo + i - 1)]
                                 THEN "" ELSE "the range is not decoded to itself"

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Judge(Cases[i])
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
