------------------------------- MODULE T_Tok --------------------------------
(* Trace validation of the tokenizer: one event per codepoint fed.           *)
EXTENDS Tokens, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

Msg(st) == CASE st \in {"err_start", "err_payload"} -> "unexpected character while parsing unicode literal"
             [] st = "err_len" -> "unicode literal payload too long"

RECURSIVE Follow(_, _, _)
Follow(t, c, k) ==
  IF k > Len(c.cps) THEN
    IF t.st \in Errors /\ c.o.msg # Msg(t.st) THEN "the error should be described as " \o Msg(t.st) ELSE ""
  ELSE LET r == TFeed(t, c.cps[k], c.w[k])
           e == c.o.ev[k]
           fine == IF r.t.st \in Errors THEN e.ret < 0
                   ELSE IF r.tok.cp < 0 THEN e.ret > 0
                   ELSE /\ e.ret = 0 /\ e.cp = r.tok.cp /\ e.esc = r.tok.esc
                        /\ e.off = r.t.soff /\ e.boff = r.t.sboff
       IN IF fine THEN Follow(r.t, c, k + 1)
          ELSE "event " \o ToString(k) \o " should be " \o ToString(r)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET why == Follow(TInit, Cases[i], 1)
           IN PrintT(IF why = "" THEN "@@ok " \o ToString(i) ELSE "@@bad " \o ToString(i) \o " " \o why)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
