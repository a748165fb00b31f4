------------------------------- MODULE MC_Json ------------------------------
(* Model checking of the JSON form: over all strings up to MaxLen from the
   characters that need care, the specified writer's output is read back by the
   independent reader as the same string, also quoted inside of a document, and
   never contains an unescaped quote or control character.                   *)
EXTENDS Gen
J == INSTANCE Json8
CONSTANTS MaxLen
Alphabet == {0, 8, 9, 10, 12, 13, 31, 32, 34, 47, 92, 98, 117, 48, 127, 128, 8232, 65535, 65536, 1114111}
VARIABLES s, out
Init == s = <<>> /\ out = <<>>
Next == /\ Len(s) < MaxLen
        /\ \E c \in Alphabet : s' = Append(s, c) /\ out' = out \o JsonChar(c)
Spec == Init /\ [][Next]_<<s, out>>
RoundTrip == LET d == J!JBody(out) IN d.ok /\ d.cps = s
Quote == <<34>>
Doc == LET d == J!JDoc(<<91, 123>> \o <<34, 111, 34, 58>> \o Quote \o out \o Quote \o <<44, 34, 101, 34, 58, 49, 46, 53>> \o <<125, 93, 10>>)
       IN /\ d.ok /\ Len(d.a) = 1 /\ Len(d.a[1]) = 2
          /\ d.a[1][1].str /\ d.a[1][1].cps = s /\ ~d.a[1][2].str
Clean == \A k \in 1..Len(out) : out[k] >= 32
=============================================================================
