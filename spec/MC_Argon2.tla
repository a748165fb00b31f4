------------------------------ MODULE MC_Argon2 -----------------------------
(* Known answers: RFC 7693 appendix A and RFC 9106 section 5.3.              *)
EXTENDS Argon2, TLC
Rep(n, x) == [i \in 1..n |-> x]
ASSUME SubSeq(Blake(<<97, 98, 99>>, 64), 1, 8) = <<186, 128, 165, 63, 152, 28, 77, 13>>
ASSUME SubSeq(Blake(<<97, 98, 99>>, 64), 61, 64) = <<212, 0, 153, 35>>
Answers == <<
  <<81, 43, 57, 27, 111, 17, 98, 151, 83, 113, 211, 9, 25, 115, 66, 148, 248, 104, 227, 190, 57, 132, 243, 193, 161, 58, 77, 185, 250, 190, 74, 203>>,
  <<200, 20, 217, 209, 220, 127, 55, 170, 19, 240, 215, 127, 36, 148, 189, 161, 200, 222, 107, 1, 109, 211, 136, 210, 153, 82, 164, 196, 103, 43, 108, 232>>,
  <<13, 100, 13, 245, 141, 120, 118, 108, 8, 192, 55, 163, 74, 139, 83, 201, 208, 30, 240, 69, 45, 117, 182, 94, 181, 37, 32, 233, 107, 1, 230, 89>>>>
Answer(y) == Argon2(y, Rep(32, 1), Rep(16, 2), Rep(8, 3), Rep(12, 4), 32, 3, 4, 32) = Answers[y + 1]
(* The inputs are told apart: over all triples of short strings of two
   characters, what is hashed first is different for each.                   *)
Strings == {<<>>} \cup {<<a>> : a \in {58, 97}} \cup {<<a, b>> : a \in {58, 97}, b \in {58, 97}}
Triples == Strings \X Strings \X Strings
VARIABLE a
\* (the answers are states of their own, so that they are computed in parallel)
Init == a \in Triples \cup {<<0>>, <<1>>, <<2>>}
Next == UNCHANGED a /\ (Len(a) = 1 => Assert(Answer(a[1]), <<"not the published answer of variant", a[1]>>))
Spec == Init /\ [][Next]_a
In(t) == Inputs(2, t[1], <<112>>, t[2], t[3], 8, 8, 1, 32)
Injective == Len(a) = 3 => \A b \in Triples : b # a => In(a) # In(b)
=============================================================================
