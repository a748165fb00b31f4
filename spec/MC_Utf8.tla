------------------------------ MODULE MC_Utf8 -------------------------------
(* Model checking of the codec: over all byte strings up to MaxLen from the
   bytes at which anything changes, the byte-wise decoder accepts exactly the
   concatenations of encodings of scalar values (so decode and encode are
   inverse), whatever the limit on the output; and every scalar value at a
   boundary is encoded uniquely.                                             *)
EXTENDS Utf8, FiniteSets
CONSTANTS MaxLen
Bytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}

VARIABLES s, d, cps, bad
Init == s = <<>> /\ d = DInit /\ cps = <<>> /\ bad = FALSE
Next == /\ Len(s) < MaxLen
        /\ \E b \in Bytes :
             /\ s' = Append(s, b)
             /\ IF bad THEN UNCHANGED <<d, cps, bad>>
                ELSE LET r == DStep(d, b)
                     IN /\ bad' = (r.t = "bad") /\ d' = r.d
                        /\ cps' = IF r.t = "cp" THEN Append(cps, r.cp) ELSE cps
Spec == Init /\ [][Next]_<<s, d, cps, bad>>

\* declaratively: s is a sequence of encodings
Cuts(x) == {k \in 1..4 : k <= Len(x)}
Value(x) == CASE Len(x) = 1 -> x[1]
              [] Len(x) = 2 -> (x[1] - 192) * 64 + (x[2] - 128)
              [] Len(x) = 3 -> (x[1] - 224) * 4096 + (x[2] - 128) * 64 + (x[3] - 128)
              [] Len(x) = 4 -> (x[1] - 240) * 262144 + (x[2] - 128) * 4096 + (x[3] - 128) * 64 + (x[4] - 128)
IsEnc(x) == Scalar(Value(x)) /\ Encode1(Value(x)) = x
RECURSIVE Valid(_)
Valid(x) == x = <<>> \/ \E k \in Cuts(x) : IsEnc(SubSeq(x, 1, k)) /\ Valid(SubSeq(x, k + 1, Len(x)))

Exact == Valid(s) <=> (~bad /\ d.pre = <<>>)
Inverse == (~bad /\ d.pre = <<>>) => Encode(cps) = s
Scalars == \A k \in 1..Len(cps) : Scalar(cps[k])
Bounded == \A lim \in 0..Len(s) :
  LET r == Decode(s, lim)
  IN /\ Len(r.cps) <= lim /\ r.used <= Len(s)
     /\ Encode(r.cps) = SubSeq(s, 1, r.used)
     /\ (r.r = "ok" => r.used = Len(s))
     /\ (r.r = "size" => Len(r.cps) = lim)
=============================================================================
