------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as little-endian sequences of base-256 digits
   without leading zeroes (<<>> is zero). TLC's integers have 32 bits, the
   implementation's numbers have 64 and the products of choices more.       *)
EXTENDS Integers, Sequences

RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

BZero == <<>>
BOne  == <<1>>

RECURSIVE BFromInt(_)
BFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BFromInt(n \div 256)

\* only for values below 2^31
RECURSIVE BToInt(_)
BToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * BToInt(Tail(a))

\* does the value fit into TLC's integers?
BSmall(a) == Len(a) <= 3 \/ (Len(a) = 4 /\ a[4] < 128)

BDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BMax2(x, y) == IF x > y THEN x ELSE y

RECURSIVE BAddFrom(_, _, _, _)
BAddFrom(a, b, i, c) ==
  IF i > BMax2(Len(a), Len(b))
  THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == BDigit(a, i) + BDigit(b, i) + c
       IN <<s % 256>> \o BAddFrom(a, b, i + 1, s \div 256)
BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE BAddFrom(a, b, 1, 0)

\* a >= b required
RECURSIVE BSubFrom(_, _, _, _)
BSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - BDigit(b, i) - c
       IN IF d < 0 THEN <<d + 256>> \o BSubFrom(a, b, i + 1, 1)
                   ELSE <<d>> \o BSubFrom(a, b, i + 1, 0)
BSub(a, b) == BTrim(BSubFrom(a, b, 1, 0))

RECURSIVE BLessFrom(_, _, _)
BLessFrom(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLessFrom(a, b, i - 1)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLessFrom(a, b, Len(a))
BLeq(a, b) == ~BLess(b, a)

\* a * small + carry, small <= 2^20
RECURSIVE BScaleFrom(_, _, _, _)
BScaleFrom(a, k, i, c) ==
  IF i > Len(a) THEN BFromInt(c)
  ELSE LET s == a[i] * k + c IN <<s % 256>> \o BScaleFrom(a, k, i + 1, s \div 256)
BScaleAdd(a, k, c) == IF k = 0 THEN BFromInt(c) ELSE BTrim(BScaleFrom(a, k, 1, c))
BScale(a, k) == BScaleAdd(a, k, 0)

RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET rest == BMulFrom(a, b, i + 1)
           low  == BScale(a, b[i])
       IN BAdd(low, IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BTrim(BMulFrom(a, b, 1))

\* a * 2^n
BShift(a, n) ==
  IF a = <<>> THEN <<>>
  ELSE [i \in 1..(n \div 8) |-> 0] \o BScale(a, 2 ^ (n % 8))

\* bits of one byte
RECURSIVE AndByte(_, _, _)
AndByte(x, y, w) ==
  IF w = 0 THEN 0
  ELSE (x % 2) * (y % 2) + 2 * AndByte(x \div 2, y \div 2, w - 1)
BAndByte(x, y) == IF y = 255 THEN x ELSE IF y = 0 THEN 0 ELSE AndByte(x, y, 8)

\* smallest 2^k - 1 >= x for a byte
SmearByte(x) ==
  IF x = 0 THEN 0 ELSE IF x = 1 THEN 1 ELSE IF x < 4 THEN 3 ELSE IF x < 8 THEN 7
  ELSE IF x < 16 THEN 15 ELSE IF x < 32 THEN 31 ELSE IF x < 64 THEN 63
  ELSE IF x < 128 THEN 127 ELSE 255
=============================================================================
