-------------------------------- MODULE Json8 --------------------------------
(* RFC 8259 strings and documents over bytes, independent of how they are
   written: JStr reads a string body and gives its codepoints.               *)
EXTENDS Integers, Sequences, Utf8

LOCAL Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
LOCAL Quad(b, i) == \* four hex digits from i, or -1
  IF i + 3 > Len(b) \/ \E k \in 0..3 : Hex(b[i + k]) < 0 THEN -1
  ELSE ((Hex(b[i]) * 16 + Hex(b[i + 1])) * 16 + Hex(b[i + 2])) * 16 + Hex(b[i + 3])
LOCAL Short(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
                    [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
JBad == [ok |-> FALSE, cps |-> <<>>, end |-> 0]

(* Codepoints of a string body from position i, up to the end of b or, when
   quoted, the closing quote. end: position after it.                        *)
RECURSIVE JFrom(_, _, _, _)
JFrom(b, i, quoted, acc) ==
  IF i > Len(b) THEN IF quoted THEN JBad ELSE [ok |-> TRUE, cps |-> acc, end |-> i]
  ELSE IF b[i] = 34 THEN IF quoted THEN [ok |-> TRUE, cps |-> acc, end |-> i + 1] ELSE JBad
  ELSE IF b[i] < 32 THEN JBad
  ELSE IF b[i] = 92 THEN
    IF i = Len(b) THEN JBad
    ELSE IF Short(b[i + 1]) >= 0 THEN JFrom(b, i + 2, quoted, Append(acc, Short(b[i + 1])))
    ELSE IF b[i + 1] # 117 THEN JBad
    ELSE LET q == Quad(b, i + 2)
         IN IF q < 0 THEN JBad
            ELSE IF q \in 55296..56319 /\ i + 7 <= Len(b) /\ b[i + 6] = 92 /\ b[i + 7] = 117 /\ Quad(b, i + 8) \in 56320..57343
                 THEN JFrom(b, i + 12, quoted, Append(acc, 65536 + (q - 55296) * 1024 + (Quad(b, i + 8) - 56320)))
            ELSE IF q \in 55296..57343 THEN JBad
            ELSE JFrom(b, i + 6, quoted, Append(acc, q))
  ELSE LET n == Need(b[i])
       IN IF n = 0 \/ i + n - 1 > Len(b) THEN JBad
          ELSE LET d == Decode(SubSeq(b, i, i + n - 1), 1)
               IN IF d.r # "ok" THEN JBad ELSE JFrom(b, i + n, quoted, Append(acc, d.cps[1]))
JBody(b) == JFrom(b, 1, FALSE, <<>>)

RECURSIVE Ws(_, _)
Ws(b, i) == IF i <= Len(b) /\ b[i] \in {32, 9, 10, 13} THEN Ws(b, i + 1) ELSE i
LOCAL Dig(b, i) == i <= Len(b) /\ b[i] \in 48..57
RECURSIVE Digs(_, _)
Digs(b, i) == IF Dig(b, i) THEN Digs(b, i + 1) ELSE i
\* a number without exponent from i: position after it, or 0
JNum(b, i) ==
  LET j == IF i <= Len(b) /\ b[i] = 45 THEN i + 1 ELSE i
  IN IF ~Dig(b, j) THEN 0
     ELSE LET k == IF b[j] = 48 THEN j + 1 ELSE Digs(b, j)
          IN IF k <= Len(b) /\ b[k] = 46 THEN IF Dig(b, k + 1) THEN Digs(b, k + 1) ELSE 0 ELSE k

(* An object with string or number members, from i: end (0: not one) and the
   members [name, str?, cps, num]                                             *)
ObjBad == [end |-> 0, m |-> <<>>]
RECURSIVE Members(_, _, _)
Members(b, i0, acc) ==
  LET i == Ws(b, i0)
  IN IF i > Len(b) \/ b[i] # 34 THEN ObjBad
     ELSE LET k == JFrom(b, i + 1, TRUE, <<>>)
          IN IF ~k.ok THEN ObjBad
             ELSE LET c == Ws(b, k.end)
                  IN IF c > Len(b) \/ b[c] # 58 THEN ObjBad
                     ELSE LET v == Ws(b, c + 1)
                              str == v <= Len(b) /\ b[v] = 34
                              s == IF str THEN JFrom(b, v + 1, TRUE, <<>>) ELSE JBad
                              e == IF str THEN (IF s.ok THEN s.end ELSE 0) ELSE JNum(b, v)
                              m == [name |-> k.cps, str |-> str, cps |-> s.cps, num |-> IF str \/ e = 0 THEN <<>> ELSE SubSeq(b, v, e - 1)]
                          IN IF e = 0 THEN ObjBad
                             ELSE LET n == Ws(b, e)
                                  IN IF n > Len(b) THEN ObjBad
                                     ELSE IF b[n] = 44 THEN Members(b, n + 1, Append(acc, m))
                                     ELSE IF b[n] = 125 THEN [end |-> n + 1, m |-> Append(acc, m)]
                                     ELSE ObjBad
Obj(b, i) == IF i > Len(b) \/ b[i] # 123 THEN ObjBad ELSE Members(b, i + 1, <<>>)

\* an array of objects that is the whole of b: [ok, a]
RECURSIVE Elems(_, _, _)
Elems(b, i0, acc) ==
  LET i == Ws(b, i0)
      o == Obj(b, i)
  IN IF o.end = 0 THEN [ok |-> FALSE, a |-> acc]
     ELSE LET n == Ws(b, o.end)
          IN IF n > Len(b) THEN [ok |-> FALSE, a |-> acc]
             ELSE IF b[n] = 44 THEN Elems(b, n + 1, Append(acc, o.m))
             ELSE IF b[n] = 93 /\ Ws(b, n + 1) = Len(b) + 1 THEN [ok |-> TRUE, a |-> Append(acc, o.m)]
             ELSE [ok |-> FALSE, a |-> acc]
JDoc(b) ==
  LET i == Ws(b, 1)
  IN IF i > Len(b) \/ b[i] # 91 THEN [ok |-> FALSE, a |-> <<>>]
     ELSE LET e == Ws(b, i + 1)
          IN IF e <= Len(b) /\ b[e] = 93 THEN [ok |-> Ws(b, e + 1) = Len(b) + 1, a |-> <<>>]
             ELSE Elems(b, i + 1, <<>>)
=============================================================================
