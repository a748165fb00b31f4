-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 as the Unicode standard defines it (table 3-7 of well-formed byte
   sequences), and the buffer protocol of the codec.                         *)
EXTENDS Integers, Sequences

Scalar(cp) == (cp >= 0 /\ cp <= 55295) \/ (cp >= 57344 /\ cp <= 1114111)

Width(cp) == IF cp < 128 THEN 1 ELSE IF cp < 2048 THEN 2 ELSE IF cp < 65536 THEN 3 ELSE 4

\* the unique encoding of a scalar value
Encode1(cp) ==
  CASE Width(cp) = 1 -> <<cp>>
    [] Width(cp) = 2 -> <<192 + cp \div 64, 128 + (cp % 64)>>
    [] Width(cp) = 3 -> <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
    [] Width(cp) = 4 -> <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64),
                          128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

RECURSIVE Encode(_)
Encode(cps) == IF cps = <<>> THEN <<>> ELSE Encode1(Head(cps)) \o Encode(Tail(cps))

(* Number of bytes of the sequence announced by a first byte (0: none), and
   the values allowed for each continuation byte.                            *)
Need(b) == IF b <= 127 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b < 224 THEN 2
           ELSE IF b < 240 THEN 3 ELSE IF b < 245 THEN 4 ELSE 0
Allowed(first, k, b) ==
  IF k = 2 THEN
    CASE first = 224 -> b \in 160..191
      [] first = 237 -> b \in 128..159
      [] first = 240 -> b \in 144..191
      [] first = 244 -> b \in 128..143
      [] OTHER -> b \in 128..191
  ELSE b \in 128..191

(* One step of a byte-wise decoder: d = [pre: bytes of the sequence under way,
   need: how many it has in total]. Yields the new state, "cp", or "bad".     *)
DInit == [pre |-> <<>>, need |-> 0]
DStep(d, b) ==
  IF d.pre = <<>>
  THEN IF Need(b) = 0 THEN [t |-> "bad", d |-> d, cp |-> 0]
       ELSE IF Need(b) = 1 THEN [t |-> "cp", d |-> DInit, cp |-> b]
       ELSE [t |-> "more", d |-> [pre |-> <<b>>, need |-> Need(b)], cp |-> 0]
  ELSE IF ~Allowed(d.pre[1], Len(d.pre) + 1, b) THEN [t |-> "bad", d |-> d, cp |-> 0]
       ELSE LET s == Append(d.pre, b)
            IN IF Len(s) < d.need THEN [t |-> "more", d |-> [pre |-> s, need |-> d.need], cp |-> 0]
               ELSE [t |-> "cp", d |-> DInit,
                     cp |-> CASE d.need = 2 -> (s[1] - 192) * 64 + (s[2] - 128)
                              [] d.need = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + (s[3] - 128)
                              [] d.need = 4 -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096
                                               + (s[3] - 128) * 64 + (s[4] - 128)]

(* The decoder with a bounded output: r = "ok" (everything converted), "size"
   (output full first), "bad"; cps/w converted codepoints with their widths;
   used = bytes they occupy.                                                 *)
RECURSIVE DecodeRun(_, _, _, _, _)
DecodeRun(bytes, i, lim, d, acc) ==
  IF i > Len(bytes) THEN
    [r |-> IF d.pre = <<>> THEN "ok" ELSE "bad", cps |-> acc.cps, w |-> acc.w, used |-> i - 1 - Len(d.pre)]
  ELSE IF Len(acc.cps) >= lim THEN
    [r |-> "size", cps |-> acc.cps, w |-> acc.w, used |-> i - 1]
  ELSE LET s == DStep(d, bytes[i])
       IN CASE s.t = "bad" -> [r |-> "bad", cps |-> acc.cps, w |-> acc.w, used |-> i - 1 - Len(d.pre)]
            [] s.t = "more" -> DecodeRun(bytes, i + 1, lim, s.d, acc)
            [] s.t = "cp" -> DecodeRun(bytes, i + 1, lim, s.d,
                               [cps |-> Append(acc.cps, s.cp), w |-> Append(acc.w, Len(d.pre) + 1)])
Decode(bytes, lim) == DecodeRun(bytes, 1, lim, DInit, [cps |-> <<>>, w |-> <<>>])

\* everything, without a limit on the output
DecodeAll(bytes) == Decode(bytes, Len(bytes) + 1)
=============================================================================
