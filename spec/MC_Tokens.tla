----------------------------- MODULE MC_Tokens ------------------------------
(* Model checking of the tokenizer: over all strings of codepoints up to a
   length, tokens tile the input, errors persist, positions are those of the
   first character, and the tokens agree with a declarative reading of the
   string (which parts are escapes and literals).                            *)
EXTENDS Tokens
CONSTANTS MaxLen
\* character and width
Alphabet == {<<97, 1>>, <<92, 1>>, <<117, 1>>, <<123, 1>>, <<125, 1>>, <<49, 1>>, <<70, 1>>, <<110, 1>>, <<233, 2>>}

VARIABLES s, t, toks
Init == s = <<>> /\ t = TInit /\ toks = <<>>
Next == /\ Len(s) < MaxLen
        /\ \E c \in Alphabet :
             LET r == TFeed(t, c[1], c[2])
             IN /\ s' = Append(s, c) /\ t' = r.t
                /\ toks' = IF r.tok.cp < 0 THEN toks
                           ELSE Append(toks, [tok |-> r.tok, off |-> r.t.soff, boff |-> r.t.sboff, end |-> r.t.off])
Spec == Init /\ [][Next]_<<s, t, toks>>

RECURSIVE Bytes(_)
Bytes(x) == IF x = <<>> THEN 0 ELSE x[1][2] + Bytes(Tail(x))

RECURSIVE HexNum(_, _, _)
HexNum(x, i, j) == IF i > j THEN 0 ELSE HexNum(x, i, j - 1) * 16 + HexVal(x[j][1])

\* the token written by the whole of x, or NoTok
Reads(x) ==
  LET n == Len(x)
  IN IF n = 1 /\ x[1][1] # 92 THEN [esc |-> 0, cp |-> x[1][1]]
     ELSE IF n = 2 /\ x[1][1] = 92 /\ x[2][1] # 117
          THEN IF Control(x[2][1]) >= 0 THEN [esc |-> 0, cp |-> Control(x[2][1])] ELSE [esc |-> 1, cp |-> x[2][1]]
     ELSE IF /\ n \in 4..10 /\ x[1][1] = 92 /\ x[2][1] = 117 /\ x[3][1] = 123 /\ x[n][1] = 125
             /\ (\A k \in 4..n - 1 : HexVal(x[k][1]) >= 0) /\ HexNum(x, 4, n - 1) <= 1114111
          THEN [esc |-> 0, cp |-> HexNum(x, 4, n - 1)]
     ELSE NoTok

Start(k) == IF k = 1 THEN 0 ELSE toks[k - 1].end
Tiled == /\ \A k \in 1..Len(toks) :
              /\ toks[k].off = Start(k)
              /\ toks[k].boff = Bytes(SubSeq(s, 1, Start(k)))
              /\ toks[k].tok = Reads(SubSeq(s, Start(k) + 1, toks[k].end))
         /\ t.st = "init" => Start(Len(toks) + 1) = Len(s)
\* what is left over is the beginning of a token unless there was an error
Pending == t.st \notin Errors => (t.st = "init" \/ t.soff = Start(Len(toks) + 1))
Persist == [][t.st \in Errors => (t'.st = t.st /\ toks' = toks)]_<<s, t, toks>>
=============================================================================
