------------------------------- MODULE Tokens -------------------------------
(* The tokenizer: groups codepoints into tokens.
   State: st  "init" | "esc" (after a backslash) | "u" (after \u) |
              "payload" (inside \u{...}) | an error, which persists
          len, val   digits read so far in a Unicode literal
          off, boff  codepoints and bytes consumed
          soff, sboff  start of the token under way                           *)
EXTENDS Integers, Sequences

Errors == {"err_start", "err_payload", "err_len"}
TInit == [st |-> "init", len |-> 0, val |-> 0, off |-> 0, boff |-> 0, soff |-> 0, sboff |-> 0]

NoTok == [esc |-> 0, cp |-> -1]
HexVal(c) == IF c \in 48..57 THEN c - 48
             ELSE IF c \in 65..70 THEN c - 55
             ELSE IF c \in 97..102 THEN c - 87 ELSE -1

\* \a \b \e \f \n \r \t \v \\ stand for plain characters
Control(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 101 -> 27 [] c = 102 -> 12
                [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11
                [] c = 92 -> 92 [] OTHER -> -1

(* Feed one codepoint of the given width. Result: new state, and the token
   that is now complete (NoTok if there is none).                             *)
TFeed(t, cp, width) ==
  LET adv(u) == [u EXCEPT !.off = @ + 1, !.boff = @ + width]
      mark   == [t EXCEPT !.soff = t.off, !.sboff = t.boff]
      res(u, tok) == [t |-> adv(u), tok |-> tok]
      err(e) == [t |-> adv([t EXCEPT !.st = e]), tok |-> NoTok]
  IN CASE t.st \in Errors -> [t |-> t, tok |-> NoTok]
       [] t.st = "init" ->
            IF cp = 92 THEN res([mark EXCEPT !.st = "esc"], NoTok)
            ELSE res(mark, [esc |-> 0, cp |-> cp])
       [] t.st = "esc" ->
            IF cp = 117 THEN res([t EXCEPT !.st = "u"], NoTok)
            ELSE IF Control(cp) >= 0 THEN res([t EXCEPT !.st = "init"], [esc |-> 0, cp |-> Control(cp)])
            ELSE res([t EXCEPT !.st = "init"], [esc |-> 1, cp |-> cp])
       [] t.st = "u" ->
            IF cp = 123 THEN res([t EXCEPT !.st = "payload", !.len = 0, !.val = 0], NoTok)
            ELSE err("err_start")
       [] t.st = "payload" ->
            IF cp = 125 THEN
              IF t.val > 1114111 THEN err("err_payload")
              ELSE res([t EXCEPT !.st = "init"], [esc |-> 0, cp |-> t.val])
            ELSE IF t.len = 6 THEN err("err_len")
            ELSE IF HexVal(cp) < 0 THEN err("err_payload")
            ELSE res([t EXCEPT !.len = @ + 1, !.val = @ * 16 + HexVal(cp)], NoTok)
=============================================================================
