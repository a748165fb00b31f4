---------------------------- MODULE MC_Wordlist -----------------------------
(* Over all small files: the two definitions of the words of a file agree; no
   word is empty or holds a line end; a final newline, blank lines and what
   follows a NUL make no difference; joining the words gives the file.       *)
EXTENDS Wordlist, TLC
CONSTANTS Alphabet, MaxLen
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E c \in Alphabet : b' = Append(b, c)
Spec == Init /\ [][Next]_b
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o <<10>> \o Join(Tail(ws))
Same == Words(b) = Lines(b)
Clean == \A k \in 1..Len(Words(b)) : Words(b)[k] # <<>> /\ \A j \in 1..Len(Words(b)[k]) : Words(b)[k][j] \notin {0, 10}
Final == Words(Append(b, 10)) = Words(b)
Cut == \A c \in Alphabet : Words(b \o <<0, c>>) = Words(b)
Blank == Words(<<10>> \o b) = Words(b)
Again == Words(Join(Words(b))) = Words(b)
=============================================================================
