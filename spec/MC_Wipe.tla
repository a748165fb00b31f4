------------------------------ MODULE MC_Wipe ------------------------------
(* Every history of up to Max handles in memory with few blocks. *)
EXTENDS Wipe
CONSTANTS Max, Blks
VARIABLE s
Init == s = WInit(1..Blks)
Open(kind, where) == s.next <= Max /\ s' \in Opens(s, kind, where)
Use(l) == s' = Uses(s, l)
End(l) == s' = Ends(s, l)
Next == (\E k \in DOMAIN Kinds, w \in {"caller", "heap"}: Open(k, w)) \/ (\E l \in s.live: Use(l) \/ End(l))
Spec == Init /\ [][Next]_s

NothingInFree == \A b \in s.free: s.mem[b] = 0
NothingInClosed == (\A l \in s.live: l.hb # Caller) => s.mem[Caller] = 0
NothingShown == s.seen = {}
OwnOnly == \A l \in s.live: s.mem[l.hb] = l.no /\ (l.sb # 0 => s.mem[l.sb] = l.no)
Apart == \A l, m \in s.live: l # m => {l.hb, l.sb} \cap {m.hb, m.sb} \subseteq {0}
=============================================================================
