-------------------------------- MODULE Wipe -------------------------------
(* The life of the secrets of randomness handles (C22).

   Memory is a set of blocks. A handle lives in one block (the caller's, or one
   taken from the heap), the state of its generator - key, counter, seed - in
   another, and opening a handle from a passphrase needs a workspace for a while.
   Each block holds "nothing", or the secrets of the handle (by its number) that
   last used it. The promise is that a block that is given back holds nothing, and
   that the caller's block holds nothing once the handle in it is closed; so no
   handle that is opened later in the same memory shows anything of an earlier one.

   A handle is [no, where, hb, sb]: its number, "caller" or "heap", and the blocks
   of the handle and of its state (0 if the source has none).                  *)
EXTENDS Naturals, Sequences, FiniteSets

Caller == 1                 \* the caller's block

(* What a source of each kind needs. *)
Kinds == [xorshift |-> [state |-> TRUE,  work |-> FALSE],
          chacha   |-> [state |-> TRUE,  work |-> FALSE],     \* key given
          argon2   |-> [state |-> TRUE,  work |-> TRUE],      \* chacha20 with a derived key
          zero     |-> [state |-> FALSE, work |-> FALSE],
          file     |-> [state |-> FALSE, work |-> FALSE],
          system   |-> [state |-> FALSE, work |-> FALSE]]

(* mem: block -> number of the handle whose secrets it holds, 0 for none.
   free: blocks of the heap not in use. live: handles.                         *)
WInit(blocks) == [mem |-> [b \in blocks |-> 0], free |-> blocks \ {Caller}, live |-> {}, next |-> 1, seen |-> {}]

Handle(where, h, s, n) == [no |-> n, where |-> where, hb |-> h, sb |-> s]

(* What opening shows of earlier handles: `seen' collects it. *)
Opens(s, kind, where) ==
  LET k == Kinds[kind]
      hbs == IF where = "caller" THEN (IF \E l \in s.live: l.hb = Caller THEN {} ELSE {Caller}) ELSE s.free
  IN {LET sb == c.sb
          used == ({c.hb, c.sb} \ {0}) 
          shows == {s.mem[b]: b \in used \cup ({c.wb} \ {0})} \ {0}
      IN [s EXCEPT !.mem = [b \in DOMAIN s.mem |-> IF b \in used THEN s.next ELSE IF b = c.wb THEN 0 ELSE s.mem[b]],
                   !.free = @ \ used,
                   !.live = @ \cup {Handle(where, c.hb, sb, s.next)},
                   !.next = @ + 1,
                   !.seen = @ \cup shows]
      : c \in {c \in [hb: hbs, sb: IF k.state THEN s.free ELSE {0}, wb: IF k.work THEN s.free ELSE {0}]:
                 /\ c.hb # c.sb /\ (c.wb # 0 => c.wb \notin {c.hb, c.sb})}}

(* Drawing moves secrets around within the handle only. *)
Uses(s, l) == [s EXCEPT !.mem[l.hb] = l.no]

(* Closing and freeing: both blocks are cleared before they are given back. *)
Ends(s, l) ==
  [s EXCEPT !.mem = [b \in DOMAIN s.mem |-> IF b \in {l.hb, l.sb} THEN 0 ELSE s.mem[b]],
            !.free = @ \cup ({l.hb, l.sb} \ {0, Caller}),
            !.live = @ \ {l}]

(* What must be seen of it from outside, for one handle after the other.
   An observation o of an event has: ok, nz, hits and the released blocks rel,
   each with who, n, nz, hits. "hits" counts pieces of secrets known at that time,
   "nz" bytes that are not zero.                                               *)
Clean(b) == b.nz = 0 /\ b.hits = 0
Blocks(o, who) == {i \in 1..Len(o.rel): o.rel[i].who = who}
NoSecret(o) == \A i \in 1..Len(o.rel): o.rel[i].hits = 0
Workspace == 8192           \* bytes; what the memory-hard derivation fills

OpenShows(kind, ok, o) ==
  CASE o.ok # ok -> "opened or refused wrongly"
    [] o.hits # 0 -> "the new handle shows secrets of an earlier one"
    [] ~NoSecret(o) -> "opening released memory with secrets in it"
    [] kind = "argon2" /\ (\E i \in 1..Len(o.rel): o.rel[i].n >= Workspace /\ ~Clean(o.rel[i])) -> "the workspace of the derivation was released with its contents"
    [] OTHER -> ""
UseShows(o) == IF NoSecret(o) THEN "" ELSE "drawing released memory with secrets in it"
EndShows(kind, where, o) ==
  CASE o.nz # 0 \/ o.hits # 0 -> "the closed handle still holds " \o (IF o.hits = 0 THEN "data" ELSE "secrets")
    [] Kinds[kind].state /\ o.kept = 1 /\ Blocks(o, "state") = {} -> "the state of the generator was not released"
    [] \E i \in Blocks(o, "state"): ~Clean(o.rel[i]) -> "the state of the generator was released with its contents"
    [] where = "heap" /\ Blocks(o, "handle") = {} -> "the handle was not released"
    [] \E i \in Blocks(o, "handle"): ~Clean(o.rel[i]) -> "the handle was released with its contents"
    [] ~NoSecret(o) -> "memory was released with secrets in it"
    [] OTHER -> ""
StructShows(filled, cleared) == IF filled.nz = 0 THEN "nothing was there to be cleared" ELSE IF cleared.nz # 0 THEN "the freed structure still holds data" ELSE ""
=============================================================================
