----------------------------- MODULE MC_Sandbox -----------------------------
(* Whatever calls a program that went astray makes under the filter, in whatever
   order and with whatever in the upper halves of the registers: it reads, prints
   to what were its standard streams, uses memory and ends. The program starts with
   a descriptor open for writing to a file, and cannot even use that.
   Without the filter (Filtered = FALSE) all of it can happen.                *)
EXTENDS Sandbox
CONSTANT Filtered

Any == <<255, 255, 255, 255, 255, 255, 255, 255>>
High(x) == {x, <<At(x, 1), At(x, 2), 0, 0, 1>>}                 \* also with a bit in the upper half
FdArgs == UNION {High(N(f)): f \in Fds}
Flags == UNION {High(x): x \in {<<>>, <<1>>, <<2>>, <<64>>, <<0, 2>>, <<65>>, <<66, 2>>, <<0, 128>>, <<0, 0, 8>>}}
C(nr, a) == [abi |-> 64, nr |-> N(nr), a |-> a]
Z == <<>>
Calls ==
     {C(nr, <<Z, f, Z, Z, Z, Z>>): nr \in {Open}, f \in Flags}
  \cup {C(Openat, <<Any, Z, f, Z, Z, Z>>): f \in Flags}
  \cup {C(nr, <<f, Any, N(4), Z, Z, Z>>): nr \in {Read, Write, Writev, Pwrite, Readv, Close, Dup, Ftruncate, Fstat, Lseek}, f \in FdArgs}
  \cup {C(Dup2, <<f, g, Z, Z, Z, Z>>): f \in FdArgs, g \in FdArgs}
  \cup {C(Mmap, <<p, N(4096), q, m, Z, Z>>): p \in {Z, N(4096)}, q \in UNION {High(N(k)): k \in 0..7}, m \in {<<34>>, <<33>>, <<2>>, <<50>>}}
  \cup {C(Mprotect, <<N(4096), N(4096), N(k), Z, Z, Z>>): k \in 0..7}
  \cup {C(Ioctl, <<f, r, Z, Z, Z, Z>>): f \in FdArgs, r \in UNION {High(x): x \in {<<18, 84>>, WinSize, GetAttr}}}
  \cup {C(nr, <<Z, Z, Z, Z, Z, Z>>): nr \in {Fork, Vfork, Clone, Execve, Execveat, Kill, Ptrace, Socket, Truncate, Rename, Mkdir, Unlink, Chmod, Exit, ExitGroup, Getrandom, Brk, Munmap, Mremap}}
  \cup {[abi |-> 32, nr |-> N(nr), a |-> <<N(1), Z, Z, Z, Z, Z>>]: nr \in 0..12}

VARIABLE s
Init == s = OSInit
Next == s.alive /\ \E c \in Calls: s' = IF Filtered THEN Call(s, c) ELSE IF c.abi = 64 THEN OSEff(s, c) ELSE s
Spec == Init /\ [][Next]_s
Safe == Harmless(s)
\* what the program needs is allowed
Needed == {C(Open, <<Z, Z, Z, Z, Z, Z>>), C(Openat, <<Any, Z, Z, Z, Z, Z>>), C(Read, <<N(3), Z, Z, Z, Z, Z>>), C(Close, <<N(3), Z, Z, Z, Z, Z>>), C(Fstat, <<N(1), Z, Z, Z, Z, Z>>),
           C(Write, <<N(1), Z, Z, Z, Z, Z>>), C(Write, <<N(2), Z, Z, Z, Z, Z>>), C(Getrandom, <<Z, Z, Z, Z, Z, Z>>), C(ExitGroup, <<Z, Z, Z, Z, Z, Z>>), C(Brk, <<Z, Z, Z, Z, Z, Z>>),
           C(Mmap, <<Z, N(4096), N(3), N(34), Any, Z>>), C(Ioctl, <<N(4), GetAttr, Z, Z, Z, Z>>)}
ASSUME \A c \in Needed: Filter(c) = "allow"
=============================================================================
