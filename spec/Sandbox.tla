------------------------------ MODULE Sandbox ------------------------------
(* The system call filter of the program (C21): which calls it lets through, and
   a model of the part of the operating system that the calls act upon.

   A call is [abi, nr, a]: the calling convention (64, or 32 for the one of i386),
   the number of the call and its six arguments, each a BigNat (little endian
   sequence of bytes without trailing zeroes), up to 64 bits.

   The filter sees the full registers, the system often only the lower half of
   them.                                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, BigNat

N(k) == BFromInt(k)

\* numbers of calls
Read == 0        Write == 1     Open == 2       Close == 3     Fstat == 5
Lseek == 8       Mmap == 9      Mprotect == 10  Munmap == 11   Brk == 12
Ioctl == 16      Pwrite == 18   Readv == 19     Writev == 20   Mremap == 25
Dup == 32        Dup2 == 33     Socket == 41    Clone == 56    Fork == 57
Vfork == 58      Execve == 59   Exit == 60      Kill == 62     Fcntl == 72
Truncate == 76   Ftruncate == 77  Rename == 82  Mkdir == 83    Unlink == 87
Chmod == 90      Ptrace == 101  ExitGroup == 231  Openat == 257  NewFstatat == 262
Getrandom == 318 Execveat == 322

RdOnly == <<>>
LargeFile == <<0, 128>>                       \* 0x8000
ReadWrite == <<3>>                            \* PROT_READ | PROT_WRITE
PrivateAnon == <<34>>                         \* MAP_PRIVATE | MAP_ANONYMOUS
WinSize == <<19, 84>>                         \* TIOCGWINSZ 0x5413
GetAttr == <<1, 84>>                          \* TCGETS     0x5401

Always == {Read, Readv, Fstat, NewFstatat, Lseek, Getrandom, Exit, ExitGroup, Brk, Munmap, Mremap}

(* What the filter does: "allow", "kill", or "either" where it makes no
   difference to anyone.                                                      *)
Filter(c) ==
  LET a == c.a
      nr == IF Len(c.nr) <= 2 THEN BToInt(c.nr) ELSE -1
  IN CASE c.abi # 64 \/ nr = -1 -> "kill"
       [] nr \in Always -> "allow"
       \* opening for reading only
       [] nr = Open -> IF a[2] = RdOnly THEN "allow" ELSE IF a[2] = LargeFile THEN "either" ELSE "kill"
       [] nr = Openat -> IF a[3] = RdOnly THEN "allow" ELSE IF a[3] = LargeFile THEN "either" ELSE "kill"
       \* writing to standard output and error only
       [] nr \in {Write, Writev} -> IF a[1] \in {<<1>>, <<2>>} THEN "allow" ELSE "kill"
       \* closing anything but the standard streams
       [] nr = Close -> IF a[1] \notin {<<>>, <<1>>, <<2>>} THEN "allow" ELSE "kill"
       \* memory that cannot be executed and is not shared, where the system likes
       [] nr = Mmap -> IF a[1] = <<>> /\ a[3] = ReadWrite /\ a[4] = PrivateAnon THEN "allow" ELSE "kill"
       \* asking terminals for their size and attributes
       [] nr = Ioctl -> IF (a[1] = <<1>> /\ a[2] = WinSize) \/ a[2] = GetAttr THEN "allow" ELSE "kill"
       [] OTHER -> "kill"

\* ------------------------------------------------------- the operating system
(* fd: descriptor -> "none" | "in" | "out" | "ro" | "rw" | "sock"
   kept: no file is changed, created or removed       exec: new executable memory
   procs: processes                                   image: the program is itself
   others: other processes, terminals, the network were left alone            *)
Fds == 0..4
OSInit == [fd |-> [f \in Fds |-> CASE f = 0 -> "in" [] f \in {1, 2} -> "out" [] f = 3 -> "rw" [] OTHER -> "none"],
           kept |-> TRUE, exec |-> FALSE, procs |-> 1, image |-> TRUE, others |-> TRUE, alive |-> TRUE]

At(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
\* the lower half of a register, as a descriptor
Fd(x) == IF At(x, 2) = 0 /\ At(x, 3) = 0 /\ At(x, 4) = 0 /\ At(x, 1) \in Fds THEN At(x, 1) ELSE -1
HasBit(x, byte, bit) == (At(x, byte) \div (2 ^ bit)) % 2 = 1
Lowest(s) == IF \E f \in Fds: s.fd[f] = "none" THEN CHOOSE f \in Fds: s.fd[f] = "none" /\ \A g \in Fds: s.fd[g] = "none" => f <= g ELSE -1
WithFd(s, f, k) == IF f = -1 THEN s ELSE [s EXCEPT !.fd[f] = k]
Mode(flags) == IF At(flags, 1) % 4 = 0 THEN "ro" ELSE "rw"
Creates(flags) == HasBit(flags, 1, 6) \/ HasBit(flags, 2, 1)       \* O_CREAT, O_TRUNC
OpenEff(s, flags) == LET t == WithFd(s, Lowest(s), Mode(flags)) IN IF Creates(flags) THEN [t EXCEPT !.kept = FALSE] ELSE t
WriteEff(s, f) == IF f = -1 THEN s
                  ELSE CASE s.fd[f] = "rw" -> [s EXCEPT !.kept = FALSE]
                         [] s.fd[f] = "sock" -> [s EXCEPT !.others = FALSE]
                         [] OTHER -> s
OSEff(s, c) ==
  LET a == c.a
      nr == BToInt(c.nr)
  IN CASE nr = Open -> OpenEff(s, a[2])
       [] nr = Openat -> OpenEff(s, a[3])
       [] nr \in {Write, Writev, Pwrite} -> WriteEff(s, Fd(a[1]))
       [] nr = Close -> WithFd(s, Fd(a[1]), "none")
       [] nr = Dup -> IF Fd(a[1]) = -1 THEN s ELSE WithFd(s, Lowest(s), s.fd[Fd(a[1])])
       [] nr = Dup2 -> IF Fd(a[1]) = -1 THEN s ELSE WithFd(s, Fd(a[2]), s.fd[Fd(a[1])])
       [] nr = Socket -> WithFd(s, Lowest(s), "sock")
       [] nr \in {Mmap, Mprotect} -> IF HasBit(a[3], 1, 2) THEN [s EXCEPT !.exec = TRUE] ELSE s
       [] nr \in {Clone, Fork, Vfork} -> [s EXCEPT !.procs = 2]
       [] nr \in {Execve, Execveat} -> [s EXCEPT !.image = FALSE]
       [] nr \in {Truncate, Ftruncate, Rename, Mkdir, Unlink, Chmod} -> [s EXCEPT !.kept = FALSE]
       [] nr \in {Kill, Ptrace} -> [s EXCEPT !.others = FALSE]
       [] nr = Ioctl -> IF a[2] = <<18, 84>> THEN [s EXCEPT !.others = FALSE] ELSE s      \* TIOCSTI types into a terminal
       [] nr \in {Exit, ExitGroup} -> [s EXCEPT !.alive = FALSE]
       [] OTHER -> s

(* One call under the filter. *)
Killed(c) == Filter(c) = "kill"
Call(s, c) == IF Killed(c) THEN [s EXCEPT !.alive = FALSE] ELSE OSEff(s, c)

Harmless(s) ==
  /\ s.kept /\ ~s.exec /\ s.procs = 1 /\ s.image /\ s.others
  /\ \A f \in Fds: s.fd[f] \notin {"sock"} /\ (s.fd[f] = "rw" => f = 3)
=============================================================================
