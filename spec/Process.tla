------------------------------- MODULE Process -------------------------------
(***************************************************************************)
(* Profile files and the processes that write them: what is in the file    *)
(* system, and what the metadata of a profile says.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES tree,     \* path -> "dir", "old" (some other file) or "profile"
          proc,     \* the process that wrote the last profile: [args, pid, t0, t1]
          ints      \* the integers it recorded
pvars == <<tree, proc, ints>>

Cat(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF a[Len(a)][1] = b[1][1]
       THEN [a EXCEPT ![Len(a)][2] = @ + b[1][2]] \o Tail(b)
       ELSE a \o b
Blank == <<<<32, 1>>>>
\* The arguments separated by blanks; a blank after the last one does no harm.
Joined(args) == FoldLeft(LAMBDA a, k : Cat(Cat(a, Blank), args[k]), args[1], [k \in 1..(Len(args) - 1) |-> k + 1])
IsCommandLine(cmd, args) == cmd = Joined(args) \/ cmd = Cat(Joined(args), Blank)
Leq(a, b) == \/ a = b
             \/ \E k \in 1..4 : a[k] < b[k] /\ \A j \in (k + 1)..4 : a[j] = b[j]

Init == tree = <<>> /\ proc = [args |-> <<>>, pid |-> <<>>, t0 |-> <<>>, t1 |-> <<>>] /\ ints = <<>>
HasMetadata(m) == /\ m.pid = proc.pid
                  /\ IsCommandLine(m.cmd, proc.args)
                  /\ Leq(proc.t0, m.start) /\ Leq(m.start, proc.t1)
\* A process writes a profile.
Write(args, pid, t0, t1, is) == proc' = [args |-> args, pid |-> pid, t0 |-> t0, t1 |-> t1] /\ ints' = is /\ UNCHANGED tree
\* A profile is created at a path: missing directories on the way are made, the file is new or
\* replaces what was there. That cannot work where a directory has that name, or where a file is
\* in the place of a directory on the way.
Possible(file, dirs) == /\ (file \in DOMAIN tree => tree[file] # "dir")
                        /\ \A k \in 1..Len(dirs) : dirs[k] \in DOMAIN tree => tree[dirs[k]] = "dir"
Create(file, dirs, is) ==
  /\ tree' = [x \in DOMAIN tree \union {file} \union {dirs[k] : k \in 1..Len(dirs)} |->
                IF x = file THEN "profile" ELSE IF x \in DOMAIN tree THEN tree[x] ELSE "dir"]
  /\ ints' = is /\ UNCHANGED proc
=============================================================================
