---------------------------- MODULE ProcessTrace ----------------------------
EXTENDS Process, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ Init
Tree(fs) == LET P == {fs[k][1] : k \in 1..Len(fs)} IN
            [x \in P |-> fs[CHOOSE k \in 1..Len(fs) : fs[k][1] = x][2]]
TProcess == Ev.op = "process" /\ Ev.r = "ok" /\ Write(Ev.args, Ev.pid, Ev.t0, Ev.t1, <<0, 1, 2>>) /\ Adv
TOpen == /\ Ev.op = "open" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED pvars
         /\ HasMetadata(Ev) /\ Ev.ints = ints /\ Ev.num = Len(ints)
TTree == Ev.op = "tree" /\ tree' = Tree(Ev.files) /\ Adv /\ UNCHANGED <<proc, ints>>
TCreate == /\ Ev.op = "create" /\ Adv
           /\ IF Possible(Ev.file, Ev.dirs)
              THEN Ev.r = "ok" /\ Create(Ev.file, Ev.dirs, [k \in 1..Ev.n |-> k - 1 + Ev.first])
              ELSE Ev.r = "fail" /\ UNCHANGED proc /\ ints' = <<-1>>
                   \* directories may have been made before it failed
                   /\ \E K \in SUBSET (1..Len(Ev.dirs)) :
                        tree' = [x \in DOMAIN tree \union {Ev.dirs[k] : k \in K} |-> IF x \in DOMAIN tree THEN tree[x] ELSE "dir"]
TList == Ev.op = "list" /\ Tree(Ev.files) = tree /\ Adv /\ UNCHANGED pvars
TReopen == /\ Ev.op = "reopen" /\ Adv /\ UNCHANGED pvars
           /\ IF ints = <<-1>> THEN TRUE ELSE Ev.r = "ok" /\ Ev.ints = ints /\ Ev.num = Len(ints)
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<pvars, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TProcess \/ TOpen \/ TTree \/ TCreate \/ TList \/ TReopen)) \/ TDone
TSpec == TInit /\ [][TNext]_<<pvars, t, i>>
=============================================================================
