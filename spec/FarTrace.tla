------------------------------ MODULE FarTrace ------------------------------
(***************************************************************************)
(* Histories of streams that grow beyond four gigabytes.                   *)
(***************************************************************************)
EXTENDS Far, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ FInit
TWrite == Ev.op = "write" /\ Write(Ev.n, Ev.at) /\ Adv
TAlloc == Ev.op = "alloc" /\ Alloc(Ev.parts, Ev.id) /\ Adv
\* Events that use the strings a and b, directly or through a virtual id, as read.
TRead == /\ Ev.op = "read" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED fvars
         /\ Len(Ev.want) = Len(Ev.got)
         /\ \A k \in 1..Len(Ev.want) : Ev.got[k] = <<Text(Ev.want[k][1]), Text(Ev.want[k][2])>>
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<t, pos, strings>>
TNext == (i <= Len(Traces[t].ops) /\ (TWrite \/ TAlloc \/ TRead)) \/ TDone
TSpec == TInit /\ [][TNext]_<<t, i, pos, strings>>
=============================================================================
