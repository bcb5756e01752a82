--------------------------- MODULE ContainerTrace ---------------------------
(* Attempts to open data with given headers, and paths at which there is no such file. *)
EXTENDS Container, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1
TOpen == /\ Ev.op = "open" /\ Adv
         /\ LET v == Verdict(Ev.file) IN v = "any" \/ Ev.r = v
         /\ Ev.r = "ok" /\ Verdict(Ev.file) = "ok" => Ev.values = <<7, 8>>
TPath == Ev.op = "path" /\ Ev.there = FALSE /\ Ev.r = "err" /\ Adv
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED t
TNext == (i <= Len(Traces[t].ops) /\ (TOpen \/ TPath)) \/ TDone
TSpec == TInit /\ [][TNext]_<<t, i>>
=============================================================================
